CONSTANT Deep = TRUE
CONSTANT Kinds = {"net"}
SPECIFICATION Spec
INVARIANTS SameCost Duality
