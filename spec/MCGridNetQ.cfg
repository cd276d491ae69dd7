CONSTANT Deep = FALSE
CONSTANT Kinds = {"net"}
SPECIFICATION Spec
INVARIANTS SameCost Duality
