CONSTANT Deep = TRUE
CONSTANT Kinds = {"co"}
SPECIFICATION Spec
INVARIANTS SameCost Duality
