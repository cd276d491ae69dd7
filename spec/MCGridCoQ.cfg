CONSTANT Deep = FALSE
CONSTANT Kinds = {"co"}
SPECIFICATION Spec
INVARIANTS SameCost Duality
