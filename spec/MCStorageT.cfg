CONSTANT Big = TRUE
SPECIFICATION Spec
INVARIANTS Whole Alone Off
