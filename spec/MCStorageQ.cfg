CONSTANT Big = FALSE
SPECIFICATION Spec
INVARIANTS Whole Alone Off
