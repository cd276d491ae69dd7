CONSTANT Big = TRUE
SPECIFICATION Spec
INVARIANTS Shrinks Shoulders Slopes Untouched Stands
