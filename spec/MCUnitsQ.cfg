CONSTANT Big = FALSE
SPECIFICATION Spec
INVARIANTS Shrinks Shoulders Slopes Untouched Stands
