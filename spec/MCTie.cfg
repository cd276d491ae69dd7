SPECIFICATION Spec
INVARIANTS Served Within Merit Alike
