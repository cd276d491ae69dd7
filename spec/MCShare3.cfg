CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANTS Alone Owned
VIEW View
