CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANTS Alone Owned
VIEW View
