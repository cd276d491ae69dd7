CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANTS Whole NeverEmpty Plain Brackets Exact
VIEW View
