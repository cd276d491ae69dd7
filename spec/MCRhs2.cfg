CONSTANT MaxLen = 2
SPECIFICATION Spec
INVARIANTS Whole NeverEmpty Plain Brackets Exact
VIEW View
