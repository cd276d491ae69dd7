SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS RightCase FirstRun Refusal Requests Again Nums Grows
