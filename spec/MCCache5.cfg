SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS RightCase FirstRun Refusal Requests Again Nums Grows
