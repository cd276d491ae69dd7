CONSTANTS
  MaxLen = 2
  Ks = {1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS Weighted Moved
VIEW View
