CONSTANTS
  MaxLen = 3
  Calcs = 1
SPECIFICATION Spec
INVARIANTS InForce Apart Decided
VIEW View
