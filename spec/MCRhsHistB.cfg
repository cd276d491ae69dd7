CONSTANTS
  MaxLen = 2
  Calcs = 2
SPECIFICATION Spec
INVARIANTS InForce Apart Decided
VIEW View
