CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANTS LatestWins Untouched
VIEW View
