CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANTS LatestWins Untouched
VIEW View
