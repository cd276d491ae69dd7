CONSTANT MaxLen = 2
SPECIFICATION Spec
INVARIANTS LatestWins Untouched
VIEW View
