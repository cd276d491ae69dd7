CONSTANT Lens = {0, 1, 2, 3, 4, 5, 6, 9}
SPECIFICATION Spec
INVARIANTS InProfile SinceTwo
PROPERTIES FiveMinutes OnlyForward
