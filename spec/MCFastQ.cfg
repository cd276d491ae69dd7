CONSTANT Lens = {0, 1, 3, 5, 7}
SPECIFICATION Spec
INVARIANTS InProfile SinceTwo
PROPERTIES FiveMinutes OnlyForward
