CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANTS Content OneState Forward DayLong AllDay
