CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANTS Content OneState Forward DayLong AllDay
