SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Kinds = {"trap", "trapb", "ereg", "jr", "jrb"}
INVARIANTS WalkIsLimit RoomIsHull
CHECK_DEADLOCK FALSE
