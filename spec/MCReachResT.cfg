SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Kinds = {"trap", "trapb", "ereg", "jr", "jrb"}
INVARIANTS WalkIsLimit RoomIsHull
CHECK_DEADLOCK FALSE
