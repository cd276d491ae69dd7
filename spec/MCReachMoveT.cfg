SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Kinds = {"bdu", "one"}
INVARIANTS WalkIsLimit RoomIsHull
CHECK_DEADLOCK FALSE
