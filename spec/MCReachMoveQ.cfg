SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Kinds = {"bdu", "one"}
INVARIANTS WalkIsLimit RoomIsHull
CHECK_DEADLOCK FALSE
