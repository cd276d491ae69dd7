SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
  Kinds = {"fsr", "fast"}
INVARIANTS WalkIsLimit RoomIsHull
CHECK_DEADLOCK FALSE
