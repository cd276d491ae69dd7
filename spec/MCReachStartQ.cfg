SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Kinds = {"fsr", "fast"}
INVARIANTS WalkIsLimit RoomIsHull
CHECK_DEADLOCK FALSE
