SPECIFICATION Spec
CONSTANTS
  FRAMES = 4
  COUNTS = {0, 1, 2, 3}
  DELTAS <- DeltasQ
  TRAILS = {0, 1, 7}
  FAULTS = {"none", "long", "short", "tiny", "zero", "huge", "magic"}
  CUTS <- CutsQ
  HDRS = {"ok", "magic", "reserved", "depth", "short"}
  MIXED <- MixedQ
INVARIANTS Progress Accepted Reported Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
