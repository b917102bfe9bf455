SPECIFICATION Spec
CONSTANTS
  DEPTH = 1
  JUNK = "all"
  EXTRA = "all"
  BASES = {1, 2}
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
