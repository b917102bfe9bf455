SPECIFICATION Spec
CONSTANTS
  DEPTH = 2
  JUNK = "all"
  EXTRA = "all"
  BASES = {1, 2}
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
