SPECIFICATION Spec
CONSTANTS
  DEPTH = 2
  JUNK = "some"
  EXTRA = "some"
  BASES = {1, 2}
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
