SPECIFICATION Spec
CONSTANTS
  DEPTH = 4
  TIS = {0, 2}
  SPLITS = {0, 1}
INVARIANTS Right Again Emit
CHECK_DEADLOCK FALSE
