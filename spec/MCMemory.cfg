SPECIFICATION Spec
CONSTANTS
  CHAIN = 4
  COUNTS = {"one", "few", "2^28", "max"}
  ELEMS = {0, 1, 40}
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
