SPECIFICATION Spec
CONSTANTS
  CHAIN = 3
  COUNTS = {"none", "one", "few", "word", "2^20", "2^28", "2^31", "max"}
  ELEMS = {0, 1, 300}
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
