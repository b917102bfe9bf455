SPECIFICATION Spec
CONSTANTS
  CHAIN = 6
  COUNTS = {"one", "max"}
  ELEMS = {0, 40}
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
