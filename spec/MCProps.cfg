SPECIFICATION Spec
CONSTANTS
  MAPS = 2
  PROPS = 2
  DEEP = {3, 8, 63, 64, 65}
  FLAGS = {0, 1, 2, 3, 4, 7}
INVARIANTS Faithful DepthRight BadSize TooLong BadType BeyondSize EmptySize Emit
CHECK_DEADLOCK FALSE
