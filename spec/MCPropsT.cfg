SPECIFICATION Spec
CONSTANTS
  MAPS = 2
  PROPS = 3
  DEEP = {3, 4, 8, 16, 31, 32, 33, 62, 63, 64, 65, 66}
  FLAGS = {0, 1, 2, 3, 4, 5, 6, 7}
INVARIANTS Faithful DepthRight BadSize TooLong BadType BeyondSize EmptySize Emit
CHECK_DEADLOCK FALSE
