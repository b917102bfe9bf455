SPECIFICATION Spec
CONSTANTS
  VALUES = {0, 1, 2, 127, 128, 255}
  EXTRA = {1, 2, 3, 7}
  ALLBITS = TRUE
INVARIANTS Faithful Consumes Short ExtraIgnored ReservedIgnored BadSize SameType Emit
CHECK_DEADLOCK FALSE
