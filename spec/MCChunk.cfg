SPECIFICATION Spec
CONSTANTS
  VALUES = {0, 255}
  EXTRA = {1, 2}
  ALLBITS = FALSE
INVARIANTS Faithful Consumes Short ExtraIgnored ReservedIgnored BadSize SameType Emit
CHECK_DEADLOCK FALSE
