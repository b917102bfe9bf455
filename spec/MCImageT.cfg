SPECIFICATION Spec
CONSTANTS
  DEPTHS = {8, 16, 32, 24}
  DIMS = {0, 1, 2, 3, 4, 7}
  PACKS = {"raw", "stored", "two", "fixed", "trail", "cut", "sum", "none", "plain"}
  DELTAS <- DeltasQ
  BUFS = {"empty", "less", "exact", "one", "more"}
  FILLS = {5, 248}
  TIS = {0, 2, 255}
  PALS <- PalsQ
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
