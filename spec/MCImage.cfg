SPECIFICATION Spec
CONSTANTS
  DEPTHS = {8, 16, 32, 24}
  DIMS = {0, 1, 3}
  PACKS = {"raw", "stored", "two", "fixed", "trail", "cut", "sum", "none", "plain"}
  DELTAS <- DeltasS
  BUFS = {"less", "exact", "more"}
  FILLS = {5}
  TIS = {0, 2}
  PALS <- PalsS
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
