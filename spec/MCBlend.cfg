SPECIFICATION Spec
CONSTANTS
  ROWS = {"chan", "alpha"}
  MODES <- Separable
  BASE = {0, 1, 21, 42, 43, 63, 64, 84, 85}
  ALPHAS = {0, 1, 127, 128, 254, 255}
  OPS = {0, 1, 128, 255}
  COLORS <- ColorsQ
  GRID = {}
INVARIANTS Defined InRange SameAlpha Nothing OnNothing Covering AlphaBetween Between Opaques Commutative Identity Turned Inverted Monotone Sided Emit
CHECK_DEADLOCK FALSE
