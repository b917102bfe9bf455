SPECIFICATION Spec
CONSTANTS
  ROWS = {"hsl", "alpha"}
  MODES <- HslOnly
  BASE = {0, 1, 21, 42, 43, 63, 64, 84, 85}
  ALPHAS = {0, 1, 127, 128, 254, 255}
  OPS = {0, 1, 128, 255}
  COLORS <- ColorsQ
  GRID = {0, 1, 100, 255}
INVARIANTS Defined InRange SameAlpha Nothing OnNothing AlphaBetween Luminosity1 Grays Same Emit
CHECK_DEADLOCK FALSE
