SPECIFICATION Spec
CONSTANTS
  ROWS = {"hsl", "alpha"}
  MODES <- HslOnly
  BASE = {0, 1, 21, 42, 43, 63, 64, 84, 85}
  ALPHAS = {0, 1, 2, 3, 64, 100, 127, 128, 129, 200, 253, 254, 255}
  OPS = {0, 1, 2, 64, 127, 128, 200, 254, 255}
  COLORS <- ColorsQ
  GRID = {0, 1, 51, 127, 128, 200, 254, 255}
INVARIANTS Defined InRange SameAlpha Nothing OnNothing AlphaBetween Luminosity1 Grays Same Emit
CHECK_DEADLOCK FALSE
