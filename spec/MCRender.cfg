SPECIFICATION Spec
CONSTANTS
  CANVASES <- CanvasesQ
  SIZES = {0, 1, 2, 4}
  COORDS <- CoordsQ
  STYLES = {"normal", "half"}
  STACK = 1
  MASKS <- None
  ORDERS = {"up"}
  FRAMESETS <- FrameSetsQ
INVARIANTS Right Emit
PROPERTY Local
CHECK_DEADLOCK FALSE
