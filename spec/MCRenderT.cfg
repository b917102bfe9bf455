SPECIFICATION Spec
CONSTANTS
  CANVASES <- CanvasesT
  SIZES = {0, 1, 2, 3, 5}
  COORDS <- CoordsT
  STYLES = {"normal", "half"}
  STACK = 1
  MASKS <- None
  ORDERS = {"up"}
  FRAMESETS <- FrameSetsT
INVARIANTS Right Emit
PROPERTY Local
CHECK_DEADLOCK FALSE
