SPECIFICATION Spec
CONSTANTS
  CANVASES <- None
  SIZES = {1}
  COORDS = {0}
  STYLES = {"half", "lock", "mult", "odd", "short", "group", "hgroup", "tiles"}
  STACK = 3
  MASKS <- MasksQ
  ORDERS = {"up", "down"}
  FRAMESETS <- None
INVARIANTS Right Emit
PROPERTY Local
CHECK_DEADLOCK FALSE
