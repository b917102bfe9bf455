SPECIFICATION Spec
CONSTANTS
  CANVASES <- None
  SIZES = {1}
  COORDS = {0}
  STYLES = {"half", "empty", "lock", "mult", "clear", "odd", "hodd", "oddly", "short", "hshort", "group", "hgroup", "tiles"}
  STACK = 3
  MASKS <- MasksT
  ORDERS = {"up", "down"}
  FRAMESETS <- None
INVARIANTS Right Emit
PROPERTY Local
CHECK_DEADLOCK FALSE
