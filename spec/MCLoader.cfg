SPECIFICATION Spec
CONSTANTS
  FRAMES = 2
  LAYERS = 2
  KINDS = {"none", "img", "link0", "link1", "link9", "tile"}
  LTYPES = {0, 2}
  TAGSETS <- TagsQ
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
