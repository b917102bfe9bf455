SPECIFICATION Spec
CONSTANTS
  FRAMES = 4
  LAYERS = 1
  KINDS = {"none", "img", "link0", "link1", "link2", "link9"}
  LTYPES = {0, 2}
  TAGSETS <- TagsQ
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
