SPECIFICATION Spec
CONSTANT DEPTH = 4
INVARIANTS LayersRight SlicesRight TagsRight SpriteRight SlotsRight Whole Emit
CHECK_DEADLOCK FALSE
