SPECIFICATION Spec
CONSTANT DEPTH = 5
INVARIANTS LayersRight SlicesRight TagsRight SpriteRight SlotsRight Whole Emit
CHECK_DEADLOCK FALSE
