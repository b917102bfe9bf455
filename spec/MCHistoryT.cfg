SPECIFICATION Spec
CONSTANT DEPTH = 4
INVARIANTS Loaded Repeatable Emit
PROPERTY Bounded
CHECK_DEADLOCK FALSE
