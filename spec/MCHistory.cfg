SPECIFICATION Spec
CONSTANT DEPTH = 3
INVARIANTS Loaded Repeatable Emit
PROPERTY Bounded
CHECK_DEADLOCK FALSE
