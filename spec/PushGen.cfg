SPECIFICATION Spec
CONSTANTS Depth = 6
INVARIANTS Emit
CHECK_DEADLOCK FALSE
