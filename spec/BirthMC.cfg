SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MAXN = 2
 STEPS = {10, 150, 180, 500, 2000, 9980, 12000}
INVARIANTS Sensible Faster Still Mirror Smooth Lighter Exact Frozen Fits Units
PROPERTIES Kept
