SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MAXN = 3
 STEPS = {10, 50, 150, 180, 300, 500, 1000, 2000, 3500, 5000, 7000, 9980, 12000, 15000}
INVARIANTS Sensible Faster Still Mirror Smooth Lighter Exact Frozen Fits Units
PROPERTIES Kept
