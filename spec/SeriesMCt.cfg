SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS
 VALS = {0, 7300, 42000}
 TIMES = {0, 600, 3601, 90000}
 STEPS = 6
