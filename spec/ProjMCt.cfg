SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS
 BOXES = {10, 20, 60, 80, 100, 190, 300}
 SIZES = {50, 64, 100, 333, 800}
 STEPS = {0, 1, 3, 4, 7, 8, 11}
