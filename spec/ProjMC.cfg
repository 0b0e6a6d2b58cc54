SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS
 BOXES = {10, 20, 60, 190}
 SIZES = {50, 100, 333}
 STEPS = {0, 3, 8, 11}
