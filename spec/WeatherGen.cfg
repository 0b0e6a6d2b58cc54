SPECIFICATION GenSpec
CONSTANTS MaxC = 1
 Steps = 3
 Gen = TRUE
 Depth = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
