SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 STEPS = 1
 NOUT = 1
 GEN = TRUE
 LEN = 7
