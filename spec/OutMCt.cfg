SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Faithful
PROPERTY DueGrows
CONSTANTS
 STEPS = 3
 NOUT = 1
 GEN = FALSE
 LEN = 0
