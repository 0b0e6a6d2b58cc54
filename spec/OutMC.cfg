SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Faithful
PROPERTY DueGrows
CONSTANTS
 STEPS = 2
 NOUT = 1
 GEN = FALSE
 LEN = 0
