SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 LEN = 14
