SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 LEN = 8
 KIND = "pip"
