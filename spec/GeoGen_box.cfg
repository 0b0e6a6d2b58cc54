SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 LEN = 12
 KIND = "box"
