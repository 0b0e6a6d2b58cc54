SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MAXT = 300
 MAXID = 2
 DTS = {1, 2}
INVARIANTS Fresh Young Owned Same Still Deep Back Twice Methods Middle Ranges Roots
