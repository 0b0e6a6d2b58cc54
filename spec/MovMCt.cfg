SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MAXT = 600
 MAXID = 3
 DTS = {1, 2}
INVARIANTS Fresh Young Owned Same Still Deep Back Twice Methods Middle Ranges Roots
