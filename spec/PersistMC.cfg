SPECIFICATION Spec
INVARIANT ArchiveSound
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 NAMES = {"p", "q"}
 VALS = {0, 1}
 GEN = FALSE
 LEN = 0
