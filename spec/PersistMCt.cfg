SPECIFICATION Spec
INVARIANT ArchiveSound
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 NAMES = {"p", "q"}
 VALS = {0, 1}
 GEN = FALSE
 LEN = 0
