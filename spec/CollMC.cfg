SPECIFICATION Spec
CONSTANTS Elems = {"a", "b", "c", "d"}
          Depth = 0
INVARIANTS InvDistinct InvOrder InvRefuse InvNotify InvSlice
CHECK_DEADLOCK FALSE
