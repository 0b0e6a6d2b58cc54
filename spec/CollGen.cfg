SPECIFICATION SpecH
CONSTANTS Elems = {"a", "b", "c", "d", "e"}
          Depth = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
