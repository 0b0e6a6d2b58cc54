SPECIFICATION SpecH
CONSTANTS Elems = {"a", "b"}
          Depth = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
