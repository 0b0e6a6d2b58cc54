SPECIFICATION SpecC
CONSTANTS M = 3
          N = 4
          MaxLand = 2
          Margin = 1
          Depth = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
