SPECIFICATION SpecEl
CONSTANTS M = 3
          N = 3
          MaxLand = 2
          Margin = 1
          Depth = 3
INVARIANTS InvEl
CHECK_DEADLOCK FALSE
