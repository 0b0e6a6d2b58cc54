SPECIFICATION SpecC
CONSTANTS M = 3
          N = 3
          MaxLand = 3
          Margin = 1
          Depth = 0
INVARIANTS InvHitIsLand InvPrevIsWater InvPrevAdjacent InvEndNotLand InvBox InvWall InvStair InvCoarse
CHECK_DEADLOCK FALSE
