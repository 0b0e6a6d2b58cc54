SPECIFICATION SpecH
CONSTANTS MaxSteps = 4
          Depth = 6
          Configs = "one"
INVARIANT Emit
CHECK_DEADLOCK FALSE
