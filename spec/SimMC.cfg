SPECIFICATION Spec
CONSTANTS MaxSteps = 4
          Depth = 0
          Configs = "all"
INVARIANTS InvIds InvCount InvInside InvAge InvClock InvRewound InvMono InvPlace
CHECK_DEADLOCK FALSE
