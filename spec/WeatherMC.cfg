SPECIFICATION Spec
CONSTANTS MaxC = 1
 Steps = 3
 Gen = FALSE
 Depth = 0
INVARIANTS Conserved Typed LandKeeps WindowShared
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
