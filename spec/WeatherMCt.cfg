SPECIFICATION Spec
CONSTANTS MaxC = 2
 Steps = 3
 Gen = FALSE
 Depth = 0
INVARIANTS Conserved Typed LandKeeps WindowShared
PROPERTIES Monotone
CONSTRAINT Small
CHECK_DEADLOCK FALSE
