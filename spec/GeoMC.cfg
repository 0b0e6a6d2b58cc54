SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 2
 CH = 4
INVARIANT Triangles
INVARIANT Invariance
INVARIANT Tiling
INVARIANT Boxes
INVARIANT Thinning
