SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 3
 CH = 6
INVARIANT Triangles
INVARIANT Invariance
INVARIANT Tiling
INVARIANT Boxes
INVARIANT Thinning
