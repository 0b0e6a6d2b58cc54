SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT LASTYEAR = 2037
INVARIANT Numbered
INVARIANT Weekly
INVARIANT Sundays
INVARIANT Seconds
INVARIANT Rounding
INVARIANT Offsets
INVARIANT Ordered
