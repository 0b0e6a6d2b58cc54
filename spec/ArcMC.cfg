SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 TYPES = {"gnome.model.Model", "gnome.movers.wind_movers.WindMover", "gnome.spill.release.SpatialRelease"}
INVARIANTS Same NoneLost Whole Modern Kept Flat Inside
