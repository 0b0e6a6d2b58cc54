SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 5
 TYPES = {"gnome.model.Model", "gnome.movers.wind_movers.WindMover", "gnome.spill.release.SpatialRelease", "gnome.movers.py_wind_movers.PyWindMover", "gnome.movers.c_wind_movers.WindMover"}
INVARIANTS Same NoneLost Whole Modern Kept Flat Inside
