"""Stand-in for NOAA's `gridded` package (not installable in this sandbox).

Only the part PyGNOME needs to be *importable*, plus the two things it calls at
run time without a netCDF grid: the time axis (`gridded.time.Time`) and the
point-shape helpers (`gridded.utilities`).  It stands for a dependency, never
for PyGNOME code; see DESIGN.md ("Environment").
"""
__version__ = "0.7.5"
from . import utilities, time, grids, depth
from .variable import Variable, VectorVariable
