"""objects of every persisted kind with seeded settings, and their projection to plain attribute lists.
The tables of settings are written down here by hand; nothing is asked of the schemas."""
import hashlib, json, os
from datetime import datetime, timedelta
import numpy as np
import gnome
from gnome.model import Model
from gnome.maps import GnomeMap, MapFromBNA
from gnome.environment import Wind, Water, Waves, Tide
from gnome.environment.running_average import RunningAverage
from gnome.environment.environment_objects import SteadyUniformCurrent
from gnome.movers import (SimpleMover, RandomMover, RandomMover3D, PointWindMover, WindMover, CurrentMover, RiseVelocityMover)
from gnome.spills import Spill
from gnome.spills.release import PointLineRelease, GridRelease, PolygonRelease
from gnome.spills.gnome_oil import GnomeOil
from gnome.spills.substance import NonWeatheringSubstance
from gnome.weatherers import (Evaporation, NaturalDispersion, Emulsification, FayGravityViscous, Langmuir, Skimmer, Burn,
                              ChemicalDispersion, Beaching, HalfLifeWeatherer, Dissolution, Biodegradation)
from gnome.outputters import (NetCDFOutput, ShapeOutput, KMZOutput, TrajectoryGeoJsonOutput, WeatheringOutput, SpillJsonOutput,
                              BinaryOutput, OilBudgetOutput)
from gnome.utilities.inf_datetime import InfDateTime

T = datetime(2021, 5, 6, 7, 0, 0)
H = timedelta(hours=1)


def digest(b):
    return hashlib.sha1(b).hexdigest()[:12]


SNAP = {}
FIGURES = [9]


def num(x):
    """nine (six) figures; a number within rounding noise of one seen before gets its text, so that noise decides nothing"""
    x = float(x)
    if x != x:
        return "nan"
    n = FIGURES[0]
    f, e = ".%dg" % (n + 2), 10.0 ** -(n + 3)
    s = SNAP.get((n, format(x, f)))
    if s is None:
        s = format(x * (1 + 2.3456 * e), ".%dg" % n)
        s = "0" if s == "-0" else s
        for y in (x, x * (1 - e), x * (1 + e)):
            SNAP.setdefault((n, format(y, f)), s)
    return s


def cv(v):
    """value -> canonical text; numbers to six figures, independent of container types"""
    if v is None:
        return "None"
    if isinstance(v, (bool, np.bool_)):
        return "yes" if v else "no"
    if isinstance(v, (int, float, np.integer, np.floating)):
        return num(v)
    if isinstance(v, str):
        return "'" + v + "'"
    if isinstance(v, os.PathLike):
        return cv(os.fspath(v))
    if isinstance(v, np.datetime64):
        return str(v.astype("datetime64[s]"))
    if isinstance(v, datetime):
        return v.replace(microsecond=0).isoformat()
    if isinstance(v, timedelta):
        return num(v.total_seconds()) + "s"
    if type(v).__name__ in ("InfTime", "MinusInfTime", "InfDateTime"):
        return "-inf" if "-" in repr(v) or "Minus" in type(v).__name__ else "inf"
    if isinstance(v, dict):
        return "{" + ",".join(str(k) + ":" + cv(v[k]) for k in sorted(v)) + "}"
    if isinstance(v, np.void):
        return "(" + ",".join(cv(v[n]) for n in v.dtype.names) + ")"
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return cv(v[()])
    if hasattr(v, "tolist") and not hasattr(v, "__len__"):
        return cv(v.tolist())
    if hasattr(v, "__iter__"):
        return "(" + ",".join(cv(x) for x in v) + ")"
    if type(v).__name__ == "TZOffset":
        return "tz(%s,%s)" % (cv(v.offset), cv(v.title))
    return "<" + type(v).__name__ + ">"


def filecontent(p):
    try:
        with open(p, "rb") as f:
            return "file:" + digest(f.read())
    except Exception as e:
        return "unreadable"


PROC = ["name", "on", "active_range"]
OUT = ["name", "on", "output_zero_step", "output_last_step", "output_single_step", "output_timestep", "output_start_time"]
UNC = ["uncertain_duration", "uncertain_time_delay"]
WSC = ["uncertain_speed_scale", "uncertain_angle_scale"]
REL = ["name", "release_time", "end_release_time", "num_elements", "num_per_timestep", "release_mass"]
SUB = ["name", "windage_range", "windage_persist", "standard_density", "is_weatherable"]
# kind -> (settings, references to other objects)
TABLE = {
    "Model": (["name", "time_step", "weathering_substeps", "start_time", "duration", "uncertain", "cache_enabled",
               "num_time_steps", "make_default_refs", "mode", "location", "run_backwards", "weathering_activated"],
              ["map", "environment", "spills", "movers", "weatherers", "outputters"]),
    "GnomeMap": (["name", "map_bounds", "spillable_area"], []),
    "MapFromBNA": (["name", "map_bounds", "spillable_area", "refloat_halflife", "raster_size", "shift_lons", "@filename", "+land"], []),
    "Wind": (["name", "description", "latitude", "longitude", "source_id", "source_type", "units", "speed_uncertainty_scale",
              "+series", "extrapolation_is_allowed", "timezone_offset"], []),
    "Water": (["name", "units", "temperature", "salinity", "sediment", "wave_height", "fetch"], []),
    "Waves": (["name", "make_default_refs"], ["wind", "water"]),
    "RunningAverage": (["name", "past_hours_to_average"], ["wind"]),
    "SteadyUniformCurrent": (["name", "speed", "direction"], []),
    "SimpleMover": (PROC + ["velocity", "uncertainty_scale"], []),
    "RandomMover": (PROC + ["diffusion_coef", "uncertain_factor"], []),
    "RandomMover3D": (PROC + ["vertical_diffusion_coef_above_ml", "vertical_diffusion_coef_below_ml", "mixed_layer_depth",
                              "horizontal_diffusion_coef_above_ml", "horizontal_diffusion_coef_below_ml", "surface_is_allowed"], []),
    "PointWindMover": (PROC + UNC + WSC, ["wind"]),
    "WindMover": (PROC + UNC + WSC + ["scale_value", "default_num_method"], ["wind"]),
    "CurrentMover": (PROC + UNC + ["scale_value", "default_num_method", "uncertain_along", "uncertain_cross"], ["current"]),
    "RiseVelocityMover": (PROC, []),
    "Spill": (["name", "on", "amount", "units", "amount_uncertainty_scale"], ["release", "substance", "water"]),
    "PointLineRelease": (REL + ["start_position", "end_position"], []),
    "GridRelease": (["name", "release_time", "num_elements", "release_mass", "+points"], []),
    "PolygonRelease": (REL + ["+polys"], []),
    "NonWeatheringSubstance": (SUB, []),
    "GnomeOil": (["name", "windage_range", "windage_persist", "standard_density", "is_weatherable", "api", "pour_point", "solubility",
                  "bullwinkle_fraction", "bullwinkle_time", "emulsion_water_fraction_max", "densities", "density_ref_temps",
                  "density_weathering", "kvis", "kvis_ref_temps", "kvis_weathering", "mass_fraction", "boiling_point",
                  "molecular_weight", "component_density", "num_components"], ["water"]),
    "Evaporation": (PROC, ["water", "wind"]),
    "NaturalDispersion": (PROC + ["algorithm"], ["water", "waves"]),
    "Emulsification": (PROC, ["waves"]),
    "Dissolution": (PROC, ["waves", "wind"]),
    "Biodegradation": (PROC, ["waves"]),
    "FayGravityViscous": (PROC + ["thickness_limit"], ["water"]),
    "Langmuir": (PROC, ["water", "wind"]),
    "Skimmer": (PROC + ["amount", "units", "efficiency"], ["water"]),
    "Burn": (PROC + ["area", "thickness", "area_units", "thickness_units", "efficiency"], ["water", "wind"]),
    "ChemicalDispersion": (PROC + ["fraction_sprayed", "efficiency"], ["waves"]),
    "Beaching": (PROC + ["units", "timeseries"], ["water"]),
    "HalfLifeWeatherer": (PROC + ["half_lives"], []),
    "NetCDFOutput": (OUT + ["filename", "which_data", "compress", "surface_conc", "zip_output"], []),
    "ShapeOutput": (OUT + ["filename", "zip_output", "include_certain_boundary", "certain_boundary_separate_by_spill",
                           "certain_boundary_hull_ratio", "include_uncertain_boundary", "timeoffset"], []),
    "KMZOutput": (OUT + ["filename"], []),
    "BinaryOutput": ([x for x in OUT if x != "name"] + ["filename", "zip_output"], []),
    "TrajectoryGeoJsonOutput": (OUT + ["round_data", "round_to", "output_dir"], []),
    "WeatheringOutput": (OUT + ["output_dir"], []),
    "SpillJsonOutput": (OUT + ["_additional_data", "include_uncertain_bounds"], []),
    "OilBudgetOutput": (["name", "on", "output_timestep", "output_start_time", "filename"], []),
}
COLL = {"environment", "spills", "movers", "weatherers", "outputters", "current_movers"}


def wind_series(w):
    ts = w.get_wind_data(units="m/s")
    return cv([(t, (round(float(u[0]), 4), round(float(u[1]), 3) % 360)) for t, u in zip(ts["time"], ts["value"])])


def special(o, name):
    if name == "+series":
        return wind_series(o)
    if name == "+land":
        return digest(np.asarray(o.raster).tobytes()) + str(o.raster.shape)
    if name == "+points":
        return cv(o.custom_positions)
    if name == "+polys":
        out = []
        for p in o.polygons:
            out.append(cv(np.asarray(p.exterior.coords)))
        return "(" + ",".join(out) + ")" + cv(o.weights)
    raise KeyError(name)


def getv(o, name):
    # oils are written with eight figures, and the mass of a volume follows from their density
    FIGURES[0] = 6 if type(o).__name__ == "GnomeOil" or name in ("release_mass", "amount") else 9
    try:
        if name.startswith("+"):
            return special(o, name)
        if name.startswith("@"):
            return filecontent(getattr(o, name[1:]))
        return cv(getattr(o, name))
    except Exception as e:
        return "raises " + type(e).__name__


class Heap:
    """the object graph reachable from root: nodes in order of discovery"""

    def __init__(self, root):
        self.objs, self.num = [], {}
        self.nodes = []
        self.add(root)

    def add(self, o):
        if id(o) in self.num:
            return self.num[id(o)]
        i = len(self.objs) + 1
        self.num[id(o)] = i
        self.objs.append(o)
        self.nodes.append(None)
        k = type(o).__name__
        attrs, refs = TABLE.get(k, (["name"], []))
        node = {"k": k, "u": str(getattr(o, "id", "?")), "a": [[n.lstrip("+@"), getv(o, n)] for n in attrs]}
        r = []
        for s in refs:
            try:
                v = getattr(o, s)
            except Exception as e:
                r.append([s, [-1]])
                continue
            if s in COLL:
                items = list(v) if v is not None else []
            else:
                items = [] if v is None else [v]
            r.append([s, [self.add(x) for x in items]])
        node["r"] = r
        self.nodes[i - 1] = node
        return i


def heap(root):
    return Heap(root).nodes


# ------------------------------------------------------------------ builders
class Build:
    def __init__(self, rng, scratch):
        self.rng, self.dir = rng, scratch
        self.n = 0
        self.pool = {"Wind": [], "Water": [], "Waves": []}

    def r(self, a, b, nd=3):
        return round(self.rng.uniform(a, b), nd)

    def name(self):
        """None, or names that collide with each other, with file names, or are awkward"""
        r = self.rng
        return r.choice([None, None, None, "alpha", "alpha", "Alpha", "alpha beta", "a/b", "a:b", "x.json", "wind", "Wind_1", "é-ø",
                         "alpha (0)", "1", "alpha.beta", "{curly}", "a%b", "version.txt", "...", "C:\\x\\y", " lead", "q?*"])

    def kw(self, **k):
        n = self.name()
        if n is not None:
            k["name"] = n
        return k

    def rng_time(self):
        r = self.rng
        if r.random() < 0.5:
            return (InfDateTime("-inf"), InfDateTime("inf"))
        s = T + H * r.randint(-3, 3) + timedelta(seconds=r.choice([0, 0, 1234]))
        e = s + H * r.randint(1, 9)
        x = r.random()
        if x < 0.25:
            return (InfDateTime("-inf"), e)
        if x < 0.5:
            return (s, InfDateTime("inf"))
        return (s, e)

    def fin_time(self):
        s = T + H * self.rng.randint(-3, 3) + timedelta(seconds=self.rng.choice([0, 0, 1234]))
        return (s, s + H * self.rng.randint(1, 9))

    def proc(self):
        return self.kw(on=self.rng.random() < 0.7, active_range=self.rng_time())

    def share(self, kind, make, none=0.0):
        r = self.rng
        if none and r.random() < none:
            return None
        p = self.pool[kind]
        if p and r.random() < 0.6:
            return r.choice(p)
        o = make()
        p.append(o)
        return o

    # --- environment
    def Wind(self):
        r = self.rng
        n = r.randint(1, 4)
        odd = timedelta(seconds=r.choice([0, 0, 0, 754]))
        ts = [(T + odd + H * (3 * i + r.randint(0, 2)), (self.r(0.5, 20, 2), self.r(0, 359, 1))) for i in range(n)]
        w = Wind(timeseries=ts, units=r.choice(["knots", "m/s", "mph"]), description=r.choice(["desc", "x y"]),
                 source_type=r.choice(["manual", "undefined", "buoy"]), source_id=r.choice(["undefined", "46001"]),
                 latitude=r.choice([None, self.r(-60, 60)]), longitude=r.choice([None, self.r(-170, 170)]),
                 speed_uncertainty_scale=r.choice([0.0, self.r(0.05, 0.5)]),
                 extrapolation_is_allowed=True if n == 1 else r.random() < 0.5, **self.kw())
        return w

    def Water(self):
        r = self.rng
        u = r.choice(["K", "C", "F"])
        t = {"K": self.r(275, 300, 2), "C": self.r(2, 27, 2), "F": self.r(40, 80, 2)}[u]
        k = self.kw(salinity=self.r(1, 35, 2), sediment=self.r(0, 0.05), units={"temperature": u})
        if r.random() < 0.5:
            k["wave_height"] = self.r(0.1, 4)
        elif r.random() < 0.5:
            k["fetch"] = self.r(100, 9000, 1)
        return Water(t, **k)

    def wind(self, none=0.0):
        return self.share("Wind", self.Wind, none)

    def water(self, none=0.0):
        return self.share("Water", self.Water, none)

    def Waves(self):
        return Waves(self.wind(), self.water(), **self.kw())

    def waves(self, none=0.0):
        return self.share("Waves", self.Waves, none)

    def RunningAverage(self):
        return RunningAverage(self.wind(), past_hours_to_average=self.rng.randint(1, 6), **self.kw())

    def SteadyUniformCurrent(self):
        return SteadyUniformCurrent(self.r(0.1, 2), self.r(0, 359, 1), **self.kw())

    # --- maps
    def box(self, lo, hi):
        r = self.rng
        x0, y0 = self.r(-lo, -lo / 2, 2), self.r(-lo, -lo / 2, 2)
        x1, y1 = self.r(hi / 2, hi, 2), self.r(hi / 2, hi, 2)
        return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]

    def GnomeMap(self):
        k = {}
        if self.rng.random() < 0.8:
            k["map_bounds"] = self.box(4, 4)
            if self.rng.random() < 0.6:
                k["spillable_area"] = [self.box(2, 2)]
        return GnomeMap(**self.kw(**k))

    def bna(self):
        self.n += 1
        sub = os.path.join(self.dir, "d%d_%d" % (self.n, self.rng.randrange(10**9)))
        os.makedirs(sub)
        fn = os.path.join(sub, self.rng.choice(["coast.bna", "coast.bna", "My Coast.bna"]))
        x, y = self.r(0.5, 1.0, 2), self.r(0.5, 1.0, 2)
        mb = self.box(4, 4)
        lines = ['"1","1",5', "%g,%g" % (x, y), "%g,%g" % (x + 0.5, y), "%g,%g" % (x + 0.5, y + 0.5), "%g,%g" % (x, y + 0.5), "%g,%g" % (x, y),
                 '"Map Bounds","1",4'] + ["%g,%g" % p for p in mb]
        if self.rng.random() < 0.5:
            lines += ['"SpillableArea","1",4'] + ["%g,%g" % p for p in self.box(2, 2)]
        open(fn, "w").write("\n".join(lines) + "\n")
        return fn

    def MapFromBNA(self):
        return MapFromBNA(self.bna(), **self.kw(refloat_halflife=self.r(0.1, 9, 2), raster_size=self.rng.choice([4096, 10000])))

    # --- movers
    def SimpleMover(self):
        return SimpleMover(velocity=(self.r(-2, 2), self.r(-2, 2), 0), uncertainty_scale=self.r(0, 1), **self.proc())

    def RandomMover(self):
        return RandomMover(diffusion_coef=self.r(1e3, 2e5, 1), uncertain_factor=self.r(1, 5), **self.proc())

    def RandomMover3D(self):
        return RandomMover3D(vertical_diffusion_coef_above_ml=self.r(1, 9), vertical_diffusion_coef_below_ml=self.r(.1, 1),
                             mixed_layer_depth=self.r(3, 30), horizontal_diffusion_coef_above_ml=self.r(1e4, 1e5, 1),
                             horizontal_diffusion_coef_below_ml=self.r(100, 900, 1), surface_is_allowed=self.rng.random() < .5, **self.proc())

    def PointWindMover(self):
        return PointWindMover(self.wind(), uncertain_duration=self.rng.randint(4, 36) / 4, uncertain_time_delay=self.rng.randint(0, 12) / 4,
                              uncertain_speed_scale=self.r(1, 3), uncertain_angle_scale=self.r(.1, .9), **self.proc())

    def WindMover(self):
        return WindMover(self.wind(), uncertain_duration=self.r(1000, 9000, 1), uncertain_time_delay=self.r(0, 300, 1),
                         uncertain_speed_scale=self.r(1, 3), uncertain_angle_scale=self.r(.1, .9), scale_value=self.r(.5, 2),
                         default_num_method=self.rng.choice(["RK2", "RK4", "Euler"]), **self.proc())

    def CurrentMover(self):
        return CurrentMover(current=self.SteadyUniformCurrent(), scale_value=self.r(.5, 2), uncertain_along=self.r(.1, .9),
                            uncertain_cross=self.r(.1, .9), uncertain_duration=self.r(10, 90) , **self.proc())

    def RiseVelocityMover(self):
        return RiseVelocityMover(**self.proc())

    # --- spills
    def relkw(self):
        r = self.rng
        s = T + timedelta(minutes=r.choice([0, 10, 60, 135, 20.75]))
        k = self.kw(release_time=s)
        if r.random() < 0.6:
            k["end_release_time"] = s + timedelta(minutes=r.choice([30, 60, 200, 47.4]))
        return k

    def PointLineRelease(self):
        r = self.rng
        k = self.relkw()
        if r.random() < 0.3:
            k["num_per_timestep"] = r.randint(1, 4)
        else:
            k["num_elements"] = r.randint(1, 9)
        if r.random() < 0.4:
            k["end_position"] = (self.r(-1, 1), self.r(-1, 1), self.r(0, 5))
        return PointLineRelease(start_position=(self.r(-1, 1), self.r(-1, 1), self.r(0, 5)), **k)

    def GridRelease(self):
        b = self.box(1, 1)
        return GridRelease(T, (b[0], b[2]), self.rng.choice([3, (2, 4)]), **self.kw(release_mass=self.r(0, 50)))

    def PolygonRelease(self):
        import geojson
        b = self.box(1, 1)
        feats = [geojson.Feature(geometry=geojson.Polygon([[*b, b[0]]]), properties={})]
        if self.rng.random() < 0.5:
            c = [(x + 3, y) for x, y in self.box(1, 1)]
            feats.append(geojson.Feature(geometry=geojson.Polygon([[*c, c[0]]]), properties={}))
        return PolygonRelease(features=geojson.FeatureCollection(feats), num_elements=self.rng.randint(1, 9), **self.relkw())

    def subkw(self):
        lo = self.r(0.005, 0.02, 4)
        return self.kw(windage_range=(lo, lo + self.r(0, 0.03, 4)), windage_persist=self.rng.choice([900, -1, 300, 1800]))

    def NonWeatheringSubstance(self):
        return NonWeatheringSubstance(standard_density=self.r(800, 1000, 1), **self.subkw())

    def GnomeOil(self):
        k = self.subkw()
        k.pop("name", None)
        o = GnomeOil(self.rng.choice(["oil_ans_mp", "oil_gas", "oil_4"]), **k)
        if self.rng.random() < 0.3:
            o.bullwinkle_fraction = self.r(0.05, 0.3)
        return o

    def Spill(self, weathering=False, sub=None):
        r = self.rng
        rel = r.choice([self.PointLineRelease, self.PointLineRelease, self.PolygonRelease, self.GridRelease])()
        if sub is None:
            sub = self.GnomeOil() if weathering else self.NonWeatheringSubstance()
        return Spill(release=rel, substance=sub, **self.kw(on=r.random() < 0.8, amount=self.r(1, 900, 1),
                     units=r.choice(["kg", "bbl", "m^3", "tonnes"]), amount_uncertainty_scale=r.choice([0.0, self.r(0.1, 0.5)]),
                     water=self.water(0.5)))

    # --- weatherers
    def Evaporation(self):
        return Evaporation(self.water(.3), self.wind(.3), **self.proc())

    def NaturalDispersion(self):
        return NaturalDispersion(self.waves(.3), self.water(.3), algorithm=self.rng.choice(["D&S1988", "Li2017"]), **self.proc())

    def Emulsification(self):
        return Emulsification(self.waves(.3), **self.proc())

    def FayGravityViscous(self):
        return FayGravityViscous(self.water(.3), **self.proc())

    def Langmuir(self):
        return Langmuir(self.water(.3), self.wind(.3), **self.proc())

    def Skimmer(self):
        return Skimmer(self.r(1, 100, 1), self.rng.choice(["kg", "bbl"]), water=self.water(.3),
                       **self.kw(efficiency=self.r(0, 1), active_range=self.fin_time()))

    def Burn(self):
        return Burn(self.r(10, 100, 1), self.r(.001, .1), self.fin_time(), water=self.water(.3), wind=self.wind(.3),
                    **self.kw(efficiency=self.rng.choice([None, self.r(0, 1)])))

    def ChemicalDispersion(self):
        return ChemicalDispersion(self.r(0, 1), self.fin_time(), waves=self.waves(.3), **self.kw(efficiency=self.rng.choice([None, self.r(0, 1)])))

    def Beaching(self):
        s = T + H
        return Beaching((s, s + 9 * H), self.rng.choice(["kg", "bbl"]), [(s + H, self.r(1, 9)), (s + 9 * H, self.r(1, 9))], self.water(.3), **self.kw())

    def HalfLifeWeatherer(self):
        return HalfLifeWeatherer(half_lives=(self.r(1000, 9000, 1),), **self.proc())

    # --- outputters
    def outkw(self):
        r = self.rng
        return self.kw(on=r.random() < .8, output_zero_step=r.random() < .5, output_last_step=r.random() < .5,
                       output_single_step=r.random() < .2, output_timestep=r.choice([None, timedelta(minutes=30), timedelta(seconds=2711), H, 5 * H]),
                       output_start_time=r.choice([None, T, T + H, T + timedelta(seconds=1805)]))

    def NetCDFOutput(self):
        return NetCDFOutput(os.path.join(self.dir, "out%d.nc" % self.n), which_data=self.rng.choice(["standard", "most", "all"]),
                            compress=self.rng.random() < .5, **self.outkw())

    def ShapeOutput(self):
        return ShapeOutput(os.path.join(self.dir, "shp"), zip_output=self.rng.random() < .5, include_certain_boundary=self.rng.random() < .5,
                           certain_boundary_hull_ratio=self.r(.1, .9), timeoffset=self.rng.choice([None, 3]), **self.outkw())

    def KMZOutput(self):
        return KMZOutput(os.path.join(self.dir, "o.kmz"), **self.outkw())

    def BinaryOutput(self):
        return BinaryOutput(os.path.join(self.dir, "o.bin"), zip_output=self.rng.random() < .5, **self.outkw())

    def TrajectoryGeoJsonOutput(self):
        return TrajectoryGeoJsonOutput(round_data=self.rng.random() < .5, round_to=self.rng.randint(2, 6), **self.outkw())

    def WeatheringOutput(self):
        return WeatheringOutput(**self.outkw())

    def SpillJsonOutput(self):
        return SpillJsonOutput(include_uncertain_bounds=self.rng.random() < .5, **self.outkw())

    def OilBudgetOutput(self):
        k = self.outkw()
        return OilBudgetOutput(os.path.join(self.dir, "budget%d.csv" % self.rng.randrange(99)), **{x: k[x] for x in ("name", "on", "output_timestep") if x in k})


MOVERS = ["SimpleMover", "RandomMover", "RandomMover3D", "PointWindMover", "WindMover", "CurrentMover", "RiseVelocityMover"]
WEATHERERS = ["Evaporation", "NaturalDispersion", "Emulsification", "FayGravityViscous", "Langmuir", "Skimmer", "Burn",
              "ChemicalDispersion", "Beaching", "HalfLifeWeatherer"]
OUTPUTTERS = ["NetCDFOutput", "ShapeOutput", "KMZOutput", "BinaryOutput", "TrajectoryGeoJsonOutput", "WeatheringOutput",
              "SpillJsonOutput", "OilBudgetOutput"]
MAPS = ["GnomeMap", "MapFromBNA"]
SINGLE = ["Wind", "Water", "Waves", "RunningAverage", "SteadyUniformCurrent"] + MAPS + MOVERS + ["Spill", "PointLineRelease", "GridRelease",
          "PolygonRelease", "NonWeatheringSubstance", "GnomeOil"] + WEATHERERS + OUTPUTTERS


def build_model(b, rng, weathering, runnable=False):
    k = dict(start_time=T, time_step=rng.choice([900, 600, 1200, 3600, 437]), duration=timedelta(minutes=rng.choice([60, 90, 200, 1440, 61.55])),
             uncertain=rng.random() < .4, cache_enabled=rng.random() < .3, weathering_substeps=rng.choice([1, 1, 2, 3]))
    n = b.name()
    if n is not None:
        k["name"] = n
    if not weathering and rng.random() < .2:
        k["run_backwards"] = True
    m = Model(map=getattr(b, rng.choice(MAPS[:2]))() if rng.random() < .8 else None, **k)
    for _ in range(rng.randint(0, 3)):
        m.environment += getattr(b, rng.choice(["wind", "water", "waves"]))()
    for _ in range(rng.randint(0, 4)):
        m.movers += getattr(b, rng.choice(MOVERS))()
    sub = b.GnomeOil() if weathering else b.NonWeatheringSubstance()     # a model holds one substance
    for _ in range(rng.randint(0, 3)):
        m.spills += b.Spill(weathering, sub)
    if weathering:
        for kind in rng.sample(WEATHERERS[:9], rng.randint(0, 5)):
            m.weatherers += getattr(b, kind)()
    for _ in range(rng.randint(0, 2)):
        m.outputters += getattr(b, rng.choice(OUTPUTTERS))()
    return m
