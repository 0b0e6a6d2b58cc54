"""drives small whole models with real outputters through call histories generated by OutMC; records what every
step computed (read from the live containers), what the outputters returned and what their files hold.
Times in half seconds from T0, positions in micro-degrees, masses in grams."""
from common import *
import csv, glob, hashlib, io, re, shutil, zipfile
from datetime import datetime, timedelta
import netCDF4 as nc
import gnome
from gnome.model import Model
from gnome.maps import RasterMap, GnomeMap
from gnome.movers.movers import Mover
from gnome.movers import RandomMover
from gnome.spills.spill import Spill
from gnome.spills.release import PointLineRelease
from gnome.spills.gnome_oil import GnomeOil
from gnome.spills.substance import NonWeatheringSubstance
from gnome.environment import Water, Waves, constant_wind
from gnome.weatherers import Evaporation, NaturalDispersion, Emulsification, FayGravityViscous
from gnome.outputters import (NetCDFOutput, TrajectoryGeoJsonOutput, SpillJsonOutput, WeatheringOutput, OilBudgetOutput,
                              KMZOutput, ShapeOutput, BinaryOutput)
from gnome.basic_types import oil_status
from gnome.utilities.projections import GeoProjection

a = args()
T0 = datetime(2023, 12, 31, 20, 0, 0)
NONE = -999999999
NA = -777777777
MU = 1000000
CELL = 0.001
_oil = {}


def oil(n):
    if n not in _oil:
        _oil[n] = GnomeOil(n)
    return _oil[n]


def hs(t):
    return fx((t - T0).total_seconds(), 2)


def iso(s):
    return hs(datetime.fromisoformat(s))


def col(get, name, scale):
    try:
        v = get(name)
    except KeyError:
        v = None
    return None if v is None else [fx(x, scale) for x in np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)]


COLS = [("id", 1), ("spill_num", 1), ("status_codes", 1), ("lon", MU), ("lat", MU), ("depth", 1000), ("mass", 1000), ("age", 1),
        ("density", 1000), ("viscosity", 1e9), ("frac_water", MU)]


def rows(get, n):
    cs = [col(get, k, s) for k, s in COLS]
    return [[NA if c is None else c[i] if i < len(c) else NAN for c in cs] for i in range(n)]


def dg(v):
    v = np.ma.filled(np.ma.asarray(v).astype(float), -987654321.0)
    v = np.where(np.isnan(v), -123456789.0, v)
    return hashlib.sha1(str(v.shape).encode() + np.ascontiguousarray(v).tobytes()).hexdigest()[:12]


def live(sc):
    def get(k):
        if k in ("lon", "lat", "depth"):
            return sc["positions"][:, ("lon", "lat", "depth").index(k)]
        return sc.data_arrays.get(k)
    return get


def snapshot(m):
    conts, arr = [], []
    for sc in m.spills.items():
        g = live(sc)
        conts.append(rows(g, len(sc["positions"])))
        ar = [["longitude", dg(g("lon"))], ["latitude", dg(g("lat"))], ["depth", dg(g("depth"))]]
        ar += [[k, dg(v)] for k, v in sorted(sc.data_arrays.items()) if k not in ("positions", "surface_concentration")]
        arr.append(ar)
    return dict(conts=conts, arr=arr, mb=balance(m.spills.items()[0].mass_balance), mbs=[balance(sc.mass_balance) for sc in m.spills.items()], t=hs(m.model_time))


def num(v, d):
    try:
        v = float(v)
    except Exception:
        return "?%s" % v
    if v != v:
        return "nan"
    return "%.*g" % (d, v + 0.0)


def balance(mb):
    return [[k, num(v, 9), num(v, 8)] for k, v in sorted(mb.items()) if k not in ("time",)]


class Drift(Mover):
    """moves every floating element by a row of the table that depends on its id and the step"""
    def __init__(self, table, **kw):
        super().__init__(**kw)
        self.table, self.k = table, 0

    def prepare_for_model_run(self):
        self.k = 0

    def prepare_for_model_step(self, sc, time_step, model_time):
        super().prepare_for_model_step(sc, time_step, model_time)

    def get_move(self, sc, time_step, model_time):
        d = np.zeros_like(sc["positions"])
        for i in range(len(d)):
            if sc["status_codes"][i] == oil_status.in_water:
                t = self.table[(int(sc["id"][i]) + 3 * self.k + (2 if sc.uncertain else 0)) % len(self.table)]
                d[i, 0], d[i, 1] = t[0] * CELL, t[1] * CELL
                d[i, 2] = t[2]
        return d

    def model_step_is_done(self, sc=None):
        if sc is None or not sc.uncertain:
            self.k += 1


KINDS = ["nc", "nc", "geo", "sjson", "wx", "budget", "kmz", "shape", "bin"]
CLS = dict(nc=NetCDFOutput, geo=TrajectoryGeoJsonOutput, sjson=SpillJsonOutput, wx=WeatheringOutput, budget=OilBudgetOutput,
           kmz=KMZOutput, shape=ShapeOutput, bin=BinaryOutput)


def gen_out(rng, kind, start, dt, weathering):
    o = dict(kind=kind, on=rng.random() < 0.95, zero=rng.random() < 0.75, last=rng.random() < 0.75, single=rng.random() < 0.08,
             ots=0, ostart=NONE, rnd=True, digits=4, which="standard", zip=rng.random() < 0.4, extra=[], tofile=rng.random() < 0.7,
             compress=rng.random() < 0.8, sc=rng.random() < 0.3)
    if rng.random() < 0.35:
        o["ots"] = rng.choice([2, 2, 3, 1.5, 2.5, 0.5]) * 2 * abs(dt)
        o["ots"] = int(o["ots"] - o["ots"] % 2)
    if rng.random() < 0.2:
        o["ostart"] = start + (2 * dt) * rng.choice([1, 2]) + rng.choice([0, 0, 2])
    if kind == "budget":
        o.update(zero=True, last=True, single=False, ostart=NONE)
    if kind == "geo":
        o["rnd"] = rng.random() < 0.75
        o["digits"] = rng.choice([4, 4, 4, 2, 3, 5, 6])
    if kind == "nc":
        o["which"] = rng.choice(["standard", "standard", "most", "all"])
    if kind == "sjson":
        ex = [6, 8] + ([9, 10, 11] if weathering else [])
        o["extra"] = sorted(rng.sample(ex, rng.choice([0, 1, len(ex)])))
    return o


SJ = {6: "depth", 8: "age", 9: "density", 10: "viscosity", 11: "frac_water"}


def build_out(o, where, i, rng):
    base = os.path.join(where, "o%d" % i)
    os.makedirs(base, exist_ok=True)
    kw = dict(on=o["on"], output_timestep=timedelta(seconds=o["ots"] / 2) if o["ots"] else None)
    if o["kind"] != "budget":
        kw.update(output_zero_step=o["zero"], output_last_step=o["last"], output_single_step=o["single"])
        if o["ostart"] != NONE:
            kw["output_start_time"] = T0 + timedelta(seconds=o["ostart"] / 2)
    k = o["kind"]
    o["base"] = base
    if k == "nc":
        return NetCDFOutput(base + "/traj.nc", which_data=o["which"], zip_output=o["zip"], compress=o["compress"],
                            surface_conc="kde" if o["sc"] else None, **kw)
    if k == "geo":
        return TrajectoryGeoJsonOutput(round_data=o["rnd"], round_to=o["digits"], output_dir=base if o["tofile"] else None, **kw)
    if k == "sjson":
        return SpillJsonOutput(_additional_data=[SJ[c] for c in o["extra"]], include_uncertain_bounds=o["zip"], **kw)
    if k == "wx":
        return WeatheringOutput(output_dir=base if o["tofile"] else None, **kw)
    if k == "budget":
        return OilBudgetOutput(base + "/budget.csv", **kw)
    if k == "kmz":
        return KMZOutput(base + "/traj.kmz", **kw)
    if k == "shape":
        return ShapeOutput(base + "/traj", zip_output=o["zip"], include_uncertain_boundary=o["tofile"],
                           include_certain_boundary=o["compress"] and o["zip"],
                           surface_conc="kde" if o["sc"] else None, **kw)
    if k == "bin":
        return BinaryOutput(base + "/traj.bin", zip_output=o["zip"], **kw)


# ---------------------------------------------------------------- reading back
def rec(t, conts=(), arr=(), mb=(), since=0):
    return dict(t=t, conts=list(conts), arr=list(arr), mb=list(mb), since=since)


def merge(per):
    """per-stream [(t, rows, arr, mb)] -> records; streams must agree on times"""
    out = []
    n = max(len(p) for p in per) if per else 0
    for i in range(n):
        ts = [p[i][0] for p in per if i < len(p)]
        ok = len(ts) == len(per) and len(set(ts)) == 1
        out.append(rec(ts[0] if ok else NAN, [p[i][1] for p in per if i < len(p)], [p[i][2] for p in per if i < len(p)], per[0][i][3] if i < len(per[0]) else []))
    return out


def read_nc(path):
    out, names = [], []
    with nc.Dataset(path) as d:
        v = d.variables
        t = v["time"]
        base = datetime.fromisoformat(t.units.split("since ")[1])
        names = [n for _, n in sorted((int(i), n) for i, n in re.findall(r"(\d+): (\w+),", v["spill_num"].spills_map))]
        pos = 0
        mbg = d.groups.get("mass_balance")
        tot = {len(v[k]) for k in v if k not in ("time", "particle_count")}
        for i in range(len(t)):
            c = int(v["particle_count"][i])
            s = slice(pos, pos + c)
            pos += c

            def get(k):
                k = {"lon": "longitude", "lat": "latitude"}.get(k, k)
                return v[k][s] if k in v else None
            ar = [[k, dg(v[k][s])] for k in sorted(v) if k not in ("time", "particle_count", "surface_concentration")]
            mb = []
            if mbg is not None:
                for k in sorted(mbg.variables):
                    if k == "time":
                        if float(mbg.variables[k][i]) != float(t[i]):
                            mb.append(["time", "?", "?"])
                        continue
                    x = mbg.variables[k][i] if i < len(mbg.variables[k]) else np.ma.masked
                    if x is not np.ma.masked:
                        mb.append([k, num(x, 9), num(x, 8)])
            out.append([hs(base + timedelta(seconds=float(t[i]))), rows(get, c), ar, mb])
        if tot - {pos} and len(t):
            out.append([NAN, [], [], []])      # data beyond the last record
    return out, names


def geo_rows(fc, typ):
    out = []
    for n, f in enumerate(x for x in fc["features"] if x["properties"]["sc_type"] == typ):
        p = f["properties"]
        if f["id"] != n:
            p = dict(p, status_code=NAN)
        lon, lat = f["geometry"]["coordinates"][:2]
        r = [NA] * 11
        r[1], r[2], r[3], r[4], r[6] = ix(p["spill_num"]), ix(p["status_code"]), fx(lon, MU), fx(lat, MU), fx(p["mass"], 1000)
        out.append(r)
    return out


def geo_rec(t, fcs, unc):
    cs = [r for f in fcs for r in geo_rows(f, "forecast")]
    us = [r for f in fcs for r in geo_rows(f, "uncertain")]
    return rec(t, [cs, us] if unc or us else [cs])


def sj_rows(d, extra):
    out = []
    n = d["length"]
    keys = {1: "spill_num", 2: "status", 3: "longitude", 4: "latitude", 6: "mass"}
    keys.update({c - 1: SJ[c] for c in extra})
    for i in range(n):
        r = [NA] * 11
        for c, k in keys.items():
            r[c] = fx(d[k][i], COLS[c][1])
        out.append(r)
    if any(len(d[k]) != n for k in keys.values()):
        out.append([NAN] * 11)
    return out


def sj_rec(d, extra, unc):
    if len(d["certain"]) != 1 or len(d["uncertain"]) != (1 if unc else 0):
        return rec(NAN)
    return rec(iso(d["time_stamp"]), [sj_rows(x, extra) for x in d["certain"] + d["uncertain"]])


def wx_rec(d):
    return rec(iso(d["time_stamp"]), mb=balance({k: v for k, v in d.items() if k not in ("time_stamp", "output_filename")}))


CAT = dict(zip(["Amount Released (kg)", "Evaporated (kg)", "Dispersed (kg)", "Sedimentation (kg)", "Beached (kg)", "Floating (kg)", "Off_maps (kg)"],
               ["amount_released", "evaporated", "natural_dispersion", "sedimentation", "beached", "floating", "off_maps"]))


def read_budget(path):
    out = []
    with open(path, newline="") as f:
        for r in csv.DictReader(f):
            mb = [[CAT[k], num(v, 8), num(v, 8)] for k, v in sorted(r.items()) if k in CAT and v.strip() != ""]
            out.append(rec(hs(datetime.strptime(r["Model Time"], "%Y-%m-%d %H:%M")), mb=mb, since=fx(float(r["Hours Since Model Start"]) * 60)))
    return out


def read_kmz(path, unc):
    with zipfile.ZipFile(path) as z:
        if sorted(z.namelist()) != ["dot.png", "traj.kml", "x.png"]:
            raise ValueError("contents")
        k = z.read("traj.kml").decode("utf8")
    if k.count("</kml>") != 1 or not k.rstrip().endswith("</kml>"):
        raise ValueError("kml not well ended")
    per = {"Best Guess": [], "Uncertainty": []}
    for f in re.findall(r"<Folder>(.*?)</Folder>", k, re.S):
        name = re.search(r"<name>(.*):(Best Guess|Uncertainty)</name>", f)
        rr = []
        for st, style, beg, geo in re.findall(r"<Placemark>\s*<name>[\w ]+ (Floating|Beached) Splots </name>\s*<styleUrl>#(\w+)</styleUrl>.*?<begin>(.*?)</begin>.*?<MultiGeometry>(.*?)</MultiGeometry>", f, re.S):
            if beg != name.group(1):
                raise ValueError("time span")
            for lon, lat in re.findall(r"<coordinates>([-\d.]+),([-\d.]+),", geo):
                r = [NA] * 11
                r[2], r[3], r[4] = 2 if st == "Floating" else 3, fx(float(lon), MU), fx(float(lat), MU)
                rr.append(r)
        per[name.group(2)].append([iso(name.group(1)), rr, [], []])
    return merge([per["Best Guess"]] + ([per["Uncertainty"]] if unc or per["Uncertainty"] else []))


def read_shp(path):
    import geopandas as gpd
    d = gpd.read_file(path)
    out = {}
    for _, r in d.iterrows():
        t = iso(str(r["Time"]))
        keys = ["LE_id", "Spill_id", "StatusCode", None, None, None, "Mass", "Age", "Density", "Viscosity", "FracWater"]
        row = [NA] * 11
        for c, k in enumerate(keys):
            if k in r:
                row[c] = fx(r[k], COLS[c][1])
        p = r["geometry"]
        row[3], row[4] = fx(p.x, MU), fx(p.y, MU)
        row[5] = fx(r["Depth"], 1000)
        if p.has_z and abs(p.z - r["Depth"]) > 1e-9:
            row[5] = NAN
        out.setdefault(t, []).append(row)
    return out


def shape_recs(per, back):
    """steps without elements leave no trace in a shapefile"""
    ts = sorted({t for p in per for t in p}, reverse=back)
    return [rec(t, [p.get(t, []) for p in per]) for t in ts]


def read_shape(o, ob, unc, work):
    fn = str(ob.filename)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    if unc or (o["zip"] and ob.include_certain_boundary):
        with zipfile.ZipFile(fn) as z:
            z.extractall(work)
        per = []
        for s in ["certain"] + (["uncertain"] if unc else []):
            p = [x for x in glob.glob(work + "/traj_%s.*" % s)]
            per.append(read_shp(p[0] if p[0].endswith(".zip") else work + "/traj_%s.shp" % s))
        return shape_recs(per, o["back"])
    return shape_recs([read_shp(fn if o["zip"] else os.path.join(o["base"], "traj.shp"))], o["back"])


def read_bin(o, unc, work):
    from gnome.outputters.binary import header_dtype, le_dtype
    d = o["base"]
    if o["zip"]:
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        with zipfile.ZipFile(d + "/traj.zip") as z:
            z.extractall(work)
        d = work
    per = {}
    hd = np.dtype([("name", "S10"), ("day", ">i2"), ("month", ">i2"), ("year", ">i2"), ("hour", ">i2"), ("minute", ">i2"), ("current_time", ">f4"), ("version", ">f4"), ("num_LE", ">i4")])
    ld = np.dtype([("Lat", ">f4"), ("Lon", ">f4"), ("Release_time", ">f4"), ("AgeWhenReleased", ">f4"), ("BeachHeight", ">f4"), ("nMap", ">i4"), ("pollutant", ">i4"), ("WindKey", ">i4")])
    for s in ["FORCST", "UNCRTN"]:
        fs = sorted(glob.glob(d + "/traj%s.*" % s))
        if [f[-3:] for f in fs] != ["%03d" % i for i in range(len(fs))]:
            raise ValueError("numbering")
        per[s] = []
        for f in fs:
            b = open(f, "rb").read()
            h = np.frombuffer(b, hd, 1)[0]
            le = np.frombuffer(b[hd.itemsize:], ld)
            t = hs(datetime(int(h["year"]), int(h["month"]), int(h["day"]), int(h["hour"]), int(h["minute"])))
            ref = datetime(int(h["year"]) - int(h["year"]) % 4, 1, 1)
            hrs = (T0 - ref).total_seconds() / 3600 + t / 7200
            rr = []
            for e in le:
                r = [NA] * 11
                r[2], r[3], r[4] = 3 if e["BeachHeight"] == -50 else 2, fx(-float(e["Lon"]), MU), fx(float(e["Lat"]), MU)
                r[7] = fx((float(h["current_time"]) - float(e["Release_time"])) * 3600)
                rr.append(r)
            if len(le) != h["num_LE"] or h["name"] != b"L.E. FILE" or not hrs - 0.01 <= h["current_time"] <= hrs + 0.03:
                t = NAN
            per[s].append([t, rr, [], []])
    return merge([per["FORCST"]] + ([per["UNCRTN"]] if unc or per["UNCRTN"] else []))


def read_all(o, ob, unc, scratch, complete):
    """records in the outputter's files, or None where there is nothing to read yet"""
    k = o["kind"]
    work = os.path.join(scratch, "unz")
    if not o["on"]:
        return None, []
    if k == "nc":
        d = o["base"]
        if o["zip"]:
            if not complete:
                return None, []
            shutil.rmtree(work, ignore_errors=True)
            os.makedirs(work)
            with zipfile.ZipFile(d + "/traj.zip") as z:
                z.extractall(work)
            d = work
        per, names = [], []
        fs = ["traj.nc", "traj_uncertain.nc"]
        for f in fs[:2 if unc or os.path.exists(os.path.join(d, fs[1])) else 1]:
            p, n = read_nc(os.path.join(d, f))
            per.append(p)
            names.append(n)
        return merge(per), names[0] if all(x == names[0] for x in names) else ["?"]
    if k == "geo" and o["tofile"]:
        out = []
        fs = sorted(glob.glob(o["base"] + "/*.geojson"))
        for f in fs:
            n = int(re.search(r"geojson_(\d+)\.geojson", f).group(1))
            out.append(geo_rec(o["clock"](n), [json.load(open(f))], unc))
        return out, []
    if k == "wx" and o["tofile"]:
        out = []
        for f in sorted(glob.glob(o["base"] + "/mass_balance_*.json")):
            r = wx_rec(json.load(open(f)))
            if r["t"] != o["clock"](int(f[-11:-5])):
                r["t"] = NAN
            out.append(r)
        return out, []
    if not complete:
        return None, []
    if k == "budget":
        return read_budget(o["base"] + "/budget.csv"), []
    if k == "kmz":
        return read_kmz(o["base"] + "/traj.kmz", unc), []
    if k == "shape":
        return read_shape(o, ob, unc, work), []
    if k == "bin":
        return read_bin(o, unc, work), []
    return None, []


# ---------------------------------------------------------------- scenarios
def scenario(h, rng, scratch):
    back = rng.random() < 0.08
    dt = rng.choice([600, 900, 900, 1800, 3600, 61, 121]) * (-1 if back else 1)
    start = rng.choice([0, 0, 0, 120, 66, 7200 * 30 + 8])
    n = rng.randint(10, 28) if rng.random() < 0.08 else rng.randint(1, 6)
    many = rng.random() < 0.04
    if many:
        n = min(n, 2)
    wx = rng.random() < 0.45 and not back
    unc = rng.random() < 0.5
    st = T0 + timedelta(seconds=start / 2)
    m = Model(time_step=dt, start_time=st, duration=timedelta(seconds=dt * n), uncertain=unc, cache_enabled=rng.random() < 0.7)
    nx, ny = 20, 10
    raster = np.zeros((nx, ny), dtype=np.uint8)
    if rng.random() < 0.7:
        raster[rng.choice([12, 14]):, :] = 1
    ox, oy = rng.choice([(0, 0), (-70.5, 41.2), (179.0, -3.3), (-0.01, 0.0)])
    bb = ((ox, oy), (ox + nx * CELL, oy + ny * CELL))
    bounds = [(ox - 2.3 * CELL, oy - 1), (ox + 1, oy - 1), (ox + 1, oy + 1), (ox - 2.3 * CELL, oy + 1)]
    m.map = RasterMap(raster=raster, projection=GeoProjection(bb, (nx, ny)), refloat_halflife=rng.choice([-1, 0.3, 1]), map_bounds=bounds)
    water = Water(rng.choice([283.0, 300.0]))
    wind = constant_wind(rng.choice([2, 9, 18]), 30, "m/s")
    if wx:
        m.environment += [water, wind, Waves(wind, water)]
    sub = oil(rng.choice(["oil_ans_mp", "oil_gas", "oil_diesel"])) if wx else NonWeatheringSubstance()
    names = []
    for k in range(rng.choice([1, 1, 2, 3])):
        off = rng.choice([0, 0, 0, abs(dt), 2 * abs(dt), abs(dt) // 2, 5000])
        dur = rng.choice([0, 0, 2 * abs(dt), 3 * abs(dt)])
        if back:
            off, dur = -off, 0
        rt = st + timedelta(seconds=off)
        nel = rng.choice([1, 2, 3, 5]) + (3 if dur else 0) + (1200 if many and k == 0 else 0)
        rel = PointLineRelease(release_time=rt, end_release_time=rt + timedelta(seconds=dur) if dur else None, num_elements=nel,
                               start_position=(ox + rng.uniform(1, 8) * CELL, oy + rng.uniform(2, 8) * CELL, rng.choice([0, 0, 0, 3.25])),
                               end_position=(ox + rng.uniform(1, 8) * CELL, oy + rng.uniform(2, 8) * CELL, 0) if rng.random() < 0.3 else None)
        nm = rng.choice(["slick", "leak", "b%d" % k])
        names.append(nm)
        m.spills += Spill(release=rel, substance=sub, amount=rng.choice([0, 1, 77.7, 1000.5, 123456.0]), units="kg", name=nm, on=rng.random() < 0.95)
    m.movers += Drift([(rng.choice([0, 0.4, 1.7, -2.6, 3, -4]), rng.choice([0, 0.3, -0.7]), rng.choice([0, 0, 0, 0.5, -0.25])) for _ in range(rng.randint(1, 9))])
    if rng.random() < 0.4:
        m.movers += RandomMover(diffusion_coef=rng.choice([1000, 100000]))
    if wx:
        m.weatherers += [w for w in [Evaporation(water, wind), NaturalDispersion(m.environment[2], water), Emulsification(m.environment[2])] if rng.random() < 0.7]
        if rng.random() < 0.5:
            m.weatherers += FayGravityViscous(water)
    kinds = sorted(set(rng.sample(KINDS, rng.choice([2, 3, 4]))))
    rng.shuffle(kinds)
    outs = [gen_out(rng, k, start, dt, wx) for k in kinds]
    obs = []
    for i, o in enumerate(outs):
        ob = build_out(o, scratch, i, rng)
        o["clock"] = lambda n: start + 2 * dt * n
        o["back"] = back
        m.outputters += ob
        obs.append(ob)
    pub = lambda o: {k: v for k, v in o.items() if k not in ("clock", "base")}
    cfg = lambda: dict(start=start, dt=2 * dt, dur=2 * dt * n, back=back, unc=m.uncertain, step=-1, names=names)
    a.rec.emit("ocfg", m=cfg(), outs=[pub(o) for o in outs])
    k, complete = -1, False

    def rets(info):
        res = []
        for i, (o, ob) in enumerate(zip(outs, obs)):
            d = info.get(type(ob).__name__)
            if d is None:
                res.append(dict(i=i, has=False, **rec(0)))
            elif o["kind"] == "geo":
                r = geo_rec(iso(d["time_stamp"]), [d["certain"]], False)
                r["conts"] = [geo_rows(d["certain"], "forecast")] + ([geo_rows(d["uncertain"], "uncertain")] if m.uncertain or d["uncertain"]["features"] else [])
                if len(d["certain"]["features"]) != len(r["conts"][0]):
                    r["t"] = NAN
                res.append(dict(i=i, has=True, **r))
            elif o["kind"] == "sjson":
                r = sj_rec(d, o["extra"], m.uncertain)
                if d["step_num"] != k:
                    r["t"] = NAN
                res.append(dict(i=i, has=True, **r))
            elif o["kind"] == "wx":
                res.append(dict(i=i, has=True, **wx_rec(d)))
            else:
                res.append(dict(i=i, has=True, **rec(iso(d["time_stamp"]))))
        return res

    def step():
        nonlocal k, complete
        try:
            info = m.step()
        except StopIteration:
            complete = True
            a.rec.emit("oend", exc="" if k == n else "Early")
            return False
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            a.rec.emit("ostep", exc=excname(e), k=k + 1, msg=str(e)[:200])
            return None
        k = m.current_time_step
        a.rec.emit("ostep", k=k, rets=rets(info), **snapshot(m))
        return True

    def rew():
        nonlocal k, complete
        k, complete = -1, False
        a.rec.emit("orew", m=cfg())

    def readback():
        if k < 0:
            return
        fl = []
        for i, (o, ob) in enumerate(zip(outs, obs)):
            try:
                r, nm = read_all(o, ob, m.uncertain, scratch, complete)
                if r is None:
                    continue
                fl.append(dict(i=i, exc="", recs=r, names=nm))
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                fl.append(dict(i=i, exc=excname(e), recs=[], names=[]))
        a.rec.emit("files", files=fl, complete=complete)
        for i, (o, ob) in enumerate(zip(outs, obs)):
            if o["kind"] == "nc" and o["on"] and not o["zip"]:
                for c, f in enumerate(["traj.nc", "traj_uncertain.nc"][:2 if m.uncertain else 1]):
                    p = os.path.join(o["base"], f)
                    try:
                        with nc.Dataset(p) as d:
                            nt = len(d.variables["time"])
                    except Exception:
                        continue
                    if not nt:
                        continue
                    by = rng.choice(["index", "time"])
                    arg = rng.randint(-nt, nt - 1) if by == "index" else start + 2 * dt * rng.randint(-1, k + 1) + rng.choice([0, 0, abs(dt) // 3 * 2, -(abs(dt) // 4 * 2)])
                    try:
                        if by == "index":
                            d, w = NetCDFOutput.read_data(p, index=arg, which_data=rng.choice(["standard", "all"]))
                        else:
                            d, w = NetCDFOutput.read_data(p, time=T0 + timedelta(seconds=arg / 2), which_data=rng.choice(["standard", "all"]))
                        g = lambda kk: d["positions"][:, ("lon", "lat", "depth").index(kk)] if kk in ("lon", "lat", "depth") else d.get(kk)
                        t = d["current_time_stamp"].item()
                        wb = [[kk, num(v, 9), num(v, 8)] for kk, v in sorted(w.items()) if kk != "time" and not np.ma.is_masked(v)]
                        a.rec.emit("read", i=i, c=c + 1, by=by, arg=arg, rows=rows(g, len(d["positions"])), mb=wb,
                                   t=fx((datetime(t.year, t.month, t.day, t.hour, t.minute, t.second) - T0).total_seconds(), 2))
                    except Exception as e:
                        if os.environ.get("VERIF_DEBUG"):
                            traceback.print_exc()
                        a.rec.emit("read", exc=excname(e), i=i, c=c + 1, by=by, arg=arg, rows=[], t=0)

    def finish():
        while True:
            r = step()
            if not r:
                return r is not None

    for op, x in h:
        if op in ("step", "step2"):
            for _ in range(1 if op == "step" else 2):
                r = step()
                if r is None:
                    return
                if r is False:
                    break
        elif op == "finish":
            if not finish():
                return
            readback()
        elif op == "full":
            m.rewind()
            rew()
            if not finish():
                return
            readback()
        elif op == "rewind":
            m.rewind()
            rew()
        elif op == "unc":
            v = x % 2 == 0
            if v != m.uncertain:
                m.uncertain = v
                rew()
        elif op == "dur":
            if k < 0:
                n = max(1, n + (x % 3) - 1)
                m.duration = timedelta(seconds=dt * n)
                m.rewind()
                rew()
        elif op == "read":
            readback()
        elif op == "post" and m.cache_enabled and k >= 0:
            # output written afterwards from the cached steps is the same
            fl = []
            for i, o in enumerate(outs):
                if not o["on"] or rng.random() < 0.3 or (o["kind"] == "shape" and rng.random() < 0.5):
                    continue
                o2 = dict(o, base=None)
                try:
                    ob = build_out(o2, os.path.join(scratch, "post"), i, rng)
                    ob.write_output_post_run(model_start_time=m.start_time, model_time_step=m.time_step, num_time_steps=k + 1,
                                             cache=m._cache, uncertain=m.uncertain, spills=m.spills)
                    ob.post_model_run()
                    r, nm = read_all(o2, ob, m.uncertain, scratch, True)
                    if r is not None:
                        fl.append(dict(i=i, exc="", recs=r, names=nm, n=k + 1))
                except Exception as e:
                    if os.environ.get("VERIF_DEBUG"):
                        traceback.print_exc()
                    fl.append(dict(i=i, exc=excname(e), recs=[], names=[], n=k + 1))
            a.rec.emit("post", files=fl, k=k)
    if k >= 0:
        if finish():
            readback()


for tid, h in enumerate(behaviours(a)):
    rng = random.Random("%d/%d/%d" % (a.seed, a.shard, tid))
    a.rec.trace = tid
    w = os.path.join(a.scratch, "w")
    os.makedirs(w)
    try:
        scenario(h, rng, w)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        a.rec.emit("fail", exc=excname(e), msg=str(e)[:300])
    import gc
    gc.collect()
    shutil.rmtree(w, ignore_errors=True)
a.rec.close()
