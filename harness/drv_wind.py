"""replays generated histories of winds, steady currents and other time series"""
import copy, os
from datetime import datetime, timedelta
from common import *
from gnome.basic_types import datetime_value_2d
from gnome.environment.wind import Wind, wind_from_values, constant_wind
from gnome.environment.environment_objects import SteadyUniformCurrent
from gnome.environment.timeseries_objects_base import TimeseriesData, TimeseriesVector
from gnome.utilities.time_utils import TZOffset
from gnome.utilities import transforms as tf

NAMES = {"m/s": ["m/s", "meter per second", "meters per second", "mps"], "knot": ["knot", "knots", "kts"], "mph": ["mph", "miles per hour", "mile per hour"],
         "km/h": ["km/h", "km/hr", "kilometer per hour"], "cm/s": ["cm/s", "centimeter per second"], "ft/s": ["ft/s", "feet per second"]}
CANON = {n: u for u, ns in NAMES.items() for n in ns}
CARD = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]
NOZONE = -9999


class World:
    def __init__(self, a):
        self.a, self.rng = a, a.rng
        self.base = a.rng.choice([datetime(1995, 6, 1), datetime(2005, 12, 30), datetime(2024, 2, 27), datetime(2069, 1, 3)])
        self.w = None
        self.n = 0

    def at(self, s):
        return self.base + timedelta(seconds=s)

    def sec(self, t):
        return ix((t.astype(datetime) if isinstance(t, np.datetime64) else t).__sub__(self.base).total_seconds())

    def arr(self, vals, sys):
        x = np.zeros((len(vals),), dtype=datetime_value_2d)
        for i, v in enumerate(vals):
            x["time"][i] = self.at(v[0])
            x["value"][i] = (v[1] / 1000, v[2] / 1000 if sys == "uv" else v[2] / 100)
        return x

    def lst(self, vals, sys):
        k = self.rng.choice([list, tuple])
        return [(self.at(v[0]), k((v[1] / 1000, v[2] / 1000 if sys == "uv" else v[2] / 100))) for v in vals]

    def snap(self):
        w = self.w
        d = w.get_wind_data(units="m/s", coord_sys="uv")
        p = w.timeseries
        return dict(n=len(w), times=[self.sec(t) for t in d["time"]], uv=[[fx(x, 1000) for x in r] for r in d["value"]],
                    prop=[[self.sec(t), fx(v[0], 1000), fx(v[1], 100)] for t, v in zip(p["time"], p["value"])],
                    tdata=[self.sec(t) for t in w.time.data], unit=CANON.get(w.units, str(w.units)), ext=bool(w.extrapolation_is_allowed),
                    tz=NOZONE if w.timezone_offset.offset is None else fx(w.timezone_offset.offset, 100),
                    start=self.sec(w.data_start), stop=self.sec(w.data_stop))

    def tzo(self, z):
        if z == NOZONE:
            return self.rng.choice([None, TZOffset(None, "nowhere")])
        return TZOffset(z / 100, "somewhere")

    # -- files ------------------------------------------------------------
    def file(self, vals, unit, lines, tz):
        """writes a wind file: what it says of the place besides"""
        rng = self.rng
        self.n += 1
        path = os.path.join(self.a.scratch, "w%d.wnd" % self.n)
        lat, lon = rng.randint(-80, 80), rng.randint(-179, 179)
        name = rng.choice(["Station", "A place", ""])
        where = rng.choice(["%d,%d" % (lat, lon), "%d.0, %d.0" % (lat, lon), "somewhere"])
        out = [name, where, unit]
        zone = None
        if lines >= 4:
            zone = "" if tz == NOZONE else "%g, the zone" % (tz / 100)
            if tz == 0 and rng.random() < 0.5:
                zone = rng.choice(["UTC", "GMT", "utc"])
            out.append(zone if zone else "LTime")
        if lines == 5:
            out.append("0,0,0,0,0,0,0,0")
        two = self.base.year in range(1970, 2069) and rng.random() < 0.4
        sp = rng.choice(["", " "])
        for v in vals:
            t = self.at(v[0])
            d = CARD[v[2] // 2250] if v[2] % 2250 == 0 and v[2] < 36000 and rng.random() < 0.6 else "%g" % (v[2] / 100)
            out.append(("," + sp).join([str(t.day), str(t.month), ("%02d" % (t.year % 100)) if two else str(t.year), str(t.hour), str(t.minute), repr(v[1] / 1000), d]))
            if rng.random() < 0.1 and len(out) > 6:
                out.append("")
        with open(path, "w") as f:
            f.write("\n".join(out) + rng.choice(["\n", "", "\n\n"]))
        exp = dict(name=name or path, place=[lat, lon] if where != "somewhere" else [NAN, NAN])
        return path, exp

    def place(self, exp):
        w = self.w
        return dict(place=exp["place"] + [exp["name"]], got=[fx(w.latitude), fx(w.longitude), str(w.name)])

    # -- operations ---------------------------------------------------------
    def set(self, how, unit, sys, vals, ext, tz):
        rng = self.rng
        u = rng.choice(NAMES[unit])
        kw, extra = {}, dict(place=[], got=[])
        arg = None
        if how in ("array", "list", "single"):
            arg = self.arr(vals, sys) if how == "array" else self.lst(vals, sys)
            if how == "single":
                arg = arg[0]
            b = copy.deepcopy(arg)
            cs = dict(coord_sys=sys) if sys == "uv" or rng.random() < 0.5 else {}
            self.w = Wind(timeseries=arg, units=u, extrapolation_is_allowed=ext, timezone_offset=self.tzo(tz), **cs)
        elif how == "values":
            arg = [(self.at(v[0]), v[1] / 1000, v[2] / 100) for v in vals]
            b = copy.deepcopy(arg)
            self.w = wind_from_values(arg, units=u)
            ext = False
        elif how == "constant":
            b = None
            self.w = constant_wind(vals[0][1] / 1000, vals[0][2] / 100, units=u)
            vals = [[self.sec(self.w.timeseries["time"][0])] + vals[0][1:]]
            if abs(vals[0][0]) >= BIG:         # now is too far from the base
                self.base = datetime.now().replace(microsecond=0, second=0, minute=0) - timedelta(hours=3)
                vals = [[self.sec(self.w.timeseries["time"][0])] + vals[0][1:]]
            ext = False
        elif how in ("file3", "file4", "file5", "fromfile"):
            lines = dict(file3=3, file4=4, file5=5).get(how) or rng.choice([3, 4, 5])
            z = tz if lines > 3 else NOZONE
            p, exp = self.file(vals, u, lines, z)
            b = None
            if how == "fromfile":
                self.w, ext = Wind.from_file(p), False
            else:
                self.w = Wind(filename=p, extrapolation_is_allowed=ext)
            tz = z
            extra = self.place(exp)
        elif how == "setdata":
            arg = self.arr(vals, sys) if rng.random() < 0.6 else self.lst(vals, sys)
            b = copy.deepcopy(arg)
            self.w.set_wind_data(arg, u, coord_sys=sys) if sys == "uv" or rng.random() < 0.5 else self.w.set_wind_data(arg, u)
        elif how in ("prop", "prop_list"):
            self.w.units = u
            arg = self.arr(vals, sys) if how == "prop" else self.lst(vals, sys)
            b = copy.deepcopy(arg)
            self.w.timeseries = arg
        elif how == "update":
            arg = [(self.at(v[0]).isoformat(), (v[1] / 1000, v[2] / 100)) for v in vals]
            b = copy.deepcopy(arg)
            self.w.update_from_dict({"units": u, "timeseries": arg})
        same = arg is None or (np.array_equal(arg, b) if isinstance(arg, np.ndarray) else arg == b)
        if isinstance(arg, np.ndarray) and rng.random() < 0.5:
            arg["value"] = 77.0                   # the wind has a copy of its own
        self.a.rec.emit("set", how=how, unit=unit, sys=sys, vals=vals, ext=bool(ext), tz=tz, same=bool(same), snap=self.snap(), **extra)

    def times(self, k):
        ts = [self.sec(t) for t in self.w.timeseries["time"]]
        out = []
        for _ in range(k):
            i = self.rng.randrange(len(ts))
            out.append(self.rng.choice([ts[i], ts[0], ts[-1], self.rng.randint(ts[0], ts[-1]), self.rng.randint(ts[0], ts[-1]),
                                        min(ts[i] + 1, ts[-1]), ts[0] - self.rng.choice([1, 3600, 10 ** 6]), ts[-1] + self.rng.choice([1, 3600, 10 ** 6])]
                                       if self.rng.random() < 0.3 else [ts[i], self.rng.randint(ts[0], ts[-1]), min(max(ts[i] + self.rng.randint(-90, 90), ts[0]), ts[-1])]))
        return out

    def ask(self, via, sys, unit, exarg, npts, part):
        rng, w = self.rng, self.w
        u = rng.choice(NAMES[unit]) if unit else None
        parts = shape = same = True
        q = (lambda r: [fx(r[0], 1000), fx(r[1], 1000 if sys == "uv" else 100)])
        if via != "at":
            part, exarg = "both", "none"
        if via == "value":
            sys, unit = "r-theta", ""
            ts = self.times(1)
        elif via == "data":
            ts = self.times(rng.choice([1, 1, 2, 3, 5]) if len(w.timeseries) < 20 else 12)
            if rng.random() < 0.15:
                ts = [self.sec(t) for t in w.timeseries["time"]]
                arg = None
            else:
                arg = [self.at(t) for t in ts]
                arg = arg[0] if len(ts) == 1 and rng.random() < 0.6 else rng.choice([lambda: arg, lambda: np.array(arg, dtype="datetime64[s]")])()
        else:
            ts = self.times(1)
        ev = dict(via=via, sys=sys, unit=unit, exarg=exarg, part=part, times=ts)
        try:
            if via == "value":
                r = w.get_value(self.at(ts[0]))
                res = [[q(r)]]
            elif via == "data":
                kw = {}
                if u or rng.random() < 0.3:
                    kw["units"] = u
                if sys == "uv" or rng.random() < 0.5:
                    kw["coord_sys"] = sys
                d = w.get_wind_data(arg, **kw) if arg is not None else w.get_wind_data(**kw)
                shape = len(d) == len(ts) and [self.sec(t) for t in d["time"]] == ts
                res = [[q(r)] for r in d["value"]]
            else:
                pts = None if npts == 0 else [[rng.uniform(-180, 180), rng.uniform(-80, 80)] + [0.0] * (npts % 2) for _ in range(npts)]
                arg = pts if pts is None or rng.random() < 0.3 else np.array(pts)
                b = copy.deepcopy(arg)
                kw = dict(coord_sys=sys)
                if u:
                    kw["units"] = u
                if exarg != "none":
                    kw["extrapolate"] = exarg == "yes"
                if sys == "uv" and part == "both" and rng.random() < 0.5:
                    del kw["coord_sys"]
                both = w.at(arg, self.at(ts[0]), **kw)
                same = b is None or np.array_equal(np.array(arg), np.array(b))
                k = max(npts, 1)
                shape = both.shape == (k, 3 if npts % 2 and npts else 2) and (both.shape[1] == 2 or not both[:, 2].any())
                if part == "both":
                    res = [[q(r) for r in both]]
                else:
                    i = 0 if part == "first" else 1
                    kw["coord_sys"] = {"uv": "uv", "r-theta": ["r", "theta"]}[sys][i]
                    one = np.asarray(w.at(arg, self.at(ts[0]), **kw))
                    shape = shape and one.size == k
                    parts = np.array_equal(one.reshape(-1), both[:, i])
                    res = [[[q(r)[i]] for r in both]]
            ev.update(res=res, parts=bool(parts), shape=bool(shape), same=bool(same))
        except Exception as e:
            ev["exc"] = excname(e) + ": " + str(e)[:200]
        self.a.rec.emit("ask", snap=self.snap(), **ev)

    def bad(self, how, kind, unit, vals):
        rng = self.rng
        u = rng.choice(NAMES[unit])
        vals = [list(v) for v in vals]
        i = rng.randrange(len(vals) - 1)
        if kind == "order":
            vals[i][0], vals[i + 1][0] = vals[i + 1][0], vals[i][0]
        elif kind == "twice":
            vals[i][0] = vals[i + 1][0]
        elif kind == "negative":
            vals[i][1] = -5 - vals[i][1]
        elif kind == "turn":
            vals[i][2] = 36001
        elif kind == "left":
            vals[i][2] = -1
        else:
            u = rng.choice(["kg", "furlong", ""])
        exc = ""
        if kind == "unit" and how == "prop":
            how = "setdata"
        u0 = self.w.units
        try:
            if how == "array":
                Wind(timeseries=self.arr(vals, ""), units=u)
            elif how == "list":
                Wind(timeseries=self.lst(vals, ""), units=u)
            elif how == "values":
                wind_from_values([(self.at(v[0]), v[1] / 1000, v[2] / 100) for v in vals], units=u)
            elif how == "setdata":
                self.w.set_wind_data(self.arr(vals, "") if rng.random() < 0.6 else self.lst(vals, ""), u)
            elif how == "prop":
                self.w.timeseries = self.arr(vals, "") if rng.random() < 0.6 else self.lst(vals, "")
            else:
                d = {"timeseries": [(self.at(v[0]).isoformat(), (v[1] / 1000, v[2] / 100)) for v in vals]}
                if kind == "unit":
                    d["units"] = u
                self.w.update_from_dict(d)
        except Exception as e:
            exc = excname(e) + ": " + str(e)[:100]
        self.a.rec.emit("bad", how=how, kind=kind, exc=exc, snap=self.snap())

    def run(self, op):
        rng, rec, w = self.rng, self.a.rec, self.w
        k = op[0]
        if k == "set":
            self.set(*op[1:])
        elif k == "ask":
            self.ask(*op[1:])
        elif k == "bad":
            self.bad(*op[1:])
        elif k == "units":
            w.units = rng.choice(NAMES[op[1]])
            rec.emit("units", unit=op[1], snap=self.snap())
        elif k == "ext":
            w.extrapolation_is_allowed = op[1]
            rec.emit("ext", ext=op[1], snap=self.snap())
        elif k == "tz":
            w.timezone_offset = self.tzo(op[1])
            rec.emit("tz", tz=op[1], snap=self.snap())
        elif k == "rt":
            n = Wind.deserialize(json.loads(json.dumps(w.serialize())))
            eq = bool(n == w) and bool(w == n) and not n != w and n is not w
            self.w = n
            rec.emit("rt", eq=eq, snap=self.snap())
        elif k == "gust":
            w.speed_uncertainty_scale = {0: 0.0, 1: 0.6}.get(op[3], op[1] / 100)
            up = "up" if op[2] else "down"
            valid = op[3] > 1
            r = w.set_speed_uncertainty(up)
            if valid:
                valid = w.set_speed_uncertainty(None) is False and w.set_speed_uncertainty("sideways") is False
            w.speed_uncertainty_scale = 0.0
            rec.emit("gust", s=op[1], up=op[2], valid=op[3] > 1 and valid, ret=bool(r), snap=self.snap())
        elif k == "xf":
            to, fro = (tf.r_theta_to_uv_current, tf.uv_to_r_theta_current) if op[2] else (tf.r_theta_to_uv_wind, tf.uv_to_r_theta_wind)
            x = np.array([[v[1] / 1000, v[2] / 100] for v in op[1]])
            b = x.copy()
            uv = to(x)
            c = uv.copy()
            back = fro(uv)
            same = np.array_equal(x, b) and np.array_equal(uv, c)
            one = to(x[0])
            same = same and np.array_equal(one, uv[:1]) and np.array_equal(fro(uv[0]), back[:1])
            refused = True
            for j, bad in ((0, -1.0), (1, 360.5), (1, -0.5)):
                y = x.copy()
                y[-1, j] = bad
                try:
                    to(y)
                    refused = False
                except ValueError:
                    pass
            rec.emit("xf", vals=op[1], cur=op[2], uv=[[fx(v, 1000) for v in r] for r in uv], back=[[fx(r[0], 1000), fx(r[1], 100)] for r in back], same=bool(same), refused=refused)
        elif k == "cur":
            r, d, unit, ask, n, setters = op[1:]
            u = rng.choice(NAMES[unit])
            if setters:
                c = SteadyUniformCurrent(3.0, 77.0)
                c.speed = SteadyUniformCurrent(r / 1000, 0, units=u).speed
                c.direction = d / 100
            else:
                c = SteadyUniformCurrent(r / 1000, d / 100, u) if u != "m/s" or rng.random() < 0.5 else SteadyUniformCurrent(r / 1000, d / 100)
            pts = np.array([[rng.uniform(-180, 180), rng.uniform(-80, 80)] + [5.0] * (n % 2) for _ in range(n)])
            b = pts.copy()
            res = c.at(pts, self.at(0), units=rng.choice(NAMES[ask])) if ask else c.at(pts, self.at(0))
            shape = res.shape == pts.shape and (n % 2 == 0 or not res[:, 2].any()) and np.array_equal(b, pts)
            n2 = SteadyUniformCurrent.deserialize(json.loads(json.dumps(c.serialize())))
            eq = n2 == c and np.allclose(n2.at(pts, self.at(0)), c.at(pts, self.at(0)), rtol=0, atol=1e-12)
            rec.emit("cur", r=r, d=d, unit=unit, ask=ask, n=n, res=[[fx(v[0], 1000), fx(v[1], 1000)] for v in res], shape=bool(shape), eq=bool(eq))
        elif k == "tsd":
            dim, unit, ask, vals, ext, exarg, n = op[1:]
            u = rng.choice(NAMES[unit])
            ts = [self.at(v[0]) for v in vals]
            if dim == 1:
                s = TimeseriesData(name="s", units=u, time=ts, data=np.array([v[1] / 1000 for v in vals]), extrapolate=ext)
            else:
                s = TimeseriesVector(name="s", units=u, time=ts, variables=[TimeseriesData(name="c%d" % j, units=u, time=ts, data=np.array([v[j] / 1000 for v in vals]), extrapolate=ext) for j in (1, 2)])
            t = rng.choice([vals[0][0], vals[-1][0], vals[rng.randrange(len(vals))][0], rng.randint(vals[0][0], vals[-1][0]), rng.randint(vals[0][0], vals[-1][0]),
                            vals[0][0] - rng.choice([1, 7200]), vals[-1][0] + rng.choice([1, 7200])])
            pts = None if n == 0 else np.array([[rng.uniform(-180, 180), rng.uniform(-80, 80)] for _ in range(n)])
            ev = dict(dim=dim, unit=unit, ask=ask, vals=vals, ext=ext, exarg=exarg, t=t)
            kw = dict(units=rng.choice(NAMES[ask])) if ask else {}
            if exarg or rng.random() < 0.5:
                kw["extrapolate"] = exarg
            try:
                r = s.at(pts, self.at(t), **kw)
                shape = True
                if pts is None:
                    r = np.asarray(r, dtype=float).reshape(1, -1)
                shape = r.shape == (max(n, 1), dim)
                ev.update(res=[[fx(x, 1000) for x in v] for v in r], shape=bool(shape))
            except Exception as e:
                if os.environ.get("VERIF_DEBUG") == "2":
                    raise
                ev["exc"] = excname(e) + ": " + str(e)[:100]
            rec.emit("tsd", **ev)


def main():
    a = args()
    for b in behaviours(a):
        a.rec.trace += 1
        a.rec.emit("begin")
        wo = World(a)
        for op in b:
            try:
                wo.run(op)
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                a.rec.emit("failed", what=op[0], args=repr(op)[:300], exc=excname(e) + ": " + str(e)[:200])
                break
    a.rec.close()


main()
