"""replays generated histories of single movers on a real container of elements"""
import traceback
from datetime import datetime, timedelta
from common import *
import gnome.movers as gm
from gnome.environment.wind import Wind
from gnome.environment.environment_objects import SteadyUniformCurrent
from gnome.movers.py_wind_movers import WindMover as PyWindMover
from gnome.movers.py_current_movers import CurrentMover
from gnome.movers.c_wind_movers import PointWindMover
from gnome.movers.random_movers import RandomMover, RandomMover3D
from gnome.movers.simple_mover import SimpleMover
from gnome.movers.vertical_movers import RiseVelocityMover
from gnome.spill_container import SpillContainer
from gnome.spills.spill import point_line_spill
from gnome.array_types import gat
from gnome.basic_types import datetime_value_2d, oil_status
from gnome.utilities.inf_datetime import InfDateTime
from gnome.utilities import rand as grand

FOREVER = 1000000000
NAMES = ("windages", "windage_range", "windage_persist", "rise_vel")


def alike(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


class Field:
    """a current that changes linearly in time and with the latitude"""
    def __init__(self, ts, shear, lat, base):
        self.ts, self.shear, self.lat, self.base = ts, shear, lat, base
        self.name = "field"

    def at(self, points, time, *args, **kwargs):
        t = (time - self.base).total_seconds()
        x = [p[0] for p in self.ts]
        uv = [np.interp(t, x, [p[k] for p in self.ts]) / 1000 for k in (1, 2)]
        res = np.zeros((len(points), 3))
        res[:, 0] = uv[0] + self.shear / 1000 * (np.asarray(points)[:, 1] - self.lat) * 1000
        res[:, 1] = uv[1]
        return res if self.three else res[:, :2].copy()

    three = False


class World:
    def __init__(self, a):
        self.a, self.rng = a, a.rng
        self.base = a.rng.choice([datetime(2005, 12, 30), datetime(2024, 2, 27, 6), datetime(2012, 7, 1)])
        self.mover = None

    def at(self, s):
        return self.base + timedelta(seconds=s)

    def mm(self, t, p):
        x = np.zeros((len(p),), dtype=datetime_value_2d)
        for i, v in enumerate(p):
            x["time"][i] = self.at(v[0])
            x["value"][i] = (v[1] / 1000, v[2] / 1000)
        return x

    # -- the elements -------------------------------------------------------
    def fresh(self):
        c = self.c
        sc = SpillContainer(uncertain=c["unc"])
        self.far = self.base + timedelta(days=400)
        self.grown = 0
        for k in range(6):
            sc.spills += point_line_spill(c["n"] if k == 0 else self.rng.randint(1, 4), (0, 0, 0), self.far + timedelta(hours=k), windage_range=(0.01, 0.04), windage_persist=900)
        sc.prepare_for_model_run({n: gat(n) for n in NAMES})
        self.sc = sc
        self.grow()

    def grow(self):
        if self.grown >= 6:
            return False
        n0 = len(self.sc["positions"]) if self.grown else 0
        t = self.far + timedelta(hours=self.grown)
        self.grown += 1
        self.sc.release_elements(t, t + timedelta(seconds=60))
        self.place(range(n0, len(self.sc["positions"])), 3)
        return True

    def place(self, ix, mix):
        r, c, sc = self.rng, self.c, self.sc
        wide = r.random() < 0.5
        for i in ix:
            lat = self.lat if c["shear"] else r.choice([0, 60, -45, 70, round(r.uniform(-72, 72), 4)])
            z = 0.0 if mix == 0 or r.random() < 0.5 else r.choice([0.001, 1.0, 5.0, 10.0, 25.0, round(r.uniform(0.01, 80), 3)])
            sc["positions"][i] = (round(r.uniform(-179, 179), 4), lat, z)
            sc["status_codes"][i] = oil_status.in_water if r.random() < 0.8 or mix == 1 else r.choice([oil_status.on_land, oil_status.off_maps, oil_status.not_released, oil_status.to_be_removed])
            lo, hi = sorted((round(r.uniform(0, 0.08), 4), round(r.uniform(0, 0.08), 4)))
            if mix == 2 or r.random() < 0.3:
                hi = lo
            sc["windage_range"][i] = (lo, hi)
            sc["windage_persist"][i] = r.choice([0, -1, 901, 3600, 60, 300, 900, 900]) if wide else r.choice([0, -1, 1000])
            sc["windages"][i] = round(r.uniform(lo, hi), 5)
            sc["rise_vel"][i] = r.choice([0, 0.00001, round(r.uniform(0, 0.4), 5), round(-r.uniform(0, 0.01), 5)])

    # -- the mover ------------------------------------------------------------
    def make(self):
        c, r = self.c, self.rng
        k = c["kind"]
        kw = {} if c["ctor"] else None
        if k in ("point", "wind"):
            w = Wind(timeseries=self.mm(0, c["ts"]), coord_sys="uv", units="m/s", extrapolation_is_allowed=True)
            args = dict(uncertain_speed_scale=c["usp"] / 10, uncertain_angle_scale=c["uang"] / 10)
            h = 3600 if k == "point" else 1
            args.update(uncertain_duration=c["dur"] / h, uncertain_time_delay=c["delay"] / h)
            if k == "wind":
                args.update(scale_value=c["scale"] / 10, default_num_method=c["method"])
            m = (PointWindMover if k == "point" else PyWindMover)(wind=w, **(args if c["ctor"] else {}))
        elif k == "current":
            steady = len(c["ts"]) == 1 and not c["shear"] and r.random() < 0.5
            if steady:
                u, v = c["ts"][0][1] / 1000, c["ts"][0][2] / 1000
                cur = SteadyUniformCurrent(math.hypot(u, v), math.degrees(math.atan2(u, v)) % 360)
            else:
                cur = Field(c["ts"], c["shear"], self.lat, self.base)
                cur.three = c["method"] != "Euler" or r.random() < 0.5
            args = dict(scale_value=c["scale"] / 10, default_num_method=c["method"], uncertain_along=c["along"] / 1000, uncertain_cross=c["cross"] / 1000,
                        uncertain_duration=c["dur"], uncertain_time_delay=c["delay"])
            m = CurrentMover(current=cur, **(args if c["ctor"] else {}))
        elif k == "simple":
            args = dict(uncertainty_scale=c["us"] / 1000)
            m = SimpleMover((c["ts"][0][1] / 1000, c["ts"][0][2] / 1000, c["down"] / 1000), **(args if c["ctor"] else {}))
        elif k == "rise":
            args, m = {}, RiseVelocityMover()
        elif k == "random":
            args = dict(diffusion_coef=c["D"] * 100, uncertain_factor=c["factor"] / 10)
            m = RandomMover(**(args if c["ctor"] else {}))
        else:
            args = dict(horizontal_diffusion_coef_above_ml=c["D"] * 100, horizontal_diffusion_coef_below_ml=c["D2"] * 100, vertical_diffusion_coef_above_ml=c["V"] / 100,
                        vertical_diffusion_coef_below_ml=c["V2"] / 100, mixed_layer_depth=c["ml"] / 1000, surface_is_allowed=c["surf"])
            m = RandomMover3D(**(args if c["ctor"] else {}))
        if not c["ctor"]:
            for n, v in args.items():
                setattr(m, n, v)
        self.mover = m
        m.prepare_for_model_run()

    def new(self, c):
        if c["kind"] != "current":
            c["shear"] = 0
        if c["shear"]:
            c["ts"] = c["ts"][:1]
        self.c = c
        self.lat = self.rng.choice([0, 55, -30, round(self.rng.uniform(-70, 70), 4)])
        self.t, self.dt, self.on, self.r = 0, c["dt"], True, (-FOREVER, FOREVER)
        self.fresh()
        self.make()
        self.a.rec.emit("mover", cfg=c)

    def step(self, drop=None):
        sc, m, t, dt = self.sc, self.mover, self.t, self.dt
        w0 = sc["windages"].copy()
        now = self.at(t)
        m.prepare_for_model_step(sc, dt, now)
        before = {k: np.copy(v) for k, v in sc.data_arrays.items()}
        d = np.asarray(m.get_move(sc, dt, now))
        same = all(alike(v, sc[k]) for k, v in before.items())
        els = []
        for i in range(len(sc["positions"])):
            p = sc["positions"][i]
            els.append(dict(id=ix(sc["id"][i]), lat=fx(p[1], 1e4), z=fx(p[2], 1000), st=ix(sc["status_codes"][i]), w0=fx(w0[i], 1e6), w=fx(sc["windages"][i], 1e6),
                            lo=fx(sc["windage_range"][i][0], 1e6), hi=fx(sc["windage_range"][i][1], 1e6), pers=ix(sc["windage_persist"][i]), rise=fx(sc["rise_vel"][i], 1e5)))
        ds = [[fx(x[0], 1e8), fx(x[1], 1e8), fx(x[2], 1e5)] for x in d] if d.shape == (len(els), 3) else []
        self.a.rec.emit("step", t=t, dt=dt, on=self.on, r0=self.r[0], r1=self.r[1], active=bool(m.active), els=els, d=ds, same=same)
        if drop is not None and len(els):
            sc["status_codes"][drop % len(els)] = oil_status.to_be_removed
        m.model_step_is_done(sc)
        gone = int(np.sum(sc["status_codes"] == oil_status.to_be_removed))
        sc.model_step_is_done()
        self.t += dt
        return gone

    def warp(self, n, dt):
        r = self.rng
        dt = dt or self.dt
        lo = [round(r.uniform(-1, 3), 4) for _ in range(n)]
        hi = [x + r.choice([0, round(r.uniform(0, 2), 4)]) for x in lo]
        pers = [r.choice([0, -1, 901, 3600, 60, 300, 900, 900]) for _ in range(n)]
        arr = np.array([round(r.uniform(-1, 3), 4) for _ in range(n)])
        given = [list(lo), list(hi), list(pers), arr.copy()]
        how = r.choice(["array", "list", "none"])
        if how == "array":
            A = [np.array(lo), np.array(hi), np.array(pers)]
        else:
            A = [lo, hi, pers]
        if how == "none":
            res = grand.random_with_persistance(A[0], A[1], None, None, dt)
            pers, arr0 = [abs(dt)] * n, np.zeros(n)
        else:
            arr0 = arr.copy()
            res = grand.random_with_persistance(A[0], A[1], arr, A[2], dt)
        same = all(np.array_equal(x, y) for x, y in zip(A, given[:3])) and (how == "none" or res is arr)
        self.a.rec.emit("warp", dt=dt, free=how == "none", els=[dict(w0=fx(arr0[i], 1e6), w=fx(res[i], 1e6), lo=fx(given[0][i], 1e6), hi=fx(given[1][i], 1e6), pers=int(pers[i])) for i in range(n)], same=bool(same))

    def run(self, o):
        k = o[0]
        rec = self.a.rec
        if k == "mover":
            return self.new(dict(o[1]))
        if k == "step":
            return self.step()
        if k == "elems":
            self.place(range(len(self.sc["positions"])), o[1])
            return rec.emit("elems")
        if k == "drop":
            return self.step(drop=o[1])
        if k == "grow":
            self.grow()
            return rec.emit("grow")
        if k == "on":
            self.on = o[1]
            self.mover.on = o[1]
            return rec.emit("on")
        if k == "range":
            h = abs(self.dt) // 2
            self.r = (-FOREVER if o[1] == -99 else o[1] * h, FOREVER if o[2] == 99 else o[2] * h)
            self.mover.active_range = (InfDateTime("-inf") if o[1] == -99 else self.at(self.r[0]), InfDateTime("inf") if o[2] == 99 else self.at(self.r[1]))
            return rec.emit("range")
        if k == "rewind":
            self.t = 0
            self.dt = o[1] or self.dt
            self.fresh()
            self.mover.prepare_for_model_run()
            return rec.emit("rewind")
        if k == "set":
            c, m, kind = self.c, self.mover, self.c["kind"]
            mine_ = dict(scale=("wind", "current"), D=("random", "random3"), factor=("random",), usp=("wind", "point"), uang=("wind", "point"), us=("simple",))[o[1]]
            if kind not in mine_:
                return rec.emit("set", name="none", val=0)
            v = dict(scale=o[2], D=o[2] * 100, factor=o[2] + 10, usp=o[2], uang=o[2] // 5, us=o[2] * 30)[o[1]]
            attr = dict(scale="scale_value", D="diffusion_coef" if kind == "random" else "horizontal_diffusion_coef_above_ml", factor="uncertain_factor", usp="uncertain_speed_scale",
                        uang="uncertain_angle_scale", us="uncertainty_scale")[o[1]]
            setattr(m, attr, v * 100 if o[1] == "D" else v / 1000 if o[1] == "us" else v / 10)
            return rec.emit("set", name=o[1], val=v)
        if k == "warp":
            return self.warp(o[1], o[2])


def main():
    a = args()
    for i, h in enumerate(behaviours(a)):
        a.rec.trace = i
        a.rec.emit("begin")
        w = World(a)
        grand.seed(a.rng.randrange(10000))
        for o in h:
            try:
                w.run(o)
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                a.rec.emit("failed", what=o[0], exc=excname(e) + ": " + str(e)[:200])
                break
    a.rec.close()


main()
