"""drives whole models through call histories generated by SimMC and records, after every public call,
the clock, the element arrays of both containers, what movers / weatherers / outputters were asked, and
what was cached.  Times are recorded in half seconds since T0, positions in micro-degrees."""
from common import *
import copy, hashlib
from datetime import datetime, timedelta
import gnome
from gnome.model import Model
from gnome.maps import GnomeMap
from gnome.movers.movers import Mover
from gnome.movers import RandomMover, SimpleMover, WindMover
from gnome.weatherers.core import Weatherer
from gnome.outputters.outputter import Outputter
from gnome.environment import Wind, constant_wind
from gnome.environment.environment import Environment
from gnome.spills.spill import Spill
from gnome.spills.release import PointLineRelease, PolygonRelease, GridRelease, Release
from gnome.spills.substance import NonWeatheringSubstance
from gnome.basic_types import oil_status
from gnome.utilities.inf_datetime import InfDateTime
import shapely.geometry as sg

a = args()
T0 = datetime(2024, 2, 28, 18, 0, 0)
NONE = -999999999
MU = 1000000


def hs(t):
    if t is None:
        return NONE
    if isinstance(t, timedelta):
        return fx(t.total_seconds(), 2)
    if isinstance(t, datetime):
        return fx((t - T0).total_seconds(), 2)
    return fx(t, 2)


def dt_(h):
    return T0 + timedelta(seconds=h / 2)


def digest(sc, skip=()):
    h = hashlib.sha1()
    for k in sorted(sc.data_arrays.keys()):
        if k in skip:
            continue
        v = np.ascontiguousarray(sc.data_arrays[k])
        h.update(k.encode() + str(v.shape).encode() + str(v.dtype).encode() + v.tobytes())
    return h.hexdigest()[:16]


def els(sc):
    if "positions" not in sc.data_arrays or "id" not in sc.data_arrays:
        return []
    n = min(len(v) for v in sc.data_arrays.values())
    p = sc["positions"]
    return [[ix(sc["id"][i]), ix(sc["spill_num"][i]), ix(sc["status_codes"][i]), ix(sc["age"][i]),
             fx(sc["mass"][i], 1000), fx(sc["init_mass"][i], 1000), fx(p[i, 0], MU), fx(p[i, 1], MU), fx(p[i, 2], 1000)]
            for i in range(n)]


class Log:
    def __init__(self):
        self.clear()

    def clear(self):
        self.calls, self.seen, self.out = [], {}, []


class ProbeMover(Mover):
    """moves element i by a + b*(id%3) + c*(age parity) [+u if uncertain] micro-degrees per step"""
    def __init__(self, num, log, mv, **kw):
        super().__init__(**kw)
        self.num, self.log, self.mv = num, log, mv

    def prepare_for_model_run(self):
        self.log.calls.append(["m%d" % self.num, "run", 0, 0, 0, 0])

    def prepare_for_model_step(self, sc, time_step, model_time):
        super().prepare_for_model_step(sc, time_step, model_time)
        self.log.calls.append(["m%d" % self.num, "prep", 2 if sc.uncertain else 1, hs(model_time), hs(time_step), sc.num_released])

    def get_move(self, sc, time_step, model_time):
        c = 2 if sc.uncertain else 1
        self.log.calls.append(["m%d" % self.num, "move", c, hs(model_time), hs(time_step), sc.num_released])
        if c not in self.log.seen:
            self.log.seen[c] = els(sc)
        d = np.zeros_like(sc["positions"])
        if self.active:
            m = sc["status_codes"] == oil_status.in_water
            k = sc["id"].astype(np.int64) % 3
            for ax in (0, 1):
                aa, b, u = self.mv[ax]
                d[m, ax] = (aa + b * k + (u if sc.uncertain else 0))[m] / MU
        return d

    def model_step_is_done(self, sc=None):
        self.log.calls.append(["m%d" % self.num, "done", 2 if sc.uncertain else 1, 0, 0, 0])

    def post_model_run(self):
        self.log.calls.append(["m%d" % self.num, "post", 0, 0, 0, 0])


class ProbeWeatherer(Weatherer):
    def __init__(self, num, log, mark, **kw):
        super().__init__(**kw)
        self.num, self.log, self.mark = num, log, mark

    def prepare_for_model_run(self, sc):
        self.log.calls.append(["w%d" % self.num, "run", 2 if sc.uncertain else 1, 0, 0, 0])

    def prepare_for_model_step(self, sc, time_step, model_time):
        super().prepare_for_model_step(sc, time_step, model_time)
        self.log.calls.append(["w%d" % self.num, "prep", 2 if sc.uncertain else 1, hs(model_time), hs(time_step), sc.num_released])

    def weather_elements(self, sc, time_step, model_time):
        self.log.calls.append(["w%d" % self.num, "weather", 2 if sc.uncertain else 1, hs(model_time), hs(time_step), sc.num_released])
        if self.active and self.mark:
            m = (sc["id"].astype(np.int64) + sc["age"].astype(np.int64) // 60) % self.mark == 0
            sc["status_codes"][m] = oil_status.to_be_removed

    def model_step_is_done(self, sc=None):
        self.log.calls.append(["w%d" % self.num, "done", 2 if sc.uncertain else 1, 0, 0, 0])

    def post_model_run(self):
        self.log.calls.append(["w%d" % self.num, "post", 0, 0, 0, 0])


class ProbeEnv(Environment):
    def __init__(self, log):
        super().__init__(name="probe_env")
        self.log = log

    def prepare_for_model_run(self, model_time):
        self.log.calls.append(["e0", "run", 0, hs(model_time), 0, 0])

    def prepare_for_model_step(self, model_time):
        self.log.calls.append(["e0", "prep", 0, hs(model_time), 0, 0])

    def post_model_run(self):
        self.log.calls.append(["e0", "post", 0, 0, 0, 0])


class ProbeOut(Outputter):
    def __init__(self, num, log, **kw):
        super().__init__(**kw)
        self.num, self.log = num, log

    def write_output(self, step_num, islast_step=False):
        super().write_output(step_num, islast_step)
        if not self.on or not self._write_step:
            return None
        pair = self.cache.load_timestep(step_num)
        self.log.out.append([self.num, step_num, bool(islast_step), [digest(s) for s in pair.items()],
                             [hs(s.current_time_stamp) for s in pair.items()]])
        return {"step_num": step_num}


class Tap(Outputter):
    """only there to be handed the cache"""


rng = a.rng
DTS = [600, 900, 1800, 3600, 7, 61, 1201, 21600]


def gen_spill(rng, start, dt, back, i):
    kind = rng.choice(["line", "line", "line", "point", "point", "poly", "grid", "custom"])
    h = 2 * abs(dt)
    off = rng.choice([0, 0, 0, h, h // 2, h // 3, 3 * h, 2 * h + 1, h * 30, -h])
    if rng.random() < 0.85 and off < 0:
        off = 0
    t0 = start - off if back else start + off
    dur = rng.choice([0, 0, h, 2 * h, 3 * h, 5 * h // 2, h // 2, h // 3, 4 * h + 2, 2, 2 * h - 2])
    if back and rng.random() < 0.9:
        dur = 0
    if kind == "grid":
        dur = 0
    # datetimes with half seconds are legal but unusual
    t0 -= t0 % 2 if rng.random() < 0.8 else 0
    npt = 0
    k = 1 if dur == 0 else max(1, -(-dur // h))
    n = rng.choice([1, 2, 3, 5, 7, 8, 10, 12, 12, 35])
    if rng.random() < 0.9:
        n = max(n, k)
    if rng.random() < 0.25 and kind != "grid":
        npt, n = rng.choice([1, 2, 3]), 0
    s = [rng.randint(-40000, 40000), rng.randint(-40000, 40000), rng.choice([0, 0, 5000])]
    e = list(s)
    if kind == "line":
        e = [s[0] + rng.randint(-15000, 15000), s[1] + rng.randint(-15000, 15000), s[2] + rng.choice([0, 0, 2000, -3000 if s[2] else 0])]
    sp = dict(kind=kind, t0=t0, d=dur, n=n, npt=npt, s=s, e=e, mass=rng.choice([0, 1, 10, 1000]), on=rng.random() < 0.9,
              name="s%d" % i, nx=0, ny=0, locs=[])
    if kind == "grid":
        sp["nx"], sp["ny"] = rng.choice([1, 2, 3, 3, 7]), rng.choice([1, 2, 4, 4, 11])
        sp["n"] = sp["nx"] * sp["ny"]
        sp["e"] = [s[0] + 12000, s[1] + (9000 if sp["ny"] < 11 else 10000), 0]
        sp["s"][2] = 0
    if kind == "poly":
        w, hh = rng.randint(500, 12000), rng.randint(500, 12000)
        sp["e"] = [s[0] + w, s[1] + hh, 0]
        sp["s"][2] = 0
        sp["tri"] = rng.random() < 0.3
        if not sp["tri"] and rng.random() < 0.6:
            x0, y0, x1, y1 = s[0], s[1], s[0] + w, s[1] + hh
            a_, b_ = x0 + w // 3, x0 + 2 * w // 3
            c_, d_ = y0 + hh // 4, y0 + hh // 2
            sp["shape"] = rng.choice(["L", "hole", "two", "multi", "weights", "thick"])
            sp["rects"] = dict(L=[[x0, y0, x1, c_], [x0, y0, a_, y1]],
                               hole=[[x0, y0, x1, c_], [x0, d_, x1, y1], [x0, y0, a_, y1], [b_, y0, x1, y1]]).get(sp["shape"], [[x0, y0, a_, d_], [b_, c_, x1, y1]])
    if kind == "custom":
        sp["locs"] = [[s[0] + 1000 * j, s[1] - 700 * j, s[2]] for j in range(rng.choice([1, 2, 3]))]
        sp["e"] = s
    sp.setdefault("tri", False)
    sp.setdefault("shape", "")
    sp.setdefault("rects", [])
    return sp


def build_spill(sp):
    c = lambda p: (p[0] / MU, p[1] / MU, p[2] / 1000)
    t0 = dt_(sp["t0"])
    end = None if sp["d"] == 0 else dt_(sp["t0"] + sp["d"])
    kw = dict(release_time=t0, end_release_time=end)
    if sp["npt"]:
        kw["num_per_timestep"] = sp["npt"]
    else:
        kw["num_elements"] = sp["n"]
    if sp["kind"] in ("line", "point"):
        rel = PointLineRelease(start_position=c(sp["s"]), end_position=c(sp["e"]) if sp["kind"] == "line" else None, **kw)
    elif sp["kind"] == "poly":
        (x0, y0, _), (x1, y1, _) = c(sp["s"]), c(sp["e"])
        pts = [(x0, y0), (x1, y0), (x1, y1)] if sp["tri"] else [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        polys = [sg.Polygon(pts)]
        if sp["shape"]:
            rs = [[v / MU for v in q] for q in sp["rects"]]
            box = lambda q: sg.Polygon([(q[0], q[1]), (q[2], q[1]), (q[2], q[3]), (q[0], q[3])])
            if sp["shape"] == "L":
                polys = [sg.Polygon([(x0, y0), (x1, y0), (x1, rs[0][3]), (rs[1][2], rs[0][3]), (rs[1][2], y1), (x0, y1)])]
            elif sp["shape"] == "hole":
                l, r, b, t = rs[2][2], rs[3][0], rs[0][3], rs[1][1]
                polys = [sg.Polygon(pts, [[(l, b), (r, b), (r, t), (l, t)]])]
            else:
                polys = [box(q) for q in rs]
                if sp["shape"] == "multi":
                    polys = [sg.MultiPolygon(polys)]
                elif sp["shape"] == "weights":
                    kw["weights"] = [0.25, 0.75]
                elif sp["shape"] == "thick":
                    kw["thicknesses"] = [0.001, 0.02]
        rel = PolygonRelease(polygons=polys, **kw)
    elif sp["kind"] == "custom":
        rel = Release(custom_positions=[c(p) for p in sp["locs"]], **kw)
    else:
        rel = GridRelease(release_time=t0, bounds=((c(sp["s"])[:2]), (c(sp["e"])[:2])), resolution=(sp["nx"], sp["ny"]))
    return Spill(release=rel, amount=sp["mass"], units="kg", on=sp["on"], name=sp["name"])


def gen_cfg(rng):
    back = rng.random() < 0.2
    dt = rng.choice(DTS)
    start = rng.choice([0, 3600, 7 * 7200, 11])
    h = 2 * dt
    nst = rng.choice([3, 4, 5, 6, 8]) if rng.random() < 0.93 else rng.randint(17, 30)
    dur = h * nst + rng.choice([0, 0, h // 2, h - 2])
    dur -= dur % 2
    sgn = -1 if back else 1
    unc = rng.random() < 0.45
    rnd = rng.random() < 0.25
    movers = []
    for i in range(rng.choice([1, 1, 2, 3])):
        r0, r1 = NONE, NONE
        if rng.random() < 0.35:
            r0 = start + sgn * rng.choice([0, h // 2, h, 3 * h // 2, 2 * h, h + 2]) if rng.random() < 0.7 else NONE
            r1 = (start if r0 == NONE else r0) + rng.choice([h, 2 * h, h // 2, 3 * h // 2, 2]) if rng.random() < 0.7 else NONE
        movers.append(dict(x=[rng.randint(-9000, 9000), rng.randint(-300, 300), rng.choice([0, 1500])],
                           y=[rng.randint(-9000, 9000), rng.randint(-300, 300), rng.choice([0, -900])],
                           on=rng.random() < 0.85, r0=r0, r1=r1))
    weath = [dict(mark=rng.choice([0, 5, 3]), on=rng.random() < 0.85) for _ in range(rng.choice([0, 0, 1, 2]))]
    outs = []
    for i in range(rng.choice([0, 1, 2])):
        outs.append(dict(on=rng.random() < 0.9, ots=rng.choice([0, 0, dt, 2 * dt, 3 * dt, dt // 2 + 1, 3 * dt // 2, 5 * dt // 2]) * 2,
                         zero=rng.random() < 0.6, last=rng.random() < 0.6, single=rng.random() < 0.2,
                         ostart=rng.choice([NONE, NONE, start, start + sgn * h, start + sgn * 3 * h, start + sgn * (5 * h // 2 - (5 * h // 2) % 2)])))
    spills = [gen_spill(rng, start, dt, back, i) for i in range(rng.choice([1, 1, 2, 3]))]
    return dict(start=start, dt=sgn * h, dur=sgn * dur, unc=unc, back=back, rnd=rnd, movers=movers, weath=weath, outs=outs,
                spills=spills, sub=rng.choice([1, 1, 2, 3]), cache=rng.random() < 0.5,
                box=rng.choice([[-60000, -60000, 60000, 60000], [-50000, -45000, 45000, 52000], [-900000, -900000, 900000, 900000]]))


def make_map(box):
    q = lambda v: (v + 0.5) / MU
    x0, y0, x1, y1 = map(q, box)
    return GnomeMap(map_bounds=((x0, y0), (x1, y0), (x1, y1), (x0, y1)))


class Run:
    def __init__(self, cfg):
        self.cfg = cfg
        self.log = Log()
        a.rec.trace += 1
        m = self.model = Model(start_time=dt_(cfg["start"]), time_step=timedelta(seconds=abs(cfg["dt"]) / 2),
                               duration=timedelta(seconds=abs(cfg["dur"]) / 2), uncertain=cfg["unc"],
                               weathering_substeps=cfg["sub"], map=make_map(cfg["box"]), cache_enabled=cfg["cache"],
                               run_backwards=cfg["back"])
        self.probes = []
        for i, mv in enumerate(cfg["movers"]):
            self.add_mover(i, mv)
        if cfg["rnd"]:
            m.movers += RandomMover(diffusion_coef=100000)
            m.movers += WindMover(constant_wind(7, 200, "m/s"))
        for i, w in enumerate(cfg["weath"]):
            m.weatherers += ProbeWeatherer(i, self.log, w["mark"], on=w["on"])
        m.environment += ProbeEnv(self.log)
        self.tap = Tap(output_zero_step=False, output_last_step=False, on=False)
        m.outputters += self.tap
        self.outs = []
        for i, o in enumerate(cfg["outs"]):
            p = ProbeOut(i + 1, self.log, on=o["on"], output_timestep=timedelta(seconds=o["ots"] / 2) if o["ots"] else None,
                         output_zero_step=o["zero"], output_last_step=o["last"], output_single_step=o["single"],
                         output_start_time=None if o["ostart"] == NONE else dt_(o["ostart"]))
            m.outputters += p
            self.outs.append(p)
        for sp in cfg["spills"]:
            m.spills += build_spill(sp)
        m.rewind()         # building objects draws from the generator that the run uses: start every history from a rewound model
        self.emit("new", cfg=cfg)

    def add_mover(self, i, mv):
        lo = InfDateTime("-inf") if mv["r0"] == NONE else dt_(mv["r0"])
        hi = InfDateTime("inf") if mv["r1"] == NONE else dt_(mv["r1"])
        self.model.movers += ProbeMover(i, self.log, (mv["x"], mv["y"]), on=mv["on"], active_range=(lo, hi))

    def obs(self):
        m = self.model
        scs = m.spills.items()
        o = dict(stp=ix(m.current_time_step), time=hs(m.model_time), nst=ix(m.num_time_steps), odur=hs(m.duration), odt=hs(m.time_step),
                 ostart=hs(m.start_time), ounc=bool(m.uncertain), oback=bool(m.run_backwards),
                 conts=[els(s) for s in scs],
                 ulen=[len(set(len(v) for v in s.data_arrays.values())) <= 1 for s in scs],
                 nrel=[ix(s.num_released) for s in scs],
                 dg=[digest(s) for s in scs], dgd=[digest(scs[0], ("windages",))], stamp=[hs(s.current_time_stamp) for s in scs],
                 names=[[x.name for x in s.spills] for s in scs])
        return o

    def emit(self, op, exc="", **kw):
        a.rec.emit(op, exc=exc, calls=self.log.calls, seen=[[c, self.log.seen[c]] for c in sorted(self.log.seen)],
                   out=self.log.out, **self.obs(), **kw)
        self.log.clear()

    def call(self, op, fn, **kw):
        exc = ""
        self.log.clear()
        try:
            fn()
        except Exception as e:
            exc = excname(e)
            if os.environ.get("VERIF_DEBUG") == exc:
                traceback.print_exc()
        self.emit(op, exc=exc, **kw)
        return exc

    def cached(self):
        """what the cache gives back for the steps of this run"""
        m = self.model
        if self.tap.cache is None:
            return
        got = []
        order = list(range(-1, m.num_time_steps + 1))
        random.Random(len(order)).shuffle(order)
        for k in order:
            try:
                pair = self.tap.cache.load_timestep(k)
                items = pair.items()
                d = [digest(s) for s in items]
                st = [hs(s.current_time_stamp) for s in items]
                for s in items:           # what the caller does with it must not reach the cache
                    for v in s.data_arrays.values():
                        if len(v):
                            v[...] = v.dtype.type(0)
                pair = self.tap.cache.load_timestep(k)
                if [digest(s) for s in pair.items()] != d:
                    d = ["changed-under-caller"] * len(d)
                got.append([k, d, st])
            except Exception as e:
                got.append([k, [], []])
        self.emit("cached", got=got)


def run(cfg, hist):
    r = Run(cfg)
    m = r.model
    extra = 0
    for c in hist:
        op = c["op"]
        if op == "steps":
            for _ in range(c["k"]):
                r.call("step", m.step)
        elif op == "finish":
            for _ in range(40):
                if r.call("step", m.step):
                    break
        elif op == "full":
            # full_run and iteration are exercised through their effects on the clock and the elements
            res = []
            r.call("full", lambda: res.extend(m.full_run(rewind=c["k"] == 1)), rew=c["k"] == 1, nres=0)
        elif op == "iter":
            n = []

            def it():
                for x in m:
                    n.append(x["step_num"])
            r.call("iter", it, nums=n)
        elif op == "rewind":
            r.call("rewind", m.rewind)
        elif op == "start":
            v = r.cfg["start"] + c["k"] * 3600
            r.cfg = dict(r.cfg, start=v)
            r.call("set_start", lambda: setattr(m, "start_time", dt_(v)), val=v)
        elif op == "dt":
            v = hs(m.time_step) * 2 if c["k"] == 1 else (hs(m.time_step) // 2 - (hs(m.time_step) // 2) % 2 or hs(m.time_step))
            arg = timedelta(seconds=v / 2) if c["k"] == 1 else int(v // 2)
            r.call("set_dt", lambda: setattr(m, "time_step", arg), val=v)
        elif op == "dur":
            v = hs(m.duration) + c["k"] * hs(m.time_step)
            if v * hs(m.time_step) > 0:
                r.call("set_dur", lambda: setattr(m, "duration", timedelta(seconds=v / 2)), val=v)
        elif op == "unc":
            v = c["k"] == 1
            r.call("set_unc", lambda: setattr(m, "uncertain", v), val=v)
        elif op == "back":
            v = c["k"] == 1
            r.call("set_back", lambda: setattr(m, "run_backwards", v), val=v)
        elif op == "mover":
            mv = dict(x=[100 * (1 + extra), 10, 0], y=[-50, 0, 0], on=True, r0=NONE, r1=NONE)
            extra += 1
            i = len(r.cfg["movers"])
            r.cfg = dict(r.cfg, movers=r.cfg["movers"] + [mv])
            r.call("add_mover", lambda: r.add_mover(i, mv), mv=mv)
        elif op == "map":
            b = [-70000, -70000, 70000, 70000]
            r.call("set_map", lambda: setattr(m, "map", make_map(b)), val=b)
        elif op == "spillon":
            if len(m.spills):
                i = c["k"] % len(m.spills)
                v = not m.spills[i].on

                def f():
                    for s in m.spills.items():
                        s.spills[i].on = v
                    m.rewind()
                r.call("spill_on", f, val=v, i=i)
        elif op == "addspill":
            sp = gen_spill(random.Random(c["k"] + 17 * len(m.spills) + a.seed), hs(m.start_time), abs(hs(m.time_step)) // 2 or 1, m.run_backwards, 10 + extra)
            extra += 1

            def f():
                m.spills.__iadd__(build_spill(sp))
                m.rewind()
            r.call("add_spill", f, sp=sp)
        elif op == "delspill":
            if len(m.spills):
                i = c["k"] % len(m.spills)

                def f():
                    if c["k"] >= 2:
                        del m.spills[m.spills[i].id]
                    else:
                        m.spills.remove(i)
                    m.rewind()
                r.call("del_spill", f, i=i)
        if r.cfg["cache"] and op in ("finish", "steps"):
            r.cached()
    # after a complete run with the cache on: the same output schedule replayed from the cache
    if cfg["cache"] and m.current_time_step == m.num_time_steps - 1 and m.num_time_steps > 0:
        for i, p in enumerate(r.outs):
            r.log.clear()
            exc = ""
            try:
                p.write_output_post_run(model_start_time=m.start_time, model_time_step=m.time_step, num_time_steps=m.num_time_steps,
                                        cache=r.tap.cache, uncertain=m.uncertain, spills=m.spills)
            except Exception as e:
                exc = excname(e)
            r.emit("post", exc=exc, num=i + 1)


for i, h in enumerate(behaviours(a)):
    c = gen_cfg(a.rng)
    run(c, [dict(op="finish", k=0)] + h if i % 3 == 0 else h)
    gnome.utilities.rand.seed(i)
a.rec.close()
