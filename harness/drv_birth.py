"""replays generated histories of a substance: its settings, elements released with it, distributions, droplets, oil data, the water"""
from datetime import datetime, timedelta
from common import *
from gnome.spills.substance import NonWeatheringSubstance, SubsurfaceSubstance
from gnome.spills.gnome_oil import GnomeOil
from gnome.spills.spill import point_line_spill
from gnome.spills.initializers import InitRiseVelFromDist, InitRiseVelFromDropletSizeFromDist, InitWindages
from gnome.spill_container import SpillContainer
from gnome.environment.water import Water
from gnome.array_types import gat
from gnome.cy_gnome.cy_rise_velocity_mover import rise_velocity_from_drop_size
from gnome.utilities import distributions as D
from gnome.utilities.compute_fraction import fraction_below_d
from gnome.utilities import rand as grand
from gnome.exceptions import GnomeRuntimeError

NONE, INFINITE = -9999, -7777
UNITS = dict(temperature=("K", "C", "F"), wave_height=("m", "cm", "ft"), fetch=("m", "cm", "ft"), sediment=("kg/m^3", "mg/l"))
STEP = dict(temperature=100, wave_height=1000, fetch=1000, sediment=1e6)
MORE = {"mg/l": 1000}


def reading(attr, unit):
    """how readings in a unit are recorded"""
    return 1000 if unit == "mg/l" else STEP[attr]


def given(v, unit):
    """canonical integer -> number in the unit"""
    return {"K": v / 100, "C": v / 100 - 273.15, "F": (v / 100 - 273.15) * 1.8 + 32, "m": v / 1000, "cm": v / 10, "ft": v / 304.8, "kg/m^3": v / 1e6, "mg/l": v / 1000}[unit]


def ln(x, unit=1e-9):
    try:
        return fx(math.log(float(x) / unit), 1e6)
    except Exception:
        return NAN


def distribution(d, k=1.0, shift=0.0):
    """k: the length of a unit"""
    opt = lambda x: None if x == NONE else x * k
    if d["kind"] == "uniform":
        return D.UniformDistribution(low=d["a"] * k, high=d["b"] * k)
    if d["kind"] == "normal":
        return D.NormalDistribution(mean=d["a"] * k, sigma=d["b"] * k)
    if d["kind"] == "lognormal":
        return D.LogNormalDistribution(mean=d["a"] / 1000 + shift, sigma=d["b"] / 1000)
    return D.WeibullDistribution(alpha=d["a"] / 100, lambda_=d["b"] * k, min_=opt(d["min"]), max_=opt(d["max"]))


def pieces(o, rng, **kw):
    n = len(o["frac"])
    extra = rng.random() < 0.3      # measurements of the weathered oil, which don't count
    dens, visc = [list(x) for x in o["dens"]], [list(x) for x in o["visc"]]
    if rng.random() < 0.5:
        rng.shuffle(dens)
    if rng.random() < 0.5:
        rng.shuffle(visc)
    args = dict(api=o["api"], pour_point=o["pour"] / 100, solubility=0, bullwinkle_fraction=0.2, emulsion_water_fraction_max=0.9,
                densities=[x[1] / 1000 for x in dens], density_ref_temps=[x[0] / 100 for x in dens], density_weathering=[0.0] * len(dens),
                kvis=[x[1] * 1e-9 for x in visc], kvis_ref_temps=[x[0] / 100 for x in visc], kvis_weathering=[0.0] * len(visc),
                mass_fraction=[x / 1e6 for x in o["frac"]], boiling_point=[350.0 + 60 * i for i in range(n)], molecular_weight=[80.0 + 40 * i for i in range(n)],
                component_density=[700.0 + 60 * i for i in range(n)])
    if extra:
        args["densities"].append(1003.0)
        args["density_ref_temps"].append(288.15)
        args["density_weathering"].append(0.25)
        args["kvis"].append(0.01)
        args["kvis_ref_temps"].append(288.15)
        args["kvis_weathering"].append(0.25)
    args.update(kw)
    return GnomeOil(**args)


def logs(o):
    return [[x[0], ln(x[1] * 1e-9)] for x in o["visc"]]


class World:
    def __init__(self, a, h):
        self.a, self.rng, self.rec = a, a.rng, a.rec
        self.plan = [o for o in h if o[0] in ("rel", "crowd")]
        self.base = a.rng.choice([datetime(2005, 12, 30), datetime(2024, 2, 28, 23)])
        self.done = 0
        self.water = Water(wave_height=0, fetch=0)

    def sub(self, c):
        self.c = c
        kw, how = {}, c["how"]
        rng = None if not c["range"] else tuple(x / 1e6 for x in c["range"])
        pers = {NONE: None, INFINITE: float("inf")}.get(c["pers"], c["pers"])
        if how == "ctor":
            kw = dict(windage_range=rng, windage_persist=pers)
        if c["kind"] == "plain":
            s = NonWeatheringSubstance(standard_density=c["dens"] / 1000, **kw)
        elif c["kind"] == "deep":
            s = SubsurfaceSubstance(distribution(c["dist"], 1e-6, math.log(500e-6)), standard_density=c["dens"] / 1000, **kw)
        else:
            s = pieces(c["oil"], self.rng, **kw)
        if how == "set" or not self.plan:
            s.windage_range, s.windage_persist = rng, pers
        sc = SpillContainer()
        self.times = []
        for i, o in enumerate(self.plan):
            t = self.base + timedelta(hours=i)
            n, z, mass = (o[1], o[2], o[4]) if o[0] == "rel" else (o[1], 0, 1000)
            more = dict(windage_range=rng, windage_persist=pers) if how == "spill" else {}
            sc.spills += point_line_spill(n, (0, 0, z), t, amount=n * mass, units="g", substance=s, **more)
            self.times.append(t)
        self.s = s
        names = ("windages", "windage_range", "windage_persist", "density", "mass", "fate_status")
        if c["kind"] == "oil":
            names += ("viscosity", "mass_components")
        if c["kind"] == "deep":
            names += ("rise_vel", "droplet_diameter")
        self.prepared = False
        self.sc, self.names = sc, names
        self.rec.emit("sub", cfg=c, **self.state())

    def state(self):
        r = np.asarray(self.s.windage_range, dtype=float).ravel()
        return dict(range=[fx(x, 1e6) for x in r], pers=ix(self.s.windage_persist))

    def release(self, env):
        if not self.prepared:
            self.sc.prepare_for_model_run({n: gat(n) for n in self.names})
            self.prepared = True
        t = self.times[self.done]
        self.done += 1
        self.sc.release_elements(t, t + timedelta(seconds=60), environment=env)

    def snapshot(self):
        sc, res = self.sc, []
        for i in range(len(sc["positions"])):
            e = dict(w=fx(sc["windages"][i], 1e6), lo=fx(sc["windage_range"][i][0], 1e6), hi=fx(sc["windage_range"][i][1], 1e6), pers=ix(sc["windage_persist"][i]),
                     dens=fx(sc["density"][i], 1000), mass=fx(sc["mass"][i], 1e6), fate=ix(sc["fate_status"][i]), visc=0, mc=[], drop=0, rise=0)
            if self.c["kind"] == "oil":
                e.update(visc=ln(sc["viscosity"][i]), mc=[fx(x, 1e6) for x in sc["mass_components"][i]])
            if self.c["kind"] == "deep":
                e.update(drop=fx(sc["droplet_diameter"][i], 1e9), rise=fx(sc["rise_vel"][i], 1e6))
            res.append(e)
        return res

    def rel(self, n, z, water, mass):
        env, rhow, kv = {"water": None}, 0, 0
        if water:
            w = Water(temperature=given(water[0], water[2]), salinity=water[1], units={"temperature": water[2]})
            env, rhow = {"water": w}, fx(w.get("density"), 1000)
        try:
            self.release(env)
        except GnomeRuntimeError as e:
            if "sink" not in str(e):
                raise
            self.rec.emit("sinks", water=water[:1], rhow=rhow)
            return True
        if self.c["kind"] == "oil":
            kv = ln(self.s.kvis_at_temp(water[0] / 100 if water else 288.15))
        self.rec.emit("rel", n=n, z=z, water=water[:1], rhow=rhow, kv=kv, lnv=logs(self.c["oil"]), els=self.snapshot())

    def crowd(self, n):
        n0 = len(self.sc["positions"]) if self.prepared and self.done else 0
        try:
            self.release({"water": None})
        except GnomeRuntimeError as e:
            if "sink" not in str(e):
                raise
            self.rec.emit("sinks", water=[], rhow=0)
            return True
        sc = self.sc
        w = np.array(sc["windages"][n0:], dtype=float)
        lo, hi = sc["windage_range"][n0]
        q = [fx((x - lo) / (hi - lo), 1e6) if hi > lo else 0 for x in np.percentile(w, [25, 50, 75])]
        self.rec.emit("crowd", lo=fx(lo, 1e6), hi=fx(hi, 1e6), min=fx(w.min(), 1e6), max=fx(w.max(), 1e6), q=q)
        # not looked at again: they'd only make the records long
        keep = np.ones(len(sc["positions"]), dtype=bool)
        keep[n0:] = False
        for k in list(sc._data_arrays):
            sc._data_arrays[k] = sc._data_arrays[k][keep]

    def dist(self, d):
        n = 2000
        x = np.zeros(n)
        distribution(d).set_values(x)
        if d["kind"] == "weibull":
            y, sc, th = (x / d["b"]) ** (d["a"] / 100), 1e6, [0.287682072, 0.693147181, 1.386294361]
        elif d["kind"] == "lognormal":
            y, sc, th = np.log(x), 1000, [d["a"] / 1000 + k * d["b"] / 1000 for k in (-0.67448975, 0, 0.67448975)]
        elif d["kind"] == "normal":
            y, sc, th = x, 1000, [d["a"] + k * d["b"] for k in (-0.67448975, 0, 0.67448975)]
        else:
            y, sc, th = x, 1000, [d["a"] + k * (d["b"] - d["a"]) for k in (0.25, 0.5, 0.75)]
        self.rec.emit("dist", d=d, n=n, th=[fx(t, sc) for t in th], cnt=[int(np.sum(y < t)) for t in th], min=fx(x.min(), 1000), max=fx(x.max(), 1000),
                      finite=bool(np.all(np.isfinite(x))), distinct=int(len(np.unique(x))))

    def baddist(self, what):
        W, g = D.WeibullDistribution, 0.000248
        try:
            dict(nolow=lambda: D.UniformDistribution(low=None, high=1.0), nohigh=lambda: D.UniformDistribution(low=0.0, high=None),
                 nomean=lambda: D.NormalDistribution(mean=None), nosigma=lambda: D.NormalDistribution(mean=1.0, sigma=None), nolmean=lambda: D.LogNormalDistribution(mean=None, sigma=1.0),
                 noalpha=lambda: W(), minneg=lambda: W(alpha=1.8, lambda_=g, min_=-0.1 * g), minhigh=lambda: W(alpha=1.8, lambda_=g, min_=4 * g), maxzero=lambda: W(alpha=1.8, lambda_=g, max_=0.0),
                 maxlow=lambda: W(alpha=1.8, lambda_=0.01, max_=0.0001), maxmin=lambda: W(alpha=1.8, lambda_=g, min_=g, max_=0.9 * g), maxtiny=lambda: W(alpha=1.8, lambda_=0.0001, max_=0.00004),
                 maxequal=lambda: W(alpha=1.8, lambda_=g, min_=g, max_=g), noname=lambda: D.get_distribution_by_name("Cauchy"), riseNone=lambda: InitRiseVelFromDist(None),
                 dropNone=lambda: InitRiseVelFromDropletSizeFromDist(None))[what]()
            e = ""
        except Exception as ex:
            e = excname(ex)
        self.rec.emit("baddist", what=what, exc=e)

    def rise(self, drops):
        v = []
        for d in drops:
            x = np.zeros(1)
            rise_velocity_from_drop_size(x, np.array([d[1] / 1000]), np.array([d[3] * 1e-6]), d[2] * 1e-9, d[0] / 1000)
            v.append(x[0])
        k = len(drops)      # all at once, in the water of the first
        x = np.zeros(k)
        rise_velocity_from_drop_size(x, np.array([d[1] / 1000 for d in drops]), np.array([d[3] * 1e-6 for d in drops]), drops[0][2] * 1e-9, drops[0][0] / 1000)
        self.rec.emit("rise", d=drops + [[drops[0][0], d[1], drops[0][2], d[3]] for d in drops], v=[fx(y, 1e6) for y in v] + [fx(y, 1e6) for y in x])

    def oil(self, o, temps):
        g = pieces(o, self.rng)
        if self.rng.random() < 0.35:
            # the same data, given to an oil that held (and was asked for) other data
            names = self.rng.choice([["kvis"], ["boiling_point"], ["kvis", "kvis_ref_temps", "kvis_weathering"], ["densities"], ["pour_point"], ["api"]])
            want = {k: getattr(g, k) for k in names}
            alter = dict(kvis=lambda v: [x * 3 for x in v], boiling_point=lambda v: np.asarray(v) + 77.0, densities=lambda v: [x - 30 for x in v], pour_point=lambda v: v - 15,
                         api=lambda v: 50 - v, kvis_ref_temps=lambda v: list(v)[:1], kvis_weathering=lambda v: list(v)[:1])
            for k in names:
                setattr(g, k, alter[k](want[k]) if len(names) == 1 or k != "kvis" else [x * 2 for x in want[k]][:1])
            t0 = temps[0] / 100
            g.density_at_temp(t0), g.kvis_at_temp(t0), g.standard_density, g.vapor_pressure(t0), g.vapor_pressure(350.0)
            if self.rng.random() < 0.5:
                g.update_from_dict({k: (np.asarray(v).tolist() if np.ndim(v) else v) for k, v in want.items()})
            else:
                for k, v in want.items():
                    setattr(g, k, v)
        k = [x / 100 for x in temps] + [x[0] / 100 for x in o["dens"]]
        dens, visc = [g.density_at_temp(t) for t in k], [g.kvis_at_temp(t) for t in k]
        all_d = np.atleast_1d(g.density_at_temp(np.array(k)))
        all_v = np.atleast_1d(g.kvis_at_temp(np.array(k)))
        each = all_d.shape == (len(k),) == all_v.shape and np.allclose(all_d, dens, rtol=1e-9) and np.allclose(all_v, visc, rtol=1e-9)
        if len(k) % 2 == 0:
            two = np.asarray(g.density_at_temp(np.array(k).reshape(2, -1)))
            each = each and two.shape == (2, len(k) // 2) and np.allclose(two.ravel(), dens, rtol=1e-9)
        t = min(temps[0] / 100, 345.0)
        bp = np.asarray(g.boiling_point)
        n = len(bp)
        boil = all(abs(float(np.asarray(g.vapor_pressure(b))[i]) - 101325.0) < 1 for i, b in enumerate(bp)) and abs(float(np.asarray(g.vapor_pressure(bp[0], 90000.0))[0]) - 90000.0) < 1
        self.rec.emit("oil", o=o, lnv=logs(o), fit=[ln(g.kvis_at_temp(x[0] / 100)) for x in o["visc"]], at=[[fx(t_, 100), fx(d, 1000), ln(v)] for t_, d, v in zip(k, dens, visc)],
                      std=fx(g.standard_density, 1000), each=bool(each), boil=bool(boil), vp=[ln(x, 1e-3) for x in np.asarray(g.vapor_pressure(t))], vp2=[ln(x, 1e-3) for x in np.asarray(g.vapor_pressure(t + 5))])

    def rayleigh(self, speed, f):
        R = D.RayleighDistribution
        s = R.sigma_from_wind(speed)
        x = np.linspace(0, 8 * s, 4001)
        area = float(np.sum(R.pdf(x, s)) * (x[1] - x[0]))
        self.rec.emit("rayleigh", speed=speed, f=f, cdf=fx(R.cdf(R.quantile(f / 1000, s), s), 1e6), med=fx(R.quantile(0.5, s), 1000), area=fx(area, 1e6))

    def fraction(self, alpha, lam, d):
        a, l = alpha / 100, lam * 1e-6
        d = min(d, lam) * 1e-6
        F = lambda x, k=a: fraction_below_d(x, k, l)
        s1, s2 = -math.log(1 - F(d)), -math.log(1 - F(d, 2 * a))
        xs = [F(l * i / 7) for i in range(12)]
        self.rec.emit("fraction", lo=fx(F(0.0), 1e6), at=fx(F(l), 1e6), surv=fx(s1 * s1, 1e5), surv2=fx(s2, 1e5), mono=all(p < q for p, q in zip(xs, xs[1:])))

    def look(self):
        w = self.water
        attrs = list(UNITS)
        pts = np.zeros((3, 3))
        rng = self.rng
        per = dict(temperature=w.Temperature, wave_height=w.WaveHeight, sediment=w.Sediment)
        every = True
        for k, o in per.items():
            u = rng.choice(UNITS[k])
            got = np.asarray(o.at(pts, self.base, units=u))
            every = every and got.shape == (3,) and np.allclose(got, w.get(k, u))
            got = np.asarray(o.at(pts, self.base))
            every = every and got.shape == (3,) and np.allclose(got, w.get(k))
        fresh = Water(temperature=w.get("temperature"), salinity=w.salinity)
        self.rec.emit("water", si={k: fx(w.get(k), STEP[k]) for k in attrs}, own={k: fx(getattr(w, k), reading(k, w.units[k])) for k in attrs}, unit={k: w.units[k] for k in attrs},
                      **{"as": {k: {u: fx(w.get(k, u), reading(k, u)) for u in UNITS[k]} for k in attrs}}, everywhere=bool(every), dens=fx(w.get("density"), 1000), dens2=fx(fresh.get("density"), 1000))

    def run(self, o):
        k, rec = o[0], self.rec
        if k == "sub":
            return self.sub(o[1])
        if k in ("range", "pers"):
            try:
                if k == "range":
                    self.s.windage_range = None if not o[1] else tuple(x / 1e6 for x in o[1])
                else:
                    self.s.windage_persist = {NONE: None, INFINITE: float("inf")}.get(o[1], o[1])
                e = ""
            except Exception as ex:
                e = excname(ex)
            return rec.emit(k, val=o[1], exc=e, **self.state())
        if k in ("wset", "wunit"):
            w = self.water
            try:
                if k == "wunit":
                    w.units = {o[1]: o[2]}
                elif o[4] == "set":
                    w.set(o[1], given(o[2], o[3]), o[3])
                elif o[4] == "attr":
                    w.units = {o[1]: o[3]}
                    setattr(w, o[1], given(o[2], o[3]))
                else:
                    kw = {n: getattr(w, n) for n in UNITS}
                    kw[o[1]] = given(o[2], o[3])
                    units = dict(w.units)
                    units[o[1]] = o[3]
                    self.water = Water(units=units, **kw)
                e = ""
            except Exception as ex:
                e = excname(ex)
            rec.emit(k, attr=o[1], val=o[2] if k == "wset" else 0, unit=o[3] if k == "wset" else o[2], exc=e)
            return self.look()
        return getattr(self, k)(*o[1:])


def main():
    a = args()
    for i, h in enumerate(behaviours(a)):
        a.rec.trace = i
        a.rec.emit("begin")
        w = World(a, h)
        n = a.rng.randrange(10000)
        grand.seed(n)
        np.random.seed(n)
        for o in h:
            try:
                if w.run(o):
                    break
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                a.rec.emit("failed", what=o[0], exc=excname(e) + ": " + str(e)[:200])
                break
    a.rec.close()


main()
