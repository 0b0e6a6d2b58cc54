"""replays generated histories of a slick: weather over it, weathering processes acting on it one by one; records the elements after each"""
from datetime import datetime, timedelta
from common import *
from gnome.spills.gnome_oil import GnomeOil
from gnome.spills.spill import point_line_spill
from gnome.spill_container import SpillContainer
from gnome.environment import Water, Waves, constant_wind
from gnome.weatherers import Evaporation, NaturalDispersion, Emulsification, FayGravityViscous, Langmuir, HalfLifeWeatherer
from gnome.ops import weathering_array_types
from gnome.ops.density import recalc_density
from gnome.ops.viscosity import recalc_viscosity
from gnome.array_types import gat

a = args()
T0 = datetime(2021, 6, 1, 3, 0, 0)
ZERO = -90000000


def ln(x):
    try:
        x = float(np.asarray(x).reshape(-1)[0])
        return ZERO if x == 0 else fx(math.log(x), 1e5)
    except Exception:
        return NAN


class Breeze:
    """a wind that blows harder to the east"""
    def __init__(self, speed, vary):
        self.speed, self.vary = speed, vary
        self.data_start = self.data_stop = T0

    def speeds(self, points):
        return self.speed * (1 + self.vary / 100 * np.asarray(points)[:, 0] * 1000)

    def at(self, points, time, coord_sys="r", **kw):
        return self.speeds(points).reshape(-1, 1)


class Slick:
    def __init__(self, o, sky, spills):
        n = len(o["frac"])
        self.o = o
        self.oil = GnomeOil(api=20, pour_point=230.0, solubility=0, bullwinkle_fraction=o["share"] / 1e6, bullwinkle_time=o["when"], emulsion_water_fraction_max=o["ymax"] / 1e6,
                            densities=[o["dens"] / 1000], density_ref_temps=[288.15], density_weathering=[0.0], kvis=[o["visc"] * 1e-9], kvis_ref_temps=[288.15], kvis_weathering=[0.0],
                            mass_fraction=[x / 1e6 for x in o["frac"]], boiling_point=[float(o["boil"] + o["gap"] * i) for i in range(n)],
                            molecular_weight=[float(o["mw"] + 40 * i) for i in range(n)], component_density=[600.0 + o["heavy"] / 3 + 70 * i for i in range(n)])
        self.when = o["when"]
        self.sky(sky)
        self.ws = dict(evap=Evaporation(self.water, self.wind), disp=NaturalDispersion(self.waves, self.water), emul=Emulsification(self.waves),
                       spread=FayGravityViscous(self.water), lang=Langmuir(self.water, self.wind), half=HalfLifeWeatherer())
        at = dict(weathering_array_types)
        for w in self.ws.values():
            at.update(w.array_types)
        at["interfacial_area"] = gat("interfacial_area")
        self.sc = sc = SpillContainer()
        for s in spills:
            sc.spills += point_line_spill(s["n"], (0, 0, s["z"]), T0, amount=s["kg"], units="kg", substance=self.oil,
                                          end_release_time=T0 + timedelta(seconds=s["dur"]) if s["dur"] else None)
        sc.prepare_for_model_run(at)
        for w in self.ws.values():
            w.prepare_for_model_run(sc)
        sc.release_elements(T0, T0 + timedelta(seconds=60), environment=dict(water=self.water))
        for w in self.ws.values():
            w.initialize_data(sc, len(sc))
        sc["positions"][:, 0] = np.arange(len(sc)) * 0.001
        self.t = T0

    def sky(self, s):
        self.s = s
        kw = {}
        if s["wave"] >= 0:
            kw["wave_height"] = s["wave"] / 100
        if s["fetch"] >= 0:
            kw["fetch"] = float(s["fetch"])
        self.water = Water(s["temp"] / 100, salinity=s["sal"], sediment=s["sed"] / 1000, **kw)
        if s["real"] and s["vary"] == 0:
            self.wind = constant_wind(s["wind"] / 100, 77, "m/s")
        else:
            self.wind = Breeze(s["wind"] / 100, s["vary"])
        self.waves = Waves(self.wind, self.water)
        if hasattr(self, "ws"):
            for w in self.ws.values():
                for k in ("wind", "water", "waves"):
                    if hasattr(w, k):
                        setattr(w, k, getattr(self, k))
            # the slick spreads as it began to: its limits belong to the run

    def speeds(self):
        return self.s["wind"] / 100 * (1 + self.s["vary"] / 100 * self.sc["positions"][:, 0] * 1000)

    def place(self):
        """what the laws need to know of oil and water"""
        o, w = self.oil, self.water
        t = self.s["temp"] / 100
        rhow = float(w.get("density"))
        sp = self.ws["spread"]
        y = self.o["ymax"] / 1e6
        n = len(self.o["frac"])
        return dict(t=ln(t), rhow=ln(rhow), sal=self.s["sal"] * 1000, on=self.s["wave"] >= 0, h=ln(self.s["wave"] / 100) if self.s["wave"] > 0 else ZERO,
                    fetch=ln(self.s["fetch"]) if self.s["fetch"] > 0 else ZERO, sed=ln(self.s["sed"] / 1000) if self.s["sed"] else ZERO, nu=ln(w.kinematic_viscosity),
                    vp=[ln(x) for x in o.vapor_pressure(t)], mw=[ln((self.o["mw"] + 40 * i) / 1000) for i in range(n)], ri=[ln(600.0 + self.o["heavy"] / 3 + 70 * i) for i in range(n)],
                    fi=[ln(x / 1e6) for x in self.o["frac"]], r0=ln(o.density_at_temp(t)), v0=ln(o.kvis_at_temp(t)), thin=ln(sp.thickness_limit), kv=fx(o.kvis_at_temp(t), 1e9),
                    buoy=self.buoy, share=self.o["share"], when=self.o["when"] * 3600 if self.o["when"] > 0 else self.o["when"], ymax=ln(y / (1 - y)))

    def begin(self):
        rhow = float(self.water.get("density"))
        self.buoy = ln((rhow - self.oil.standard_density) / rhow)
        self.vthin = fx(self.oil.kvis_at_temp(self.s["temp"] / 100), 1e9)

    def els(self):
        sc, res = self.sc, []
        rhow = float(self.water.get("density"))
        u = self.speeds()
        for i in range(len(sc)):
            g = lambda k: float(sc[k][i])
            b = 1 - g("density") / rhow
            res.append(dict(fate=ix(g("fate_status")), m=ln(g("mass")), c=[ln(x) for x in sc["mass_components"][i]], a=ln(g("area")), f=ln(g("fay_area")), vf=ln(g("vol_frac_le_st")),
                            vol=ln(g("bulk_init_volume")), d=ln(g("density")), b=ln(b) if b > 1e-9 else ZERO, v=ln(g("viscosity")), root=fx(math.sqrt(max(0, g("viscosity"))), 1e7),
                            fw=fx(g("frac_water"), 1e6), dry=ln(1 - g("frac_water")), wet=ln(g("frac_water")), fe=fx(g("frac_evap"), 1e6), fl=fx(g("frac_lost"), 1e5), age=ix(g("age")),
                            bull=fx(g("bulltime")), s=ln(g("interfacial_area")), dr=ln(g("droplet_avg_size")), cov=ln(g("frac_coverage")), od=ln(g("oil_density")), ov=ln(g("oil_viscosity")),
                            im=ln(g("init_mass")), sp=ix(g("spill_num")), u=ln(u[i])))
        return res

    def mb(self):
        return [float(self.sc.mass_balance.get(k, 0)) for k in ("evaporated", "natural_dispersion", "sedimentation")]


def diff(x, y):
    """ln(x - y)"""
    return ZERO if x == y else ln(x - y)


def run(h):
    a.rec.trace += 1
    o = h[0]
    try:
        s = Slick(o[1], o[2], o[3])
        s.begin()
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        a.rec.emit("nospill", exc=excname(e), msg=str(e)[:100], dens=o[1]["dens"])
        return
    a.rec.emit("begin", els=s.els(), p=s.place(), vthin=s.vthin)
    sc = s.sc
    for o in h[1:]:
        k = o[0]
        try:
            if k == "sky":
                s.sky(o[1])
                sc["density"][:] = np.minimum(sc["density"], float(s.water.get("density")))  # as every step of a run does
                a.rec.emit("pushed", els=s.els())
            elif k == "age":
                sc["age"][:] += o[1]
                a.rec.emit("pushed", els=s.els())
            elif k == "fate":
                sc["fate_status"][(o[1] - 1) % len(sc)] = o[2]
                a.rec.emit("pushed", els=s.els())
            elif k == "poke":
                i, x = (o[1] - 1) % len(sc), o[3] / 1000
                if o[2] == "area":
                    sc["fay_area"][i] = sc["area"][i] = sc["fay_area"][i] * (0.2 + 3 * x)
                elif o[2] == "fw":
                    sc["frac_water"][i] = 0.9 * x
                    sc["interfacial_area"][i] = 6 * 0.9 * x / (1 - 0.9 * x) / 1e-5
                elif o[2] == "fe":
                    sc["frac_evap"][i] = 0.5 * x
                elif o[2] == "visc":
                    sc["viscosity"][i] = 1e-6 * math.exp(9 * x)
                elif o[2] == "dens":
                    sc["density"][i] = min(780 + 260 * x, float(s.water.get("density")))
                elif o[2] == "mass":
                    sc["mass_components"][i] *= 0.05 + 0.9 * x
                    sc["mass"][i] = sc["mass_components"][i].sum()
                a.rec.emit("pushed", els=s.els())
            elif k == "thin":
                a.rec.emit("thin", v=o[1], lim=fx(FayGravityViscous.get_thickness_limit(o[1] * 1e-9), 1e9))
            elif k == "first":
                vol, nu, b, th = o[1] / 1000, o[2] * 1e-9, o[3] / 1e6, o[4] * 1e-9
                f = FayGravityViscous(s.water, thickness_limit=th)
                a.rec.emit("first", vol=ln(vol), nu=ln(nu), buoy=ln(b), thin=ln(th), area=ln(f.init_area(nu, b, vol)), t0=ln(f._gravity_spreading_t0(nu, b, vol, f.spreading_const)))
            elif k == "langbound":
                b, th = o[1] / 1e6, o[2] * 1e-9
                v0, v1 = s.ws["lang"]._wind_speed_bound(b, th)
                a.rec.emit("langbound", buoy=ln(b), thick=ln(th), lo=ln(v0), hi=ln(v1))
            elif k == "waves":
                pts = sc["positions"]
                got = s.waves.get_value(pts, s.t)
                ew = np.asarray(s.waves.get_emulsification_wind(pts, s.t)).reshape(-1)
                pk = np.asarray(s.waves.peak_wave_period(pts, s.t)).reshape(-1)
                H, Tm, Wf, De = [np.broadcast_to(np.asarray(x).reshape(-1), (len(sc),)) for x in got]
                a.rec.emit("waves", p=s.place(), u=[e["u"] for e in s.els()], h=[ln(x) for x in H], per=[ln(x) for x in Tm], wf=[ln(x) for x in Wf], de=[ln(x) for x in De],
                           ew=[ln(x) for x in ew], pk=[ln(x) for x in pk], els=s.els())
            elif k == "props":
                recalc_density(sc, s.water)
                recalc_viscosity(sc, s.water)
                tot = sc["mass"].sum()
                a.rec.emit("props", p=s.place(), els=s.els(), avd=ln(sc.mass_balance.get("avg_density", 0)), avv=ln(sc.mass_balance.get("avg_viscosity", 0)))
            else:
                w = s.ws[k]
                dt = o[1]
                w.on = o[2] != "off"
                w.active_range = (s.t + timedelta(days=1), s.t + timedelta(days=2)) if o[2] == "late" else (s.t - timedelta(days=1), s.t + timedelta(days=1))
                if k == "disp":
                    w.algorithm = o[3]
                if k == "half":
                    w.half_lives = [float(x) for x in o[3][:sc["mass_components"].shape[1]]]
                before = {n: sc[n].copy() for n in ("mass", "mass_components", "frac_evap")}
                mb0 = s.mb()
                sc.reset_fate_dataview()
                w.prepare_for_model_step(sc, dt, s.t)
                w.weather_elements(sc, dt, s.t)
                w.model_step_is_done(sc)
                els = s.els()
                with np.errstate(all="ignore"):
                    for i, e in enumerate(els):
                        e["lost"] = diff(before["mass"][i], sc["mass"][i])
                        e["gone"] = diff(sc["frac_evap"][i], before["frac_evap"][i])
                        e["dec"] = []
                        for x, y in zip(before["mass_components"][i], sc["mass_components"][i]):
                            e["dec"].append(ZERO if x == y else 900000 if x > 0 and (y == 0 or x / y > 1e200) else ln(math.log(x / y)) if x > 0 and y > 0 else NAN)
                mb1 = s.mb()
                a.rec.emit(k, on=o[2] == "on", dt=ln(dt), secs=dt, p=s.place(), els=els, mb=[diff(y, x) for x, y in zip(mb0, mb1)], wc=fx(sc.mass_balance.get("water_content", 0), 1e6),
                           alg=w.algorithm if k == "disp" else "", hl=[ln(x) for x in o[3][:sc["mass_components"].shape[1]]] if k == "half" else [])
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            a.rec.emit("failed", exc=excname(e), what=k, msg=str(e)[:200])
            break


for b in behaviours(a):
    run(b)
a.rec.close()
