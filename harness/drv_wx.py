"""drives whole models with weathering and cleanup: every step's elements and mass balance are recorded.
Masses are recorded in milligrams (the scenarios spill at most a tonne), times in seconds from the start."""
from common import *
from datetime import datetime, timedelta
import gnome
from gnome.model import Model
from gnome.maps import RasterMap
from gnome.movers.movers import Mover
from gnome.spills.spill import Spill
from gnome.spills.release import PointLineRelease
from gnome.spills.gnome_oil import GnomeOil
from gnome.spills.substance import NonWeatheringSubstance
from gnome.environment import Water, Wind, Waves, constant_wind
from gnome.weatherers import (Evaporation, NaturalDispersion, Emulsification, FayGravityViscous, Langmuir, ConstantArea,
                              Skimmer, Burn, ChemicalDispersion, Beaching)
from gnome.basic_types import oil_status, fate
from gnome.utilities.projections import GeoProjection
from gnome.utilities.inf_datetime import InfDateTime

a = args()
rng = a.rng
MG = 1000000
T0 = datetime(2021, 6, 1, 3, 0, 0)
OILS = ["oil_ans_mp", "oil_gas", "oil_benzene", "oil_bahia", "oil_crude", "oil_diesel", "oil_4", "oil_jetfuels"]
KEYS = ["amount_released", "evaporated", "natural_dispersion", "sedimentation", "skimmed", "burned", "chem_dispersed",
        "observed_beached", "off_maps", "floating", "non_weathering", "beached"]
_oil = {}


def oil(name):
    if name not in _oil:
        _oil[name] = GnomeOil(name)
    return _oil[name]


def T(s):
    return T0 + timedelta(seconds=s)


def st(v):
    return {int(oil_status.in_water): 2, int(oil_status.on_land): 3}.get(int(v), ix(v))


class PushMover(Mover):
    """pushes elements that were released before this step: table[id] lists (dx cells, dz)"""
    def __init__(self, table, cell, **kw):
        super().__init__(**kw)
        self.table, self.cell, self.k = table, cell, 0

    def get_move(self, sc, time_step, model_time):
        d = np.zeros_like(sc["positions"])
        for i in range(len(d)):
            if sc["age"][i] > 0 and st(sc["status_codes"][i]) == 2:
                j = int(sc["id"][i])
                row = self.table[(j + self.k) % len(self.table)]
                mv = row
                d[i] = (mv[0] * self.cell, 0, mv[1])
        if not sc.uncertain:
            self.k += 1
        return d

    def prepare_for_model_run(self):
        self.k = 0


def make(beh, rng):
    c = {}
    c["weatherable"] = rng.random() < 0.93
    c["oil"] = rng.choice(OILS) if c["weatherable"] else "none"
    c["ts"] = rng.choice([600, 900, 900, 1800, 1000, 5400])
    c["nsub"] = rng.choice([1, 1, 1, 2, 3, 7])
    c["back"] = rng.random() < 0.06
    c["unc"] = rng.random() < 0.25
    sgn = -1 if c["back"] else 1
    water = Water(rng.choice([275.0, 288.0, 303.0]), sediment=rng.choice([5, 50, 0]) or 1)
    wind = constant_wind(rng.choice([0.5, 3, 8, 15, 22, 35]), 45, "m/s")
    waves = Waves(wind, water)
    m = Model(time_step=c["ts"] * sgn, start_time=T0, duration=timedelta(seconds=sgn * c["ts"] * 40),
              weathering_substeps=c["nsub"], uncertain=c["unc"])
    m.environment += [water, wind, waves]
    sub = oil(c["oil"]) if c["weatherable"] else NonWeatheringSubstance()
    n = 24
    raster = np.zeros((n, 8), dtype=np.uint8)
    raster[18:, :] = 1
    cell = 0.001
    bb = ((0.0, 0.0), (n * cell, 8 * cell))
    bounds = [(-3.3 * cell, -1), (1, -1), (1, 1), (-3.3 * cell, 1)]
    c["hl"] = rng.choice([-1, 0.2, 1])
    m.map = RasterMap(raster=raster, projection=GeoProjection(bb, (n, 8)), refloat_halflife=c["hl"], map_bounds=bounds)
    tot = 0.0
    for k in range(rng.choice([1, 1, 2])):
        amt = rng.choice([100, 250.5, 400, 33.3])
        off = rng.choice([0, 0, c["ts"], 700])
        dur = rng.choice([0, 0, 2 * c["ts"], 3333])
        if c["back"]:
            off, dur = -off, 0   # backward runs refuse continuous releases
        z = rng.choice([0, 0, 0, 0, 4.0])
        land = rng.random() < 0.08
        rel = PointLineRelease(release_time=T(off), end_release_time=T(off + dur) if dur else None,
                               num_elements=rng.choice([7, 12] if dur else [1, 3, 7, 12]),
                               start_position=((19.5 if land else rng.uniform(4, 8)) * cell, 3.5 * cell, z))
        on = rng.random() < 0.93 or k == 0
        m.spills += Spill(release=rel, substance=sub, amount=amt, units="kg", on=on)
        tot += amt if on else 0
    c["spilled"] = fx(tot, MG)
    deep = rng.choice([1, 1, 0.02])
    m.movers += PushMover([(x, z * deep) for x, z in beh["moves"]], cell)
    if rng.random() < 0.5:
        m.weatherers += FayGravityViscous(water)
        if rng.random() < 0.6:
            m.weatherers += Langmuir(water, wind)
    else:
        m.weatherers += ConstantArea(rng.choice([0.5, 20.0, 500.0, 9000.0]))
    ws = []

    def add(kind, w, a0, a1, total, rate=0):
        w.on = rng.random() < 0.9
        m.weatherers += w
        ws.append(dict(k=kind, on=bool(w.on), a0=a0, a1=a1, total=fx(total, MG), eff=1000, obj=w, ser=[]))
        return ws[-1]

    def window():
        ts = c["ts"]
        a0 = rng.choice([0, ts, ts // 3, 2 * ts + 17, -ts // 2])
        a1 = a0 + rng.choice([ts // 4, ts, 2 * ts, 3 * ts + 100, ts // 2 + 7])
        return a0, a1
    dens = sub.standard_density
    picks = set(rng.sample(["evap", "disp", "emul", "skim", "burn", "chem", "beach"], rng.choice([1, 2, 3, 4])))
    c["emul"] = False
    INF = (InfDateTime("-inf"), InfDateTime("inf"))
    for kind in sorted(picks):
        if kind in ("evap", "disp", "emul"):
            a0, a1 = (-BIG, BIG) if rng.random() < 0.6 else window()
            rg = INF if a0 == -BIG else (T(a0), T(a1))
            if kind == "evap":
                add("evap", Evaporation(water, wind, active_range=rg), a0, a1, 0)
            elif kind == "disp":
                add("disp", NaturalDispersion(waves, water, algorithm=rng.choice(["D&S1988", "D&S1988", "Li2017"]), active_range=rg), a0, a1, 0)
            else:
                x = add("emul", Emulsification(waves, active_range=rg), a0, a1, 0)
                c["emul"] = bool(x["on"])
        else:
            a0, a1 = window()
            eff = rng.choice([1.0, 0.5, 0.3, 0.0])
            small = rng.random() < 0.6
            if kind == "skim":
                kg = rng.choice([5, 12, 30]) if small else rng.choice([300, 1000])
                if rng.random() < 0.5:
                    w = Skimmer(kg, "kg", efficiency=eff, active_range=(T(a0), T(a1)), water=water)
                else:
                    w = Skimmer(kg / dens * 1000, "l", efficiency=eff, active_range=(T(a0), T(a1)), water=water)
                add("skim", w, a0, a1, kg * eff)
            elif kind == "burn":
                area, thick = (rng.choice([0.5, 1.0]), rng.choice([0.01, 0.03, 0.06])) if small else (50.0, 0.1)
                w = Burn(area, thick, (T(a0), T(a0 + 1)), efficiency=eff, water=water)
                dur = (thick - 0.002) / 0.000058
                # recorded: the mass burnt per million seconds would overflow; the whole burn's mass and its end
                add("burn", w, a0, a0 + int(round(dur)), area * (thick - 0.002) * dens * eff)
            elif kind == "chem":
                f = rng.choice([0.05, 0.1]) if small else rng.choice([0.5, 1.0])
                w = ChemicalDispersion(f, (T(a0), T(a1)), waves=waves, efficiency=eff)
                add("chem", w, a0, a1, tot * f * eff)
            else:
                ser, t = [], a0
                for _ in range(rng.choice([1, 2, 3])):
                    t += rng.choice([c["ts"] // 3, c["ts"], 2 * c["ts"] + 50])
                    ser.append((t, rng.choice([0, 2, 9.5]) if small else rng.choice([100, 400])))
                w = Beaching((T(a0), T(a0 + 1)), "kg", [(T(x), v) for x, v in ser], water)
                e = add("beach", w, a0, t, sum(v for _, v in ser))
                e["ser"] = [[x, fx(v, MG)] for x, v in ser]
    c["ws"] = ws
    try:
        c["ymax"] = fx(sub.emulsion_water_fraction_max, 1000000) if c["weatherable"] else 0
    except Exception:
        c["ymax"] = 1000000
    return m, c


def els(sc, weatherable):
    if "positions" not in sc.data_arrays or len(sc) == 0:
        return []
    out = []
    d = sc.data_arrays
    for i in range(len(sc)):
        comps = [fx(v, MG) for v in np.atleast_1d(d["mass_components"][i])] if "mass_components" in d and not sc.uncertain else []
        out.append(dict(id=ix(d["id"][i]), st=st(d["status_codes"][i]), z=fx(d["positions"][i, 2], 1000),
                        f=ix(d["fate_status"][i]) if "fate_status" in d else 0, m=fx(d["mass"][i], MG), c=comps,
                        fw=fx(d["frac_water"][i], 1000000) if "frac_water" in d else 0,
                        im=fx(d["init_mass"][i], MG) if "init_mass" in d else 0, new=int(d["age"][i] == 0)))
    return out


def bal(sc):
    return [fx(sc.mass_balance.get(k, 0), MG) for k in KEYS]


def snap(m, c):
    scs = list(m.spills.items())
    return dict(conts=[els(s, c["weatherable"]) for s in scs], mb=bal(scs[0]))


def wsd(c):
    return [{k: v for k, v in w.items() if k != "obj"} for w in c["ws"]]


def run(beh):
    r = random.Random("%d/%s" % (a.seed, json.dumps(beh, sort_keys=True)))
    m, c = make(beh, r)
    a.rec.trace += 1
    a.rec.emit("wcfg", ts=c["ts"], nsub=c["nsub"], back=c["back"], weatherable=c["weatherable"], emul=c["emul"],
               ymax=c["ymax"], ws=wsd(c), spilled=c["spilled"], oil=c["oil"])
    for op in beh["ops"]:
        exc = ""
        try:
            if op[0] == "step":
                try:
                    m.step()
                except StopIteration:
                    pass
                k = m.current_time_step
                a.rec.emit("wstep", k=k, t=(k - 1) * c["ts"], **snap(m, c))
            elif op[0] == "rewind":
                m.rewind()
                a.rec.emit("wrewind", ws=wsd(c))
            elif op[0] == "toggle":
                i = op[1] % len(c["ws"])
                w = c["ws"][i]
                m.rewind()
                w["obj"].on = not w["obj"].on
                w["on"] = bool(w["obj"].on)
                c["emul"] = any(x["k"] == "emul" and x["on"] for x in c["ws"])
                a.rec.emit("wrewind", ws=wsd(c))
        except Exception as e:
            if os.environ.get("VERIF_DEBUG") in (excname(e), "1"):
                traceback.print_exc()
            a.rec.emit("wfail", exc=excname(e), what=op[0], msg=str(e)[:200])
            break


for b in behaviours(a):
    run(b)
a.rec.close()
