"""saves, loads, serializes and updates real object graphs and records them before and after"""
import shutil, tempfile, zipfile
from common import *
from persist_kit import *
from gnome.gnomeobject import Refs

a = args()
rec = a.rec
DBG = os.environ.get("VERIF_DEBUG")


def note(e):
    if DBG and (DBG == "all" or DBG == type(e).__name__):
        traceback.print_exc()
    return type(e).__name__ + ": " + str(e)[:160]


def strip(h):
    return [{k: n[k] for k in ("k", "a", "r", "u")} for n in h]


# ------------------------------------------------------------------ archives
def read_archive(zf):
    out = []
    for nm in zf.namelist():
        if not nm.endswith(".json"):
            continue
        try:
            j = json.loads(zf.read(nm).decode("utf-8"))
        except Exception:
            continue
        if not isinstance(j, dict) or "obj_type" not in j:
            continue
        k = j["obj_type"].split(".")[-1]
        r = []
        for s in TABLE.get(k, ([], []))[1]:
            v = j.get(s)
            if v is None:
                v = []
            r.append([s, [str(x) for x in (v if isinstance(v, list) else [v])]])
        out.append({"f": nm, "k": k, "r": r, "n": "", "a": []})
    return out


def safe_names(zf):
    bad = [n for n in zf.namelist() if os.path.isabs(n) or ".." in n.split("/") or "/" in n or "\\" in n]
    return not bad


def save_and_load(o, how, d):
    """-> loaded object, archive entries, name of the root's file, whether names are plain file names"""
    cls = type(o)
    nm = "sv%d" % a.rng.randrange(10**9)
    if how == 0:
        j, z, refs = o.save(None)
        arc, ok = read_archive(z), safe_names(z)
        return cls.load(z), arc, refs[o.id], ok
    if how in (1, 2, 3):
        p = os.path.join(d, nm + ("", ".gnome", ".zip", ".d")[how])
        j, p2, refs = o.save(p)
    elif how == 4:
        p = os.path.join(d, nm)
        os.mkdir(p)
        j, p2, refs = o.save(p)
    elif how == 5:      # over an older archive with other objects of the same names
        p = os.path.join(d, nm + ".gnome")
        bb = Build(a.rng, d)
        try:
            bb.RandomMover().save(p)
        except Exception:
            pass
        j, p2, refs = o.save(p, overwrite=True)
    elif how == 11:     # into an archive that is already open and holds something else
        p2 = os.path.join(d, nm + ".zip")
        with zipfile.ZipFile(p2, "a") as z:
            z.writestr("README.txt", "about")
            j, z2, refs = o.save(z)
            z.writestr("MORE.txt", "more")
    elif how == 12:     # nothing there to overwrite
        j, p2, refs = o.save(os.path.join(d, nm + ".gnome"), overwrite=False)
    elif how == 13:
        import pathlib
        j, p2, refs = o.save(pathlib.Path(d) / (nm + ".gnome"))
    else:
        p = os.path.join(d, nm + ".gnome")
        j, p2, refs = o.save(p)
    with zipfile.ZipFile(p2) as z:
        arc, ok = read_archive(z), safe_names(z)
        root = refs[o.id]
        if how == 6:      # unpacked folder
            f = os.path.join(d, nm + " [x]")
            os.mkdir(f)
            z.extractall(f)
            return cls.load(f), arc, root, ok
        if how == 7:      # unpacked folder, named file
            f = os.path.join(d, nm)
            os.mkdir(f)
            z.extractall(f)
            return cls.load(f, root), arc, root, ok
        if how == 8:      # zipped again inside one folder
            f = os.path.join(d, nm + "w.zip")
            with zipfile.ZipFile(f, "w") as w:
                w.writestr("folder/", "")
                for n in z.namelist():
                    w.writestr("folder/" + n, z.read(n))
            return cls.load(f), arc, root, ok
        if how == 9:      # the root's json file
            f = os.path.join(d, nm)
            os.mkdir(f)
            z.extractall(f)
            return cls.load(os.path.join(f, root)), arc, root, ok
    if how == 10:
        with zipfile.ZipFile(p2) as z:
            return cls.load(z), arc, root, ok
    return cls.load(p2), arc, root, ok


# ------------------------------------------------------------------ results of running a model
def results(m, n=3):
    out = []
    try:
        m.rewind()
        for _ in range(n):
            try:
                m.step()
            except StopIteration:
                break
            for sc in m.spills.items():
                out.append(ix(len(sc["positions"])))
                for x in np.asarray(sc["positions"]).reshape(-1)[:24]:
                    out.append(fx(x, 1e6))
                for x in np.asarray(sc["mass"])[:6]:
                    out.append(fx(x, 100) if abs(x) < 2e7 else fx(x / 1e5))
                for x in np.asarray(sc["status_codes"])[:12]:
                    out.append(ix(x))
    except Exception as e:
        if DBG == "results":
            traceback.print_exc()
        out.append(-1)
    try:
        m.rewind()
    except Exception as e:
        out.append(-7777)
    return out


def round_trip(o, how, d, run):
    ev = dict(mode="save" if how >= 0 else "ser", kind=type(o).__name__, how=how, arc=[], root="", plain=True, h1=[], res0=[], res1=[])
    h0 = heap(o)
    ev["h0"] = h0
    new, exc = None, ""
    try:
        if how >= 0:
            new, ev["arc"], ev["root"], ev["plain"] = save_and_load(o, how, d)
        else:
            new = type(o).deserialize(json.loads(json.dumps(o.serialize())))
        ev["h1"] = heap(new)
    except Exception as e:
        exc = note(e)
    ev["h0b"] = heap(o)
    if new is not None and run and isinstance(o, Model):
        ev["res0"] = results(o)
        ev["res1"] = results(new)
    rec.emit("rt", exc=exc, **ev)
    return new


# ------------------------------------------------------------------ partial updates
# settings that can be changed one by one, alone or together with others, and settings that follow them
GROUPS = {
    "Wind": [["units", "timeseries"], ["description"], ["latitude"], ["speed_uncertainty_scale"], ["source_id"], ["name"]],
    "Water": [["units", "temperature"], ["salinity"], ["sediment"], ["name"]],
    "SimpleMover": [["on"], ["active_range"], ["velocity"], ["uncertainty_scale"], ["name"]],
    "RandomMover": [["on"], ["active_range"], ["diffusion_coef"], ["uncertain_factor"], ["name"]],
    "RandomMover3D": [["on"], ["active_range"], ["vertical_diffusion_coef_above_ml"], ["mixed_layer_depth"], ["surface_is_allowed"],
                      ["horizontal_diffusion_coef_below_ml"], ["vertical_diffusion_coef_below_ml"], ["horizontal_diffusion_coef_above_ml"]],
    "PointWindMover": [["on"], ["active_range"], ["uncertain_duration"], ["uncertain_time_delay"], ["uncertain_speed_scale"], ["uncertain_angle_scale"]],
    "WindMover": [["on"], ["active_range"], ["uncertain_duration"], ["uncertain_time_delay"], ["uncertain_speed_scale"], ["uncertain_angle_scale"],
                  ["scale_value"], ["default_num_method"]],
    "CurrentMover": [["on"], ["active_range"], ["scale_value"], ["uncertain_along"], ["uncertain_cross"], ["uncertain_duration"]],
    "GnomeMap": [["name"]],
    "MapFromBNA": [["name"], ["refloat_halflife"]],
    "Spill": [["on"], ["amount", "units"], ["amount_uncertainty_scale"], ["name"]],
    "PointLineRelease": [["start_position", "end_position"], ["name"], ["release_time", "end_release_time"]],
    "NonWeatheringSubstance": [["windage_range"], ["windage_persist"], ["name"]],
    "GnomeOil": [["windage_range"], ["windage_persist"]],
    "Evaporation": [["on"], ["active_range"], ["name"]],
    "NaturalDispersion": [["on"], ["active_range"], ["algorithm"]],
    "Emulsification": [["on"], ["active_range"]],
    "Langmuir": [["on"], ["active_range"]],
    "Skimmer": [["amount", "units"], ["efficiency"], ["active_range"]],
    "Burn": [["area"], ["thickness"]],
    "ChemicalDispersion": [["fraction_sprayed"], ["active_range"]],
    "HalfLifeWeatherer": [["half_lives"], ["on"]],
    "NetCDFOutput": [["on"], ["output_zero_step"], ["output_last_step"], ["output_single_step"], ["compress"], ["name"], ["which_data"], ["output_timestep"]],
    "ShapeOutput": [["on"], ["output_zero_step"], ["include_certain_boundary"], ["output_start_time"]],
    "KMZOutput": [["on"], ["output_last_step"], ["output_timestep"]],
    "TrajectoryGeoJsonOutput": [["on"], ["round_data"], ["round_to"]],
    "WeatheringOutput": [["on"], ["output_zero_step"]],
    "SpillJsonOutput": [["on"], ["output_last_step"]],
    "Model": [["name"], ["time_step"], ["duration"], ["uncertain"], ["cache_enabled"], ["weathering_substeps"]],
}
FOLLOW = {"Spill": ["release_mass"], "Model": ["num_time_steps"], "Burn": ["active_range"]}


def full_refs(m):
    r = Refs()
    m._schema.register_refs(m._schema(), m, r)
    return r


def emit_upd(m, req_on, request, H0, before, sets, refsets, new, free, refs=None, via=""):
    exc = ""
    try:
        if refs is None:
            req_on.update_from_dict(request)
        else:
            req_on.update_from_dict(request, refs=refs)
    except Exception as e:
        exc = note(e)
    ids = {n["u"] for n in before}
    after = heap(m)
    for n in after:
        if n["u"] not in ids:
            n["u"] = "new"
    rec.emit("upd", exc=exc, h0=before, h1=after, sets=sets, refsets=refsets, new=new, free=free, via=via,
             keys=sorted(request), kind=type(req_on).__name__)
    return exc == ""


def other_like(o, b):
    k = type(o).__name__
    if k == "Model":
        return build_model(b, b.rng, weathering=any(getattr(s.substance, "is_weatherable", False) for s in o.spills))
    if k == "Spill":
        return b.Spill()
    return getattr(b, k)()


def do_update(m, b, x, rng):
    if isinstance(m, Model):
        m.rewind()
    H0 = Heap(m)
    cands = [i for i, o in enumerate(H0.objs) if type(o).__name__ in GROUPS]
    i = cands[(x * 7 + rng.randrange(50)) % len(cands)]
    o = H0.objs[i]
    k = type(o).__name__
    o2 = other_like(o, Build(rng, b.dir + "/u%d" % rng.randrange(10**9)))
    js = json.loads(json.dumps(o2.serialize()))
    h2 = heap(o2)
    groups = rng.sample(GROUPS[k], rng.randint(1, min(3, len(GROUPS[k]))))
    if k == "Model":
        groups = [g for g in groups if not (g[0] in ("duration", "time_step") and o.run_backwards)]    # their sign is the direction
    request, sets = {}, []
    vals = dict((p[0], p[1]) for p in h2[0]["a"])
    for g in groups:
        for at in g:
            if at not in js:
                return
            request[at] = js[at]
            sets.append([i + 1, "series" if at == "timeseries" else at, vals["series" if at == "timeseries" else at]])
    if k != "Model" and rng.random() < 0.25:                 # a very small change of what it is
        own = json.loads(json.dumps(o.serialize()))
        mine_ = dict((p[0], p[1]) for p in H0.nodes[i]["a"])
        FIGURES[0] = 9
        near = [at for g in groups if len(g) == 1 for at in g if isinstance(own.get(at), float) and cv(own[at]) == mine_.get(at) and own[at]]
        if near:
            request, sets = {}, []
            for at in near:
                request[at] = own[at] * (1 + rng.choice([3e-6, -3e-6, 2e-8]))
                FIGURES[0] = 9
                sets.append([i + 1, at, cv(request[at])])
    if rng.random() < 0.3:
        request["no_such_setting"] = 17
    if rng.random() < 0.3:
        request["id"] = str(o.id)
        request["obj_type"] = js["obj_type"]
    items = list(request.items())
    rng.shuffle(items)
    request = dict(items)
    free = FOLLOW.get(k, [])
    # directly, or nested in a request to an object that refers to it
    parents = [(j, s) for j, p in enumerate(H0.objs) for s, ts in H0.nodes[j]["r"] if ts == [i + 1] and s not in COLL]
    if parents and rng.random() < 0.4 and k != "GnomeOil":
        j, s = rng.choice(parents)
        request["id"] = str(o.id)
        request["obj_type"] = js["obj_type"]
        free = sorted(set(free + FOLLOW.get(H0.nodes[j]["k"], [])))
        return emit_upd(m, H0.objs[j], {s: request}, H0, H0.nodes, sets, [], [], free, via="nested")
    return emit_upd(m, o, request, H0, H0.nodes, sets, [], [], free, via="direct")


SLOTS = {"PointWindMover": {"wind": "Wind"}, "WindMover": {"wind": "Wind"}, "Evaporation": {"wind": "Wind", "water": "Water"},
         "Emulsification": {"waves": "Waves"}, "NaturalDispersion": {"waves": "Waves", "water": "Water"},
         "Langmuir": {"wind": "Wind", "water": "Water"}, "Waves": {"wind": "Wind", "water": "Water"}, "FayGravityViscous": {"water": "Water"},
         "Skimmer": {"water": "Water"}}


def slot_of(m, x, rng):
    H0 = Heap(m)
    c = [(i, s, k) for i, o in enumerate(H0.objs) for s, k in SLOTS.get(type(o).__name__, {}).items()]
    return (H0, None) if not c else (H0, c[(x * 5 + rng.randrange(40)) % len(c)])


def adopt(m):
    """the model collects environment objects when their users are added; keep it so after changing references"""
    for _ in range(2):
        H0 = Heap(m)
        for i, o in enumerate(H0.objs):
            for s, ts in H0.nodes[i]["r"]:
                if s in ("wind", "water", "waves", "current") and type(o).__name__ not in ("Spill", "GnomeOil"):
                    for t in ts:
                        if H0.objs[t - 1] not in m.environment:
                            m.environment += H0.objs[t - 1]


def do_updref(m, b, x, rng):
    H0, c = slot_of(m, x, rng)
    if c is None:
        return
    i, s, kind = c
    o = H0.objs[i]
    have = [j for j, p in enumerate(H0.objs) if type(p).__name__ == kind]
    mode = rng.choice(["existing", "existing", "new", "clear"])
    if mode == "clear" and (type(o).__name__ in ("PointWindMover", "WindMover")):
        mode = "existing"
    if mode == "existing" and not have:
        mode = "new"
    if mode == "existing":
        j = rng.choice(have)
        t = H0.objs[j]
        request = {s: {"id": str(t.id), "obj_type": t.obj_type}}
        ok = emit_upd(m, o, request, H0, H0.nodes, [], [[i + 1, s, [j + 1]]], [], [], refs=full_refs(m), via="existing")
        adopt(m)
        return ok
    if mode == "new":
        bb = Build(rng, b.dir + "/n%d" % rng.randrange(10**9))
        t = getattr(bb, kind)()
        nn = heap(t)
        base = len(H0.nodes)
        for n in nn:
            n["u"] = "new"
            n["r"] = [[q, [y + base for y in ts]] for q, ts in n["r"]]
        request = {s: json.loads(json.dumps(t.serialize()))}
        ok = emit_upd(m, o, request, H0, H0.nodes, [], [[i + 1, s, [base + 1]]], nn, [], refs=full_refs(m), via="new")
    else:
        ok = emit_upd(m, o, {s: None}, H0, H0.nodes, [], [[i + 1, s, []]], [], [], refs=full_refs(m), via="clear")
        if type(o).__name__ != "Waves":
            o.make_default_refs = True
    adopt(m)
    return ok


def users_last(m, env):
    """the order in which adding them one by one pulls in nothing early: what an object uses comes before it"""
    out = []

    def put(o):
        for s in ("wind", "water"):
            x = getattr(o, s, None)
            if x is not None and x is not o and any(x is e for e in env):
                put(x)
        if not any(o is e for e in out):
            out.append(o)
    for o in env:
        put(o)
    return out


def do_updcoll(m, b, x, rng):
    H0 = Heap(m)
    slot = ["movers", "spills", "weatherers", "outputters", "movers", "environment"][x % 6]
    cur = dict((s, ts) for s, ts in H0.nodes[0]["r"])[slot]
    if not cur:
        return
    tgt = cur[:]
    rng.shuffle(tgt)
    if rng.random() < 0.4 and slot != "environment":
        tgt = tgt[:rng.randint(0, len(tgt))]
    if slot == "environment":
        order = users_last(m, [H0.objs[t - 1] for t in tgt])
        tgt = sorted(tgt, key=lambda t: [i for i, o in enumerate(order) if o is H0.objs[t - 1]][0])
    request = {slot: [{"id": str(H0.objs[t - 1].id), "obj_type": H0.objs[t - 1].obj_type} for t in tgt]}
    ok = emit_upd(m, m, request, H0, H0.nodes, [], [[1, slot, tgt]], [], [], via="coll")
    return ok


def do_selfupd(m):
    m.rewind()          # files of outputters cannot be changed in the middle of a run
    order = users_last(m, list(m.environment))
    m.environment.clear()
    for o in order:
        m.environment.add(o)
    H0 = Heap(m)
    js = json.loads(json.dumps(m.serialize()))
    return emit_upd(m, m, js, H0, H0.nodes, [], [], [], [], via="self")


# ------------------------------------------------------------------ histories
def history(hist, rng, d):
    rec.trace += 1
    b = Build(rng, d)
    weathering = rng.random() < 0.5
    m = build_model(b, rng, weathering)
    adopt(m)
    rec.emit("start", exc="")
    budget = 3
    for op, x in hist:
        try:
            if op == "edit":
                H0 = Heap(m)
                o = H0.objs[(x * 3 + 1) % len(H0.objs)]
                k = type(o).__name__
                if k in GROUPS and k not in ("Model", "Spill", "Wind", "Water", "Skimmer"):
                    o2 = other_like(o, Build(rng, d + "/e%d" % rng.randrange(10**9)))
                    at = rng.choice([g[0] for g in GROUPS[k] if len(g) == 1])
                    setattr(o, at, getattr(o2, at))
            elif op == "rename":
                H0 = Heap(m)
                nm = rng.choice(["same", "same", "a/b", "x.json", "Same", "same (0)", "sa{m}e"])
                for o in rng.sample(H0.objs, min(3, len(H0.objs))):
                    if type(o).__name__ not in ("GnomeOil", "BinaryOutput"):      # their names mean something
                        o.name = nm
            elif op in ("share", "fresh", "clear"):
                H0, c = slot_of(m, x, rng)
                if c is not None:
                    i, s, kind = c
                    o = H0.objs[i]
                    have = [p for p in H0.objs if type(p).__name__ == kind]
                    if op == "share" and have:
                        setattr(o, s, rng.choice(have))
                    elif op == "fresh":
                        setattr(o, s, getattr(Build(rng, d), kind)())
                    elif op == "clear" and type(o).__name__ not in ("PointWindMover", "WindMover"):
                        setattr(o, s, None)
                        o.make_default_refs = True      # let the model choose one
                    adopt(m)
            elif op == "add":
                kind = MOVERS[x % len(MOVERS)] if x % 3 else OUTPUTTERS[x % len(OUTPUTTERS)]
                (m.outputters if kind in OUTPUTTERS else m.movers).add(getattr(b, kind)())
                adopt(m)
            elif op == "drop":
                for c in (m.movers, m.outputters, m.weatherers):
                    if len(c) > x % 3:
                        c.remove(c[x % len(c)].id)
                        break
            elif op == "run":
                try:
                    for _ in range(1 + x % 3):
                        m.step()
                except (StopIteration, Exception):
                    pass
            elif op in ("save", "ser"):
                new = round_trip(m, rng.randrange(14) if op == "save" else -1, d, run=budget > 0)
                budget -= 1
                if new is not None and x % 2:
                    m = new
            elif op == "update":
                do_update(m, b, x, rng)
            elif op == "updref":
                do_updref(m, b, x, rng)
            elif op == "updcoll":
                do_updcoll(m, b, x, rng)
            elif op == "selfupd":
                do_selfupd(m)
            elif op == "newobj":
                k = rng.choice(SINGLE)
                o = getattr(Build(rng, d), k)()
                new = round_trip(o, rng.randrange(14) if x < 8 else -1, d, run=False)
                if new is not None and k in GROUPS:
                    do_update(new, b, x, rng)
        except Exception as e:
            if DBG:
                traceback.print_exc()
            rec.emit("fail", exc=note(e), call=op)
            return


def main():
    for n, hist in enumerate(behaviours(a)):
        d = tempfile.mkdtemp(dir=a.scratch)
        tempfile.tempdir = d
        os.chdir(d)
        history(hist, random.Random("%d/%d/%d" % (a.seed, a.shard, n)), d)
        os.chdir(a.scratch)
        shutil.rmtree(d, ignore_errors=True)
    # every kind on its own
    for n, (k, s) in enumerate(mine(a, [(k, s) for k in SINGLE for s in range(6 if not a.thorough else 15)])):
        d = tempfile.mkdtemp(dir=a.scratch)
        tempfile.tempdir = d
        os.chdir(d)
        rng = random.Random("%d/%s/%d" % (a.seed, k, s))
        rec.trace += 1
        o = getattr(Build(rng, d), k)()
        round_trip(o, rng.randrange(14) if s % 3 else -1, d, run=False)
        os.chdir(a.scratch)
        shutil.rmtree(d, ignore_errors=True)
    rec.close()


main()
