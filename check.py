#!/usr/bin/env python3
"""check.py <PROPERTY> : decides one property of /repo against the TLA+ specification.

 1. builds the extensions from /repo's working tree,
 2. model-checks the property's specification modules exhaustively (TLC),
 3. lets TLC generate behaviours of the specification,
 4. replays them (and seeded scenarios) in the real code, recording one event per public call,
 5. lets TLC validate every recorded event against the specification's transition function
    and clauses; a rejected clause of this property is a violation.
exit 0 held, 1 VIOLATION, 2 error of the machinery.
"""
import concurrent.futures as cf, json, os, pathlib, re, shutil, subprocess, sys, time, traceback

VERIF = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF / "harness"))
import native
from registry import PROPS, DOMAINS

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = VERIF / "spec"
NCPU = os.cpu_count() or 4


class Machinery(Exception):
    pass


def tlc(module, cfg, work, env=None, args=(), workers=1, timeout=600, mem="2g"):
    meta = work / ("meta_%s_%d" % (module, time.monotonic_ns()))
    meta.mkdir()
    cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss64m",
           "-Xmx" + mem, "-cp", JAR, "tlc2.TLC", "-metadir", str(meta), "-workers", str(workers),
           "-config", str(SPEC / cfg), "-nowarning", "-noGenerateSpecTE", *args, str(SPEC / (module + ".tla"))]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=meta, env=e, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timeout on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def counts(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if m:
        return int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))
    m = re.search(r"The number of states generated: ([\d,]+)", out)
    if m:
        n = int(m.group(1).replace(",", ""))
        return n, n
    return 0, 0


def unquote(line):
    """TLC's PrintT of a string: \"...\" with \\\" and \\\\ escapes"""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


def run_mc(dom, item, work, tier):
    module, cfg = item["module"], item.get("cfg", item["module"] + ".cfg")
    if tier == "thorough" and item.get("thorough_cfg"):
        cfg = item["thorough_cfg"]
    rc, out = tlc(module, cfg, work, workers=item.get("workers", 2), timeout=item.get("timeout", 800), mem=item.get("mem", "4g"))
    st, tr = counts(out)
    if rc != 0 or "Model checking completed. No error" not in out:
        raise Machinery("specification %s/%s is not accepted by TLC:\n%s" % (module, cfg, out[-3000:]))
    return {"module": module, "cfg": cfg, "states": st, "transitions": tr}


def run_gen(dom, g, work, tier, seed, n):
    module, cfg = g["module"], g.get("cfg", g["module"] + ".cfg")
    if tier == "thorough" and g.get("thorough_cfg"):
        cfg = g["thorough_cfg"]
    args = []
    if g.get("simulate"):
        num = g["simulate"] * (g.get("thorough_factor", 10) if tier == "thorough" else 1)
        args = ["-simulate", "num=%d" % num, "-depth", str(g["depth"]), "-seed", str(seed)]
    rc, out = tlc(module, cfg, work, args=args, workers=1, timeout=600)
    beh = []
    for line in out.splitlines():
        u = unquote(line)
        if u.startswith("GEN|"):
            beh.append(u[4:])
    if not beh:
        raise Machinery("no behaviours generated by %s:\n%s" % (module, out[-2000:]))
    seen = list(dict.fromkeys(beh))
    cap = g.get("thorough_cap") if tier == "thorough" else g.get("cap")
    if cap and len(seen) > cap:
        import random
        random.Random(seed).shuffle(seen)
        seen = seen[:cap]
    f = work / ("beh_%s_%d.ndjson" % (dom["name"], n))
    f.write_text("\n".join(seen) + "\n")
    st, tr = counts(out)
    return f, len(seen), {"module": module, "cfg": cfg, "states": st, "transitions": tr, "behaviours": len(seen)}


def run_driver(dom, drv, shard, nshards, work, tier, seed, stage, behs, prop):
    out = work / ("trace_%s_%s_%d.ndjson" % (dom["name"], drv["script"], shard))
    scratch = work / ("scratch_%s_%s_%d" % (dom["name"], drv["script"], shard))
    scratch.mkdir()
    env = dict(os.environ, VERIF_STAGE=str(stage), VERIF_SEED=str(seed), VERIF_TIER=tier, TZ=drv.get("TZ", "UTC"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MPLBACKEND="Agg", TMPDIR=str(scratch), HOME=str(scratch),
               PYTHONPATH=str(VERIF / "harness"), VERIF_PROP=prop, LANG="C.UTF-8")
    cmd = ["/opt/venv/bin/python", "-W", "ignore", str(VERIF / "harness" / (drv["script"] + ".py")), "--out", str(out),
           "--shard", str(shard), "--nshards", str(nshards), "--scratch", str(scratch)]
    for b in behs:
        cmd += ["--beh", str(b)]
    t0 = time.time()
    status, log = "ok", ""
    try:
        r = subprocess.run(cmd, env=env, cwd=scratch, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=drv.get("timeout", 420) * (4 if tier == "thorough" else 1))
        log = r.stdout
        if r.returncode == 0:
            status = "ok"
        elif r.returncode < 0:
            status = "signal %d" % -r.returncode
        else:
            status = "error"
    except subprocess.TimeoutExpired as ex:
        status = "timeout"
        log = (ex.stdout or b"").decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    shutil.rmtree(scratch, ignore_errors=True)
    return {"out": out, "status": status, "log": log, "script": drv["script"], "shard": shard, "wall": time.time() - t0}


def run_trace(dom, module, trace, work, timeout=800, prop=None):
    n = sum(1 for _ in open(trace))
    if n == 0:
        return {"events": 0, "bad": [], "states": 0, "transitions": 0}
    rc, out = tlc(module, module + ".cfg", work, env={"TRACE": str(trace)}, timeout=timeout, mem="3g")
    bad = []
    for line in out.splitlines():
        u = unquote(line)
        if u.startswith("BAD|"):
            _, l, rest = u.split("|", 2)
            bad.append((int(l), sorted(set(re.findall(r"[A-Z]\d\d\.\w+", rest)))))
    st, tr = counts(out)
    if prop and "TLC was evaluating" in out and 0 < st <= n:
        # the recorded event has a shape the specification gives no meaning to
        bad = [b for b in bad if b[0] <= st and b[1]] + [(st, [prop + ".event_has_a_meaning"])]
        return {"events": st, "bad": bad, "states": st, "transitions": tr}
    if "Model checking completed. No error" not in out or st < n + 1:
        raise Machinery("trace validation of %s by %s did not complete (%d states for %d events):\n%s"
                        % (trace, module, st, n, out[-3000:]))
    return {"events": n, "bad": bad, "states": st, "transitions": tr}


def binding_canary(dom, module, trace, work, seed):
    """corrupt one recorded field and expect the specification to reject it"""
    import random
    rng = random.Random(seed)
    lines = open(trace).read().splitlines()[:400]
    if not lines:
        return None
    evs = [json.loads(x) for x in lines]
    cand = []
    for i, e in enumerate(evs):
        for k in (dom.get("canary") or {}).get(e.get("op"), ()):
            if k in e:
                cand.append((i, k))
    if not cand:
        return None
    tried = []
    for i, k in rng.sample(cand, min(3, len(cand))):
        e2 = [dict(x) for x in evs]
        v = e2[i][k]
        if isinstance(v, bool):
            e2[i][k] = not v
        elif isinstance(v, int):
            e2[i][k] = v + 7919
        elif isinstance(v, str):
            e2[i][k] = v + "~"
        elif isinstance(v, list):
            e2[i][k] = v[:-1] if v else [7919]
        f = work / "canary.ndjson"
        f.write_text("\n".join(json.dumps(x) for x in e2) + "\n")
        try:
            r = run_trace(dom, module, f, work)
            tried.append({"op": evs[i]["op"], "field": k, "rejected": any(l == i + 1 for l, _ in r["bad"]) or bool(r["bad"])})
        except Machinery as ex:
            tried.append({"op": evs[i]["op"], "field": k, "rejected": True, "how": "evaluation error"})
    return tried


def load_known():
    f = VERIF / "known_findings.json"
    return json.loads(f.read_text())["findings"] if f.exists() else []


def matches(known, prop, clause, ev):
    if known["property"] != prop or known.get("status") == "fixed":
        return False
    if clause not in known["clauses"]:
        return False
    return all(ev.get(k) == v for k, v in known["match"].items())


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = PROPS[prop]
    work = VERIF / ".cache" / "run" / ("%s-%d" % (prop, os.getpid()))
    work.mkdir(parents=True)
    replay_dir = VERIF / ".cache" / "replay" / prop
    shutil.rmtree(replay_dir, ignore_errors=True)
    violations, known_hits = [], {}
    known = load_known()
    try:
        stage = native.ensure()
        mcs, gens, traces, canaries, samples, opcount = [], [], 0, [], [], {}
        events = tstates = ttrans = 0
        drv_runs = []
        with cf.ThreadPoolExecutor(max_workers=NCPU) as pool:
            doms = [dict(DOMAINS[d], name=d) for d in P["domains"]]
            mc_f = [pool.submit(run_mc, d, m, work, tier) for d in doms for m in d.get("mc", ()) if not m.get("only") or prop in m["only"]]
            gen_f = {d["name"]: [pool.submit(run_gen, d, g, work, tier, seed, i) for i, g in enumerate(d.get("gen", ()))]
                     for d in doms}
            jobs = []
            for d in doms:
                behs = []
                for f in gen_f[d["name"]]:
                    p, n, info = f.result()
                    behs.append(p)
                    gens.append(info)
                for drv in d["drivers"]:
                    if drv.get("only") and prop not in drv["only"]:
                        continue
                    ns = drv.get("shards", 4)
                    if tier == "thorough":
                        ns = max(ns, 8)
                    for s in range(ns):
                        jobs.append((d, drv, pool.submit(run_driver, d, drv, s, ns, work, tier, seed, stage, behs, prop)))
            tr_jobs = []
            for d, drv, f in jobs:
                r = f.result()
                drv_runs.append(r)
                if r["status"] != "ok":
                    log = r["log"][-4000:]
                    in_repo = "/repo/py_gnome/gnome/" in log or str(native.SRC / "gnome") in log
                    if r["status"] == "error" and not in_repo:
                        raise Machinery("driver %s failed:\n%s" % (r["script"], log))
                    violations.append({"clause": prop + ".code_under_test_" + r["status"].replace(" ", "_"),
                                       "event": {"driver": r["script"], "shard": r["shard"], "log": log}, "file": None})
                if r["out"].exists():
                    tr_jobs.append((d, drv, r, pool.submit(run_trace, d, drv["trace"], r["out"], work, 800, prop)))
            for d, drv, r, f in tr_jobs:
                tr = f.result()
                events += tr["events"]
                tstates += tr["states"]
                ttrans += tr["transitions"]
                evs = [json.loads(x) for x in open(r["out"])]
                for e in evs:
                    k = d["name"] + "." + str(e.get("op"))
                    opcount[k] = opcount.get(k, 0) + 1
                traces += sum(1 for e in evs if e.get("op") in d.get("first", ("init",)))
                if evs and len(samples) < 4:
                    samples.append({"domain": d["name"], "events": evs[:3]})
                for l, clauses in tr["bad"]:
                    ev = evs[l - 1]
                    for c in clauses:
                        if not c.startswith(prop + ".") and not os.environ.get("VERIF_ALLCLAUSES"):
                            continue
                        k = next((k for k in known if matches(k, prop, c, ev)), None)
                        if k:
                            known_hits[k["id"]] = k
                        else:
                            violations.append({"clause": c, "event": ev, "file": str(r["out"]), "line": l})
            for f in mc_f:
                mcs.append(f.result())
            if not violations:
                done = set()
                for d, drv, r, f in tr_jobs:
                    if drv["trace"] not in done and r["out"].exists():
                        done.add(drv["trace"])
                        c = binding_canary(d, drv["trace"], r["out"], work, seed)
                        if c:
                            canaries.append({"domain": d["name"], "module": drv["trace"], "corruptions": c})
        for k in known_hits.values():
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        replay = None
        if violations:
            replay_dir.mkdir(parents=True, exist_ok=True)
            keep = {}
            for v in violations:
                if v.get("file") and v["file"] not in keep and len(keep) < 3:
                    dst = replay_dir / pathlib.Path(v["file"]).name
                    shutil.copy(v["file"], dst)
                    keep[v["file"]] = str(dst)
            replay = replay_dir / "violations.json"
            replay.write_text(json.dumps({"property": prop, "seed": seed, "tier": tier,
                                          "violations": [dict(v, file=keep.get(v.get("file"))) for v in violations[:50]],
                                          "count": len(violations)}, indent=1))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {
                  "states": sum(m["states"] for m in mcs) + tstates,
                  "transitions": sum(m["transitions"] for m in mcs) + ttrans,
                  "spec_models": mcs, "spec_generated_behaviours": gens,
                  "traces_validated_against_impl": traces, "events_validated": events,
                  "events_per_operation": opcount, "binding_checks": canaries,
                  "samples": samples},
              "assumptions": P.get("assumptions", []) + ["gridded (absent here) is replaced by /verif/shim/gridded"],
              "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1, default=str))
        seenc = {}
        for v in violations:
            seenc[v["clause"]] = seenc.get(v["clause"], 0) + 1
        for c, n in sorted(seenc.items()):
            print("  clause %s rejected %d time(s)" % (c, n))
        for v in violations[:3]:
            print("   ", v["clause"], json.dumps(v["event"])[:1500])
        print("%s %s: %d spec states, %d traces / %d events validated, %.0f s" %
              (prop, tier, sum(m["states"] for m in mcs), traces, events, time.time() - t0))
        if violations:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0
    except Machinery as ex:
        print("MACHINERY ERROR:", ex)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
