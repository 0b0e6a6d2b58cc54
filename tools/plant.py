#!/usr/bin/env python3
"""plant.py FILE.py [ids...]: (dev tool) FILE.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
Writes seeded/<id>/, confirms the demonstration fails only with the change and that the stable tests pass, runs the property's
check with the change applied, and always restores /repo.  Do not run anything else against /repo meanwhile."""
import json, os, pathlib, runpy, shutil, subprocess, sys
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$here/stub:$PWD/py_gnome" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC OMP_NUM_THREADS=1 MPLBACKEND=Agg
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
export TMPDIR="$d"
cd "$d" && timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    for b in bugs:
        if only and b["id"] not in only:
            continue
        assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"
        d = VERIF / "seeded" / b["id"]
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        try:
            for f, old, new in b["edits"]:
                p = REPO / "py_gnome" / f
                s = p.read_text()
                assert s.count(old) == 1, (b["id"], f, s.count(old))
                p.write_text(s.replace(old, new))
            (d / "patch.diff").write_text(sh("git -C /repo diff").stdout)
        finally:
            sh("git -C /repo checkout -- .")
        (d / "demo.sh").write_text(DEMO)
        (d / "demo.py").write_text(b["demo"])
        shutil.copytree(VERIF / "shim" / "gridded", d / "stub" / "gridded", ignore=shutil.ignore_patterns("__pycache__"))
        (d / "meta.json").write_text(json.dumps(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
        native = any(not f.endswith(".py") for f, _, _ in b["edits"])
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        try:
            assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0
            build = sh("bash /opt/vp/build.sh") if native or b.get("build") else None
            r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
            t = "not run"
            if not b.get("notest"):
                sh("bash /opt/vp/test.sh /tmp/plant.json")
                o = json.load(open("/tmp/plant.json"))
                stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                passed = set(o.get("passed", []))
                t = "pass" if stable <= passed else "FAILED %s" % sorted(stable - passed)[:3]
            c = sh("python3 check.py %s" % b["prop"], cwd=str(VERIF))
        finally:
            sh("git -C /repo checkout -- .")
            if native:
                sh("bash /opt/vp/build.sh")
        ok = r0.returncode == 0 and r1.returncode != 0 and t in ("pass", "not run")
        print("%-28s %s demo %d->%d tests %s check exit %d %s" % (b["id"], "ok " if ok else "BAD", r0.returncode, r1.returncode, t, c.returncode,
              [l.strip()[7:90] for l in c.stdout.splitlines() if l.startswith("  clause")][:4]), flush=True)
        if not ok:
            print(r0.stdout[-1500:], "\n----\n", r1.stdout[-800:])
        if c.returncode not in (0, 1):
            print(c.stdout[-2000:])


main()
