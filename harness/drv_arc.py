"""replays generated archives, saves and old save folders; everything happens in folders under the scratch folder"""
import pathlib, re, shutil, tempfile, zipfile
from common import *
from gnome.persist import save_load
from gnome.utilities import save_updater
from gnome.environment.water import Water


def cleaned(s):
    return "".join(c for c in s if c not in '\\/*?:"<>|')


def files(p):
    return {str(x.relative_to(p)): x.read_bytes() for x in sorted(pathlib.Path(p).rglob("*")) if x.is_file()}


class World:
    def __init__(self, a, root):
        self.a, self.rng, self.rec = a, a.rng, a.rec
        self.root = pathlib.Path(root)
        self.k = 0

    def place(self):
        """root/k/deep/er/in and out: an escape by two levels stays under root/k"""
        self.k += 1
        b = self.root / str(self.k)
        odd = self.rng.choice(["out", "out", "o[u]t"])
        for d in ("deep/er/in", "deep/er/" + odd, "deep/er/cwd", "abs"):
            (b / d).mkdir(parents=True)
        (b / "deep/er/in/bystander.txt").write_text("x")
        (b / "deep/er/cwd/bystander.txt").write_text("y")
        return b, b / "deep/er", b / "deep/er" / odd

    # -- archives -------------------------------------------------------------
    def build(self, entries, path, base):
        rng, out = self.rng, []
        seen = {}
        paths = []
        for e in entries:
            comps = list(e["dirs"]) + ([e["name"]] if (e["name"] and not (e["folder"] and e["dirs"])) else [])
            if not comps:
                comps = ["x"]
            if not e["folder"]:
                if e["up"] == 1:
                    comps = comps[:-1] + [".."] + comps[-1:]
                elif e["up"] == 2:
                    comps[-1] = ".." + comps[-1]
                elif e["up"] == 3:
                    comps[-1] = "..\\..\\" + comps[-1]
            p = "/".join(comps) + ("/" if e["folder"] else "")
            if e["abs"]:
                p = str(base / "abs") + "/" + p
            paths.append(p)
        names = [p.rpartition("/")[2] for p in paths if not p.endswith("/")]
        with zipfile.ZipFile(path, "w") as z:
            for i, (e, p) in enumerate(zip(entries, paths)):
                refs, text = [], False
                name = p.rpartition("/")[2]
                kind = zipfile.ZIP_STORED if e["stored"] else zipfile.ZIP_DEFLATED
                if e["folder"]:
                    data = b""
                elif name.lower().endswith(".json"):
                    text = True
                    refs = [rng.choice(names) for _ in range(e["nrefs"])]
                    pad = "0" * e["size"] if e["zeros"] else "".join(rng.choice("0123456789abcdef") for _ in range(e["size"]))
                    data = json.dumps(dict(n=i + 1, refs=refs, pad=pad)).encode()
                else:
                    data = b"%d|" % (i + 1) + (b"\0" * e["size"] if e["zeros"] else bytes(rng.randrange(256) for _ in range(e["size"])))
                z.writestr(zipfile.ZipInfo(p), data, kind)
                info = z.infolist()[-1]
                out.append(dict(dirs=p.split("/")[:-1], name=name, clean=cleaned(name), folder=e["folder"], abs=p.startswith("/"), dots=".." in p, json=os.path.splitext(name)[1] == ".json",
                                fs=info.file_size, cs=info.compress_size, id=i + 1, refs=[[r, cleaned(r)] for r in refs], text=text))
        return out

    def judge(self, entries, kind, maxjson, ratio):
        b, d, o = self.place()
        p = d / "in" / "a.zip"
        es = self.build(entries, p, b)
        corrupt = False
        if kind == "text":
            p.write_text("PK not really " * 20)
        elif kind == "cut":
            x = p.read_bytes()
            p.write_bytes(x[:len(x) // 2])
        elif kind == "corrupt":
            with zipfile.ZipFile(p) as z:
                big = [i for i in z.infolist() if i.file_size > 0 and z.getinfo(i.filename) is i]      # (zipfile reads the last of a name)
            if big:
                i = self.rng.choice(big)
                x = bytearray(p.read_bytes())
                at = i.header_offset + 30 + int.from_bytes(x[i.header_offset + 26:i.header_offset + 28], "little") + int.from_bytes(x[i.header_offset + 28:i.header_offset + 30], "little")
                x[at + i.compress_size // 2] ^= 0x55
                p.write_bytes(bytes(x))
                corrupt = True
        before = files(b)
        kw = {} if (maxjson, ratio) == (1048576, 54) else dict(max_json_filesize=maxjson, max_compress_ratio=ratio)
        try:
            v, e = bool(save_load.is_savezip_valid(str(p), **kw)), ""
        except Exception as ex:
            v, e = False, excname(ex)
        self.rec.emit("judge", a=dict(entries=es, iszip=kind not in ("text", "cut"), corrupt=corrupt, maxjson=maxjson, ratio=ratio), valid=v, exc=e, same=files(b) == before)

    def extract(self, entries, how):
        b, d, o = self.place()
        p = d / "in" / "a.zip"
        es = self.build(entries, p, b)
        before = files(b)
        prefix, e = [], ""
        here = os.getcwd()
        os.chdir(d / "cwd")
        try:
            if how == "updater":
                save_updater.extract_zipfile(str(p), str(o))
            else:
                with zipfile.ZipFile(p) as z:
                    if how == "open":
                        save_updater.extract_zipfile(z, str(o))
                    elif how == "plain":
                        save_load.extract_zipfile(z, str(o))
                    else:
                        fs = save_load.zipfile_folders(z)
                        if fs:
                            prefix = fs[0].split("/")[:-1]
                        save_load.extract_zipfile(z, str(o), fs[0] if fs else "")
        except Exception as ex:
            e = excname(ex)
        finally:
            os.chdir(here)
        after = files(b)
        mine = str(o.relative_to(b)) + "/"
        out = []
        for n, x in sorted(after.items()):
            if n.startswith(mine):
                n_, ids, refs = n[len(mine):], NAN, []
                try:
                    if n_.lower().endswith(".json"):
                        j = json.loads(x.decode())
                        ids, refs = j["n"], j["refs"]
                    else:
                        ids = int(x.split(b"|")[0])
                except Exception:
                    pass
                out.append([n_, ids, refs])
        self.rec.emit("extract", entries=es, how=how, prefix=prefix, out=out, outside=[n for n in after if n not in before and not n.startswith(mine)],
                      same=all(after.get(n) == before[n] for n in before), exc=e)

    # -- saves ------------------------------------------------------------------
    def save(self, name, kind, there, over):
        b, d, o = self.place()
        w = Water(temperature=283.0 + self.rng.randrange(20), name=name)
        target = {"dir": o / (cleaned(name) + ".gnome"), "zip": o / "obj.zip", "gnome": o / "obj.gnome", "bare": o / "obj.gnome", "path": o / "obj.gnome", "open": o / "open.zip"}.get(kind)
        if kind in ("none", "open"):
            there = "none" if kind == "none" else there
        old = b'{"n": 1, "pad": "old"}'
        z = None
        if kind == "open":
            there = "zip" if there == "zip" else "none"
        if target is not None:
            if there == "zip":
                with zipfile.ZipFile(target, "w") as q:
                    q.writestr("old.json", old)
            elif there == "other":
                target.write_text("not an archive")
        before = files(b)
        loc = {"dir": str(o), "zip": str(o / "obj.zip"), "gnome": str(o / "obj.gnome"), "bare": str(o / "obj"), "path": o / "obj.gnome", "none": None}.get(kind)
        if kind == "open":
            loc = z = zipfile.ZipFile(target, "a")
        e, res = "", None
        here = os.getcwd()
        os.chdir(d / "cwd")
        try:
            res = w.save(loc, overwrite=over)
        except Exception as ex:
            e = excname(ex)
        finally:
            os.chdir(here)
        if z is not None:
            z.close()
        after = files(b)
        tname = str(target.relative_to(b)) if target is not None else ""
        path = loaded = valid = kept = False
        if not e:
            if kind == "none":
                path = isinstance(res[1], zipfile.ZipFile)
                arch = res[1]
            elif kind == "open":
                path, arch = res[1] is z, str(target)
            else:
                path, arch = str(res[1]) == str(target) and target.exists(), str(target)
            try:
                v = Water.load(arch)
                loaded = v.name == name and v.temperature == w.temperature
                with (arch if kind == "none" else zipfile.ZipFile(arch)) as q:
                    kept = "old.json" in q.namelist() and q.read("old.json") == old
                    loaded = loaded and "version.txt" in q.namelist()
                valid = kind == "none" or ".." in name or bool(save_load.is_savezip_valid(arch))
            except Exception:
                pass
        k = "file" if kind in ("zip", "gnome", "bare", "path", "open") else "dir"
        self.rec.emit("save", kind=k, there=there, over=over if kind != "open" else False, exc=e, path=bool(path), loaded=bool(loaded), valid=bool(valid), kept=bool(kept),
                      same=after == before, outside=[n for n in after if n != tname and after[n] != before.get(n)] + [n for n in before if n not in after])

    # -- old saves ---------------------------------------------------------------
    def read(self, o):
        res = []
        for n, x in sorted(files(o).items()):
            if not n.endswith(".json"):
                continue
            try:
                j = json.loads(x.decode())
                res.append(dict(name=n, type=str(j.get("obj_type")), n=ix(j.get("n", 0)), list=j.get("weatherers", []), range=fx(j["windage_range"][0], 1000) if "windage_range" in j else -1,
                                inits=j.get("initializers", [])))
            except Exception:
                res.append(dict(name=n, type="?", n=NAN, list=[], range=NAN, inits=[]))
        return res

    def upgrade(self, c):
        b, d, o = self.place()
        fn = lambda i: "F%d.json" % i
        for i, f in enumerate(c["files"], 1):
            j = dict(obj_type=f["type"], n=f["n"], name="thing %d" % i)
            if i == 1:
                j["weatherers"] = [fn(x) for x in f["list"]]
            if f["type"].endswith("InitWindages"):
                j["windage_range"] = [f["range"] / 1000, f["range"] / 500]
                j["windage_persist"] = 600
            if f["inits"] or f["type"].endswith("GnomeOil"):
                j["initializers"] = [fn(x) for x in f["inits"]]
            (o / fn(i)).write_text(json.dumps(j))
        (o / "version.txt").write_text("%d\n" % c["v"])
        (o / "data.txt").write_text("gnome.spill.spill.Spill PyWindMover")
        given = self.read(o)
        if c["broken"]:
            (o / "broken.json").write_text("{")
        before = files(b)
        here = os.getcwd()
        os.chdir(d / "cwd")
        e, again = "", True
        try:
            save_updater.update_savefile(str(o))
        except Exception as ex:
            e = excname(ex)
        cwd = os.path.realpath(os.getcwd()) == os.path.realpath(d / "cwd")
        os.chdir(here)
        after = files(b)
        mine = str(o.relative_to(b)) + "/"
        others = all(after.get(n) == before[n] for n in before if not (n.startswith(mine) and n.endswith((".json", "version.txt"))))
        got = self.read(o)
        try:
            ver = int((o / "version.txt").read_text())
        except Exception:
            ver = NAN
        if not e and c["twice"]:
            try:
                save_updater.update_savefile(str(o))
                again = files(b) == after
            except Exception:
                again = False
            os.chdir(here)
        self.rec.emit("upgrade", v=c["v"], files=given, broken=c["broken"], after=[f for f in got if f["name"] != "broken.json"], version=ver, exc=e, cwd=cwd, others=others, again=again)

    def run(self, o):
        return getattr(self, o[0])(*o[1:])


def main():
    a = args()
    home = os.getcwd()
    for i, h in enumerate(behaviours(a)):
        a.rec.trace = i
        a.rec.emit("begin")
        with tempfile.TemporaryDirectory(dir=a.scratch) as root:
            tempfile.tempdir = root
            w = World(a, root + "/w")
            for o in h:
                try:
                    w.run(o)
                except Exception as e:
                    if os.environ.get("VERIF_DEBUG"):
                        raise
                    os.chdir(home)
                    a.rec.emit("failed", what=o[0], exc=excname(e) + ": " + str(e)[:200])
        os.chdir(home)
    a.rec.close()


main()
