"""Builds PyGnome's C++/Cython extensions from /repo's working tree into
/verif/.cache/native/<hash of the native sources>, outside /repo and /opt/vp."""
import fcntl, hashlib, os, pathlib, shutil, subprocess, sys

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "py_gnome"
CACHE = pathlib.Path(__file__).resolve().parent.parent / ".cache"
PY = "/opt/venv/bin/python"


def native_files():
    out = [SRC / "CMakeLists.txt"]
    for sub in ("lib_gnome", "cmake"):
        out += [p for p in (SRC / sub).rglob("*") if p.is_file()]
    for p in (SRC / "gnome").rglob("*"):
        if p.suffix in (".pyx", ".pxd", ".pxi", ".h", ".hpp"):
            out.append(p)
        elif p.suffix in (".c", ".cpp") and not p.name.startswith("cy_"):
            out.append(p)
    return sorted(set(out))


def digest():
    h = hashlib.sha256()
    for p in native_files():
        h.update(str(p.relative_to(SRC)).encode() + b"\0")
        h.update(hashlib.sha256(p.read_bytes()).digest())
    return h.hexdigest()[:20]


def ensure():
    """returns the stage directory holding gnome/cy_gnome/*.so etc."""
    root = CACHE / "native"
    root.mkdir(parents=True, exist_ok=True)
    with open(root / ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stage = root / digest()
        if (stage / ".ok").exists():
            os.utime(stage)
            return stage
        olds = sorted((d for d in root.iterdir() if d.is_dir()), key=lambda d: d.stat().st_mtime)
        for d in olds[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        bld = root / (stage.name + ".build")
        shutil.rmtree(bld, ignore_errors=True)
        shutil.rmtree(stage, ignore_errors=True)
        bld.mkdir()
        env = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
                   PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        env.pop("PYTHONPATH", None)
        for cmd in (["cmake", "-S", str(SRC), "-B", str(bld), "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
                     "-DSKBUILD_PROJECT_NAME=gnome", "-DPython_EXECUTABLE=" + PY,
                     "-DCMAKE_INSTALL_PREFIX=" + str(stage)],
                    ["cmake", "--build", str(bld)],
                    ["cmake", "--install", str(bld)]):
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout[-6000:])
                raise RuntimeError("native build failed: " + " ".join(cmd[:2]))
        (stage / ".ok").write_text("ok")
        shutil.rmtree(bld, ignore_errors=True)
        return stage


if __name__ == "__main__":
    print(ensure())
