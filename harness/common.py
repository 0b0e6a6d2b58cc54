"""shared by the drivers: argument parsing, event recording, total integer projections"""
import argparse, json, math, os, random, sys, traceback
import gnomeboot  # noqa: F401  (sets up imports)
import numpy as np

NAN = -2147483000
BIG = 2147480000


def fx(x, scale=1):
    """float -> int, total: NaN / None / not-a-number -> NAN, clipped to the 32-bit range of TLC"""
    try:
        v = float(x) * scale
    except Exception:
        return NAN
    if math.isnan(v):
        return NAN
    v = max(-BIG, min(BIG, v))
    return int(round(v))


def ix(x):
    try:
        v = int(x)
    except Exception:
        return NAN
    return max(-BIG, min(BIG, v))


class Rec:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0
        self.trace = 0

    def emit(self, op, **kw):
        kw["op"] = op
        kw.setdefault("exc", "")
        kw["tid"] = self.trace
        self.f.write(json.dumps(kw, default=_default) + "\n")
        self.n += 1

    def close(self):
        self.f.close()


def _default(o):
    if isinstance(o, (np.integer,)):
        return ix(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(repr(o))


def args():
    p = argparse.ArgumentParser()
    p.add_argument("--out", required=True)
    p.add_argument("--shard", type=int, default=0)
    p.add_argument("--nshards", type=int, default=1)
    p.add_argument("--scratch", required=True)
    p.add_argument("--beh", action="append", default=[])
    a = p.parse_args()
    a.seed = int(os.environ.get("VERIF_SEED", "1"))
    a.thorough = os.environ.get("VERIF_TIER") == "thorough"
    a.prop = os.environ.get("VERIF_PROP", "")
    a.rng = random.Random("%d/%d" % (a.seed, a.shard))
    a.rec = Rec(a.out)
    return a


def behaviours(a, which=None):
    """this shard's behaviours generated by the specification"""
    i = 0
    for f in (a.beh if which is None else [a.beh[which]]):
        for line in open(f):
            if i % a.nshards == a.shard:
                yield json.loads(line)
            i += 1


def mine(a, seq):
    for i, x in enumerate(seq):
        if i % a.nshards == a.shard:
            yield x


def excname(e):
    return type(e).__name__
