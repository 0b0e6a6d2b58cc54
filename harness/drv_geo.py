"""replays generated geometry in the real code: gnome.utilities.geometry, haz_files and the triangulation of polygon releases"""
import copy, os
from common import *
from gnome.utilities.geometry import point_in_poly, points_in_poly, is_clockwise, is_clockwise_convex
from gnome.utilities.geometry import cy_point_in_polygon as cyp, PinP, BBox as BB, polygons as pg
from gnome.utilities.file_tools import haz_files
import gnome.utilities.geometry.geo_routines as gr
from shapely.geometry import Polygon as SPoly

# exact placements of the integer plane
PLACE = [(1.0, 0.0, 0.0), (0.5, -70.0, 40.0), (0.25, -150.0, -60.0), (2.0 ** -10, 120.5, 10.25), (4.0, 0.0, 0.0), (2.0 ** -20, -70.5, 28.5)]


def put(pts, pl):
    s, ox, oy = PLACE[pl]
    return np.ascontiguousarray(np.array(pts, dtype=np.float64).reshape(-1, 2) * s + (ox, oy))


def take(arr, pl):
    s, ox, oy = PLACE[pl]
    a = (np.asarray(arr, dtype=np.float64).reshape(-1, 2) - (ox, oy)) / s
    return [[int(x) if x == int(x) else fx(x * 1000 + 700000) for x in r] for r in a.tolist()]


def cw(x):
    return bool(x)


def asked(poly, pts, rng):
    """every form of the question on the same polygon: group 1 native, group 2 pure Python"""
    p3 = np.c_[pts, rng.choice([0.0, 3.5]) * np.ones(len(pts))]
    same = []

    def call(f, *xs):
        before = [copy.deepcopy(x) for x in xs]
        shapes = [getattr(x, "shape", None) for x in xs]
        r = f(*xs)
        same.append(all(np.array_equal(np.asarray(x), np.asarray(b)) for x, b in zip(xs, before)) and shapes == [getattr(x, "shape", None) for x in xs])
        return r
    res, group = [], []
    res.append([int(x) for x in call(points_in_poly, poly, p3)]); group.append(1)
    res.append([int(x) for x in call(points_in_poly, poly, p3.tolist())]); group.append(1)
    res.append([int(call(points_in_poly, poly, np.array(p))) for p in p3]); group.append(1)
    form = rng.choice([tuple, list, np.array])
    res.append([int(call(point_in_poly, poly, form(p.tolist()))) for p in pts]); group.append(1)
    stack = np.ascontiguousarray(np.broadcast_to(poly, (len(pts),) + poly.shape))
    res.append([int(x) for x in call(cyp.points_in_polys, stack, np.ascontiguousarray(pts))]); group.append(1)
    res.append([int(x) for x in call(PinP.points_in_poly, poly, p3)]); group.append(2)
    res.append([int(call(PinP.CrossingsTest, poly, (p[0], p[1]))) for p in pts]); group.append(2)
    res.append([int(call(PinP.points_in_poly, poly, np.array(p))) for p in p3[:len(pts)]]); group.append(2)
    return res, group, all(same)


def variants(P, rng):
    n = len(P)
    k = rng.randrange(n)
    return [P[k:] + P[:k], P[::-1], P + P[:1], (P[k:] + P[:k])[::-1] + [(P[k:] + P[:k])[-1]]]


def points(rng, P, m):
    pts = [[rng.randint(-2, 14), rng.randint(-2, 11)] for _ in range(m)]
    pts += [list(p) for p in rng.sample(P, min(2, len(P)))]
    # level with a vertex: where crossing rules go wrong
    pts += [[rng.randint(-2, 14), rng.choice(P)[1]] for _ in range(m // 2)]
    return pts


def poly(a, P, pl, var):
    rng = a.rng
    pts = points(rng, P, 12)
    x, q = put(P, pl), put(pts, pl)
    arr = pg.Polygon(x) if var == 0 else x
    res, group, same = asked(np.asarray(arr) if var else arr, q, rng)
    for v in variants(P, rng):
        vx = put(v, pl)
        res.append([int(y) for y in points_in_poly(vx, np.c_[q, np.zeros(len(q))])]); group.append(0)
        if v[0] != v[-1]:
            res.append([int(y) for y in PinP.points_in_poly(vx, np.c_[q, np.zeros(len(q))])]); group.append(0)
    c = []
    if len(P) == 3:
        for k in range(3):
            v = put(P[k:] + P[:k], pl)
            c += [cw(is_clockwise(v)), cw(is_clockwise(v.tolist())), cw(is_clockwise_convex(v)), cw(is_clockwise([tuple(y) for y in v] + [tuple(v[0])]))]
            c += [not cw(is_clockwise(v[::-1])), not cw(is_clockwise_convex(v[::-1].tolist()))]
    p = pg.Polygon(x, metadata={"a": 1})
    b = np.asarray(p.bounding_box)
    same = same and np.array_equal(p.points, x) and np.array_equal(np.asarray(p), x) and p.metadata == {"a": 1}
    a.rec.emit("poly", P=P, pts=pts, res=res, group=group, same=bool(same), cw=c, box=sum(take(b, pl), []))


def mono(a, c, pl, var):
    rng = a.rng
    xs, lo, hi, k = c["xs"], c["lo"], c["hi"], c["k"]
    mk = lambda i, j: [[xs[t], lo[t]] for t in range(i, j)] + [[xs[t], hi[t]] for t in reversed(range(i, j))]
    W, A, B = mk(0, len(xs)), mk(0, k), mk(k - 1, len(xs))
    pts = points(rng, W, 10) + [[xs[k - 1], y] for y in range(lo[k - 1], hi[k - 1] + 1)]
    q = put(pts, pl)
    q3 = np.c_[q, np.zeros(len(q))]
    rev = var % 2 == 1
    f = (lambda P: P[::-1]) if rev else (lambda P: P)
    out = []
    for P in (W, A, B):
        x = put(f(P), pl)
        out.append([[int(y) for y in points_in_poly(x, q3)], [int(point_in_poly(x, p)) for p in q], [int(y) for y in PinP.points_in_poly(x, q3)]])
    o = []
    for r in range(3):
        j = rng.randrange(len(W))
        P = f(W)
        v = put(P[j:] + P[:j], pl)
        o += [cw(is_clockwise(v)), cw(is_clockwise(v.tolist() + [v[0].tolist()]))]
    tri, w, rp = [], [], []
    if var >= 2:
        t = gr.triangulate_poly(SPoly(put(f(W), pl)))
        tri = [take(np.array(p.exterior.coords)[:3], pl) for p in t]
        w = [fx(v, 1000000) for v in gr.poly_area_weight(t)]
        for i in range(len(t)):
            for form in (t[i], np.array(t[i].exterior.coords)[:3]):
                s, ox, oy = PLACE[pl]
                p = gr.random_pt_in_tri(form)
                rp.append([i + 1, fx((p[0] - ox) / s, 1000), fx((p[1] - oy) / s, 1000)])
    a.rec.emit("mono", xs=xs, lo=lo, hi=hi, k=k, pts=pts, resw=out[0], resa=out[1], resb=out[2], cw=o, rev=rev, tri=tri, w=w, rp=rp)


def bna(a, recs, flaw, blank):
    rng = a.rng
    lines, ok = [], True
    off, den = rng.choice([(0.0, 4), (0.0, 4), (-150.0, 4), (-150.0, 1e5), (60.0, 1e3)])
    for i, r in enumerate(recs):
        n, pts = r["n"], ["%.6f,%.6f" % (off + p[0] / den, off + p[1] / den) for p in r["p"]]
        head = '"%s","%s",%d' % (r["a"], r["b"], n) if rng.random() < 0.5 else '"%s","%s", %d' % (r["a"], r["b"], n)
        if i == len(recs) - 1:
            if flaw == 1:
                head, ok = "%s,%s,%d" % (r["a"].replace('"', ""), r["b"], n), False
            elif flaw == 2:
                pts, ok = pts[:-1], False           # a coordinate line too few at the end of the file
            elif flaw == 3:
                pts[0], ok = "one, two", False
            elif flaw == 4:
                head, ok = head[:head.rindex(",") + 1] + "0", False
        lines += [head] + pts
        if blank:
            lines.append(rng.choice(["", "  "]))
    f = os.path.join(a.scratch, "x.bna")
    open(f, "w").write("\n".join(lines) + rng.choice(["", "\n", "\n\n"]))
    exc, got, got2 = "", [], []
    q = lambda arr: [[fx((x - off) * den) for x in r] for r in np.asarray(arr).tolist()]
    try:
        got = [dict(p=q(p), t=t, a=n, b=s) for p, t, n, s in haz_files.ReadBNA(f)]
    except Exception as e:
        exc = excname(e)
    exc2 = ""
    try:
        ps = haz_files.ReadBNA(f, "PolygonSet")
        got2 = [dict(p=q(p), t=p.metadata[0], a=p.metadata[1], b=p.metadata[2]) for p in ps]
    except Exception as e:
        exc2 = excname(e)
    os.remove(f)
    a.rec.emit("bna", recs=recs, ok=ok, got=got, got2=got2, exc=exc if exc == exc2 else exc + "/" + exc2)


def metaof(m):
    return -1 if m is None else m.get("k", -1) if isinstance(m, dict) else m[0] if isinstance(m, tuple) and m else -3


def ints(arr):
    return [[ix(x) if x == int(x) else NAN for x in r] for r in np.asarray(arr).reshape(-1, 2).tolist()]


def view(s):
    n = len(s)
    oob = True
    for i in (n, n + 3, -n - 1):
        try:
            s[i]
            oob = False
        except IndexError:
            pass
    pts, idx = s.GetPointsData()
    it = [dict(p=ints(p), m=metaof(p.metadata)) for p in s]
    at = [dict(p=ints(s[i]), m=metaof(s.GetMetaData()[i])) for i in range(n)]
    b = s.bounding_box
    return dict(n=n, total=ix(s.total_num_points), items=it if it == at else [["differ"]], neg=[dict(p=ints(s[i]), m=metaof(s[i].metadata)) for i in range(-1, -n - 1, -1)],
                bb=[] if b is None else sum(ints(b), []), oob=oob, truth=bool(s), data=ints(pts) if list(idx) == [0] + np.cumsum([len(p) for p in s]).tolist() else [["index"]])


def sethist(a, ops):
    S = [pg.PolygonSet(), pg.PolygonSet()]
    for op in ops:
        what, i = op[0], op[1]
        ev = dict(what=what, i=i)
        exc = ""
        try:
            if what == "append":
                arr = np.array(op[2], dtype=float).reshape(-1, 2)
                m = {"k": op[3]}
                if op[4] == 0:
                    S[i].append(arr, m)
                elif op[4] == 1:
                    S[i].append(pg.Polygon(arr, metadata=m))
                else:
                    S[i].append([tuple(p) for p in op[2]], metadata=m)
                arr += 17          # what was given is not kept
                ev.update(p=op[2], m=op[3])
            elif what == "copy":
                S[1 - i] = S[i].Copy()
            elif what == "shift":
                S[i].TransformData(lambda p, dx, dy=0: p + (dx, dy), args=(op[2][0],), kwargs={"dy": op[2][1]})
                ev.update(d=op[2])
            elif what == "thin":
                if any(len(p) == 0 for p in S[i]):
                    ev["what"] = "cmp"
                else:
                    sc = (1.0 / op[2][0], 1.0 / op[2][1])
                    far = a.rng.choice([0.0, 105e5, -105e6])       # whole pixels away: drawn alike
                    one = [ints(np.asarray(pg.Polygon(np.asarray(p) + far).thin(sc)).reshape(-1, 2) - far) for p in S[i]]
                    S[i if op[3] == 0 else 1 - i] = S[i].thin(sc)
                    ev.update(sc=op[2], into=op[3], one=one)
            elif what == "setdata":
                S[1 - i].SetPointsData(S[i].GetPointsData())
            elif what == "fromdata":
                S[1 - i] = pg.PolygonSet(S[i].GetPointsData() + (S[i].GetMetaData(),))
            elif what == "new":
                S[i] = pg.PolygonSet()
            elif what == "same":       # the same points, divided differently (or not)
                pts, cut = op[2] + op[3], op[5]
                m = {"k": op[4]}
                A, B = pg.PolygonSet(), pg.PolygonSet()
                k1, k2 = min(len(op[2]), len(pts) - 1), min(cut, len(pts) - 1)
                for T, k in ((A, k1), (B, k2)):
                    T.append(pts[:k], m)
                    T.append(pts[k:], m)
                S = [A, B]
                ev.update(s1=[dict(p=pts[:k1], m=op[4]), dict(p=pts[k1:], m=op[4])], s2=[dict(p=pts[:k2], m=op[4]), dict(p=pts[k2:], m=op[4])])
            elif what == "scribble":   # what a set hands out is not the set
                p, x = S[i].GetPointsData()
                p += 5
                x += 1
                S[i].GetMetaData().append("?")
                for q in S[i]:
                    np.asarray(q)[:] = 99
        except Exception as e:
            exc = excname(e) + ":" + str(e)[:80]
        if exc:
            a.rec.emit("set", exc=exc, **ev)
            return
        a.rec.emit("set", view=[view(S[0]), view(S[1])], eq=bool(S[0] == S[1]), ne=bool(S[0] != S[1]),
                   refl=bool(S[0] == S[0] and S[1] == S[1].Copy() and not (S[0] == "x")), **ev)


def boxhist(a, ops):
    box = BB.NullBBox()
    mk = lambda b: BB.NullBBox() if not b else BB.BBox(((b[0], b[1]), (b[2], b[3])))
    num = lambda b: [] if np.isnan(np.asarray(b)).all() else sum(ints(b), [])
    for op in ops:
        what = op[0]
        ev, exc = dict(what=what), ""
        try:
            if what == "merge":
                ev["b"] = op[1]
                o = mk(op[1])
                o0 = np.array(o)
                o = np.asarray(o) if a.rng.random() < 0.5 else o
                box.Merge(o)
                if not np.array_equal(np.asarray(o), o0, equal_nan=True):
                    exc = "argument changed"
            elif what == "rel":
                ev.update(b=op[1], pt=op[2])
                o = mk(op[1])
                ev.update({"over": [bool(box.Overlaps(o)), bool(o.Overlaps(box))], "in": [bool(box.Inside(o)), bool(o.Inside(box))],
                           "has": bool(box.PointInside(a.rng.choice([tuple, list, np.array])(op[2]))), "eq": bool(box == o)})
            elif what == "from":
                ev["pts"] = op[1]
                box = BB.fromPoints(op[1] if len(op[1]) > 1 else op[1][0])
            elif what == "frombb":
                ev["bs"] = op[1]
                box = BB.fromBBArray([np.asarray(mk(b)) for b in op[1]])
            elif what == "ctor":
                ev["b"] = op[1]
                b = op[1]
                box = BB.BBox(((b[0], b[1]), (b[2], b[3])))
        except ValueError as e:
            exc = excname(e)
        n = num(box)
        ev.update(box=n, dims=[], corners=[], sides=[])
        if n:
            cx, cy = (float(v) * 2 for v in np.asarray(box.Center))
            ev.update(dims=[ix(box.Width), ix(box.Height), ix(cx), ix(cy)], corners=ints(box.AsPoly()), sides=[ix(box.Left), ix(box.Bottom), ix(box.Right), ix(box.Top)])
        a.rec.emit("box", exc=exc, **ev)


def main():
    a = args()
    import random
    for kind, b in behaviours(a):
        a.rec.trace += 1
        np.random.seed(a.rec.trace)
        random.seed(a.rec.trace)
        a.rec.emit("begin", kind=kind)
        if kind in ("set", "box"):
            try:
                (sethist if kind == "set" else boxhist)(a, b)
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                a.rec.emit("failed", what=kind, args="", exc=excname(e) + ": " + str(e)[:200])
            continue
        for op in b:
            try:
                if op[0] == "poly":
                    poly(a, op[1], op[2], op[3])
                elif op[0] == "mono":
                    mono(a, op[1], op[2], op[3])
                else:
                    bna(a, op[1], op[2], op[3])
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                a.rec.emit("failed", what=op[0], args=repr(op)[:300], exc=excname(e) + ": " + str(e)[:200])
    a.rec.close()


main()
