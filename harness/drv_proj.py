"""replays generated histories of map projections in gnome.utilities.projections"""
import copy, math, os
from common import *
from gnome.utilities import projections as pj

KIND = dict(geo=pj.GeoProjection, flat=pj.FlatEarthProjection, reg=pj.RegularGridProjection)
M1 = 1 / 8.9992801e-06


class Keep:
    """calls with a copy of the arguments kept: were they left alone?"""
    def __init__(self):
        self.ok = True

    def __call__(self, f, *xs, **kw):
        before = [copy.deepcopy(x) for x in xs]
        r = f(*xs, **kw)
        for x, b in zip(xs, before):
            if isinstance(x, np.ndarray):
                self.ok = self.ok and x.dtype == b.dtype and x.shape == b.shape and np.array_equal(x, b)
            else:
                self.ok = self.ok and repr(x) == repr(b)
        return r


def q(arr, s):
    return [[fx(v, s) for v in r] for r in np.asarray(arr, dtype=np.float64).reshape(-1, 2).tolist()]


def boxarg(rng, b):
    v = ((b[0] / 10, b[1] / 10), (b[2] / 10, b[3] / 10))
    return rng.choice([lambda: v, lambda: [list(r) for r in v], lambda: np.array(v)])()


def sizearg(rng, s):
    return None if not s else rng.choice([tuple(s), list(s)])


def settings(p):
    return dict(ibox=sum(q(np.array(p.image_box), 1e6), []), isize=[ix(v) for v in p.image_size])


def floors(fr):
    f = np.asarray(fr)
    return np.floor(f - 1e-6).astype(int).tolist(), np.floor(f + 1e-6).astype(int).tolist()


def forms_pix(k, p, pts, rng):
    """pts: Nx2 floats -> every form of to_pixel"""
    z = rng.choice([0.0, 7.5])
    out = [k(p.to_pixel, pts), k(p.to_pixel, np.c_[pts, np.full(len(pts), z)]), k(p.to_pixel, pts.tolist()), k(p.to_pixel, [tuple(r) + (z,) for r in pts.tolist()])]
    out.append(np.concatenate([k(p.to_pixel, tuple(r)) for r in pts.tolist()]))
    out.append(np.concatenate([k(p.to_pixel, np.array(list(r) + [z])) for r in pts.tolist()]))
    out.append(k(p.to_pixel, np.asfortranarray(pts)))
    if hasattr(p, "to_pixel_multipoint"):
        out.append(k(p.to_pixel_multipoint, pts.reshape(len(pts), 1, 2)).reshape(-1, 2))
    return out


def history(a, ops):
    rng = a.rng
    p, kind, box, size = None, None, None, (600, 600)
    for op in ops:
        what = op[0]
        k = Keep()
        try:
            if what == "new":
                kind, box = op[1], op[2] or [-1800, -900, 1800, 900]
                kw = {}
                if op[2]:
                    kw["bounding_box"] = boxarg(rng, op[2])
                if op[3]:
                    kw["image_size"] = sizearg(rng, op[3])
                size = op[3] or [600, 600]
                kw0 = copy.deepcopy(kw)
                p = KIND[kind](*kw.values()) if len(kw) == 2 and rng.random() < 0.5 else KIND[kind](**kw)
                a.rec.emit("new", kind=kind, box=op[2], size=op[3], same=repr(kw) == repr(kw0), **settings(p))
            elif what == "scale":
                box = op[1]
                size = op[2] or size
                b, s = boxarg(rng, op[1]), sizearg(rng, op[2])
                if s is None:
                    k(p.set_scale, b)
                else:
                    k(p.set_scale, b, s)
                a.rec.emit("scale", box=op[1], size=op[2], same=k.ok, **settings(p))
            elif what == "pix":
                w, h = box[2] - box[0], box[3] - box[1]
                m = []
                for _ in range(op[1]):
                    m.append([rng.choice([100 * box[0], 100 * box[2], 50 * (box[0] + box[2]), rng.randint(100 * (box[0] - w), 100 * (box[2] + w))]),
                              rng.choice([100 * box[1], 100 * box[3], 50 * (box[1] + box[3]), rng.randint(100 * (box[1] - h), 100 * (box[3] + h))])])
                if rng.random() < 0.15:
                    m = [[1000 * round(v / 1000) for v in r] for r in m]
                pts = np.array(m) / 1000
                out = forms_pix(k, p, pts, rng)
                if all(v % 1000 == 0 for r in m for v in r):
                    out.append(k(p.to_pixel, np.array(m) // 1000))
                ints = [k(p.to_pixel, f, asint=True) for f in (pts, pts.tolist(), np.c_[pts, np.ones(len(pts))])]
                ints.append(k(p.to_pixel_multipoint, pts, asint=True))
                lo, hi = floors(out[0])
                good = all(np.issubdtype(i.dtype, np.integer) and np.array_equal(i, ints[0]) for i in ints)
                back = k(p.to_lonlat, out[0].copy())
                a.rec.emit("pix", pts=m, forms=[q(o, 100) for o in out], ints=ints[0].tolist() if good else [], lo=lo, hi=hi, back=q(back, 1e6), same=k.ok)
            elif what == "deg":
                W, H = size
                m = [[rng.choice([0, 100 * W, rng.randint(-25 * W, 125 * W)]), rng.choice([0, 100 * H, rng.randint(-25 * H, 125 * H)])] for _ in range(op[1])]
                pix = np.array(m) / 100
                out = [k(p.to_lonlat, pix), k(p.to_lonlat, pix.tolist()), k(p.to_lonlat, [tuple(r) for r in pix.tolist()]),
                       np.array([k(p.to_lonlat, tuple(r)) for r in pix.tolist()]), np.array([k(p.to_lonlat, r.copy()) for r in pix]), k(p.to_lonlat, np.asfortranarray(pix))]
                cells = [[rng.randint(-W // 4, 5 * W // 4), rng.randint(-H // 4, 5 * H // 4)] for _ in range(op[1])]
                ci = np.array(cells, dtype=rng.choice([np.int32, np.int64]))
                mids = [k(p.to_lonlat, ci), k(p.to_lonlat, [tuple(r) for r in cells]), np.array([k(p.to_lonlat, tuple(r)) for r in cells])]
                good = all(np.allclose(o, mids[0], rtol=0, atol=1e-9) for o in mids)
                a.rec.emit("deg", pix=m, forms=[q(o, 1e6) for o in out], cells=cells, mid=q(mids[0], 1e6) if good else [], again=p.to_pixel(mids[0], asint=True).tolist(), same=k.ok)
            elif what == "rt":
                if op[1] == 0:
                    n = KIND[kind].deserialize(json.loads(json.dumps(p.serialize())))
                elif op[1] == 1:
                    n = copy.deepcopy(p)
                else:
                    n = KIND[kind](p.bounding_box, p.image_size)
                other = p != KIND[rng.choice([x for x in KIND if x != kind])](boxarg(rng, box), tuple(size))
                o = KIND[kind](boxarg(rng, box), (size[0] + 10, size[1]))
                other = other and p != o and not p == o and not p == "x"
                b2 = [v + 7 for v in box]
                other = other and p != KIND[kind](boxarg(rng, b2), tuple(size))
                fresh = KIND[kind](boxarg(rng, box), tuple(size))
                eq = bool(n == p) and not n != p and bool(p == fresh) and bool(fresh == n) and type(n) is KIND[kind]
                a.rec.emit("rt", eq=eq, other=bool(other), **settings(n))
                p = n
            elif what == "met":
                F = pj.FlatEarthProjection
                d = op[1]
                D = np.array([r[:3] for r in d], dtype=np.float64)
                ref = np.array([[rng.uniform(-180, 180), r[3], rng.uniform(0, 9)] for r in d])
                out = [k(F.meters_to_lonlat, D, ref), k(F.meters_to_lonlat, D.tolist(), ref.tolist()),
                       np.concatenate([k(F.meters_to_lonlat, tuple(x), tuple(r)) for x, r in zip(D, ref)])]
                two = [np.c_[k(F.meters_to_lonlat, np.ascontiguousarray(D[:, :2]), ref), D[:, 2]],
                       np.c_[np.concatenate([k(F.meters_to_lonlat, D[i, :2].copy(), ref[i, :2].copy()) for i in range(len(d))]), D[:, 2]]]
                if len(set(r[3] for r in d)) == 1:
                    two.append(k(F.meters_to_lonlat, D, ref[:1]))
                back = k(F.lonlat_to_meters, out[0], ref)
                deg = np.array([[(r[0] // 100) / 1000, (r[1] // 100) / 1000, r[2]] for r in d])
                inv = k(F.lonlat_to_meters, deg, ref)
                good = np.array_equal(inv[:, 2], deg[:, 2]) and np.allclose(np.concatenate([k(F.lonlat_to_meters, tuple(x), tuple(r)) for x, r in zip(deg, ref)]), inv, rtol=0, atol=1e-6)
                f3 = lambda o: [[fx(v[0], 1e6), fx(v[1], 1e6), fx(v[2], 1000)] for v in np.asarray(o).tolist()]
                a.rec.emit("met", d=d, deg=f3(out[0]), forms=[f3(o) for o in out + two], back=[[fx(v, 1000) for v in r] for r in back.tolist()],
                           inv=[[fx(v, 100) for v in r[:2]] for r in inv.tolist()] if good else [[NAN, NAN]] * len(d), same=k.ok)
            elif what == "circle":
                lon, lat, dist, bear = op[1:]
                g = pj.FlatEarthProjection.geodesic_sphere
                res = [k(g, lon, lat, dist * M1, bear), k(g, float(lon), float(lat), dist * M1, float(bear))]
                r = k(g, np.array([lon, lon + 1.0]), np.array([lat, lat]), np.array([dist * M1] * 2), np.array([bear, bear]))
                res += [(r[0][0], r[1][0]), (r[0][1] - 1, r[1][1])]
                out = []
                for x, y in res:
                    dl, y = math.radians(x - lon), math.radians(y)
                    out.append([fx(v, 1e6) for v in (math.sin(y), math.cos(y), math.sin(dl), math.cos(dl))])
                a.rec.emit("circle", lat=lat, dist=dist, bear=bear, res=out)
            elif what == "grid":
                x, y, dx, dy, n = op[1:]
                lon, lat = [x], [y]
                for v in dx:
                    lon.append(lon[-1] + v)
                for v in dy:
                    lat.append(lat[-1] + v)
                mk = rng.choice([list, tuple, np.array])
                p2 = k(pj.RectangularGridProjection, mk([v / 10 for v in lon]), mk([v / 10 for v in lat]))
                m = [[rng.choice([100 * rng.choice(lon), rng.randint(100 * lon[0] - 500, 100 * lon[-1] + 500)]),
                      rng.choice([100 * rng.choice(lat), rng.randint(100 * lat[0] - 500, 100 * lat[-1] + 500)])] for _ in range(n)]
                pts = np.array(m) / 1000
                out = forms_pix(k, p2, pts, rng)
                ints = k(p2.to_pixel, pts, asint=True)
                lo, hi = floors(out[0])
                nx, ny = len(lon) - 1, len(lat) - 1
                pm = [[rng.randint(-100, 100 * nx + 100), rng.randint(-100, 100 * ny + 100)] for _ in range(n)]
                cells = [[rng.randint(-1, nx + 1), rng.randint(-1, ny + 1)] for _ in range(n)]
                mid = k(p2.to_lonlat, np.array(cells))
                pixd = k(p2.to_lonlat, np.array(pm) / 100)
                one = np.concatenate([k(p2.to_lonlat, tuple(v / 100 for v in r)) for r in pm])
                good = np.allclose(one, pixd) and np.allclose(pixd, k(p2.to_lonlat, [[v / 100 for v in r] for r in pm])) and np.allclose(mid, k(p2.to_lonlat, cells))
                a.rec.emit("grid", lon=lon, lat=lat, pts=m, forms=[q(o, 100) for o in out], ints=ints.tolist(), lo=lo, hi=hi, pix=pm, pixd=q(pixd, 1000) if good else [],
                           cells=cells, mid=q(mid, 1000), same=k.ok)
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            a.rec.emit("failed", what=what, args=repr(op)[:300], exc=excname(e) + ": " + str(e)[:200])
            return


def main():
    a = args()
    for b in behaviours(a):
        a.rec.trace += 1
        a.rec.emit("begin")
        history(a, b)
    a.rec.close()


main()
