"""drives raster maps: line checks, whole models with land, queries, maps drawn from polygons.
Positions are recorded in micro-degrees; one raster cell is wx by wy micro-degrees."""
from common import *
from datetime import datetime, timedelta
import gnome
from gnome.model import Model
from gnome.maps import RasterMap, MapFromBNA
from gnome.movers.movers import Mover
from gnome.spills.spill import Spill
from gnome.spills.release import Release
from gnome.spill_container import SpillContainer
from gnome.basic_types import oil_status
from gnome.cy_gnome.cy_land_check import find_first_pixel
from gnome.utilities.projections import GeoProjection, FlatEarthProjection

a = args()
rng = a.rng
MU = 1000000
T0 = datetime(2021, 6, 1, 3, 0, 0)


def st(v):
    return {int(oil_status.in_water): 2, int(oil_status.on_land): 3, int(oil_status.off_maps): 7}.get(int(v), ix(v))


def els(sc):
    if "positions" not in sc.data_arrays:
        return []
    p, w = sc["positions"], sc["last_water_positions"]
    return [[ix(sc["id"][i]), st(sc["status_codes"][i]), fx(p[i, 0], MU), fx(p[i, 1], MU), fx(p[i, 2], 1000),
             fx(w[i, 0], MU), fx(w[i, 1], MU), fx(sc["mass"][i], 1000)] for i in range(len(p))]


def case(c, p, q):
    exc, hit, at, prev = "", False, [0, 0], [0, 0]
    try:
        r = find_first_pixel(np.array(c, dtype=np.uint8), tuple(p), tuple(q))
        if r is not None:
            hit = True
            prev, at = [[ix(v) for v in x] for x in r]
    except Exception as e:
        exc = excname(e)
    a.rec.trace += 1
    a.rec.emit("case", c=c, a=list(p), b=list(q), exc=exc, hit=hit, at=at, prev=prev)


def gen_raster(rng, m, n):
    c = [[0] * n for _ in range(m)]
    for _ in range(rng.choice([1, 2, 3, 6, 10])):
        kind = rng.choice(["dot", "box", "row", "col", "diag", "frame"])
        x, y = rng.randrange(m), rng.randrange(n)
        if kind == "dot":
            cells = [(x, y)]
        elif kind == "box":
            w, h = rng.randint(1, max(1, m // 4)), rng.randint(1, max(1, n // 4))
            cells = [(x + i, y + j) for i in range(w) for j in range(h)]
        elif kind == "row":
            cells = [(x + i, y) for i in range(rng.randint(2, m))]
        elif kind == "col":
            cells = [(x, y + i) for i in range(rng.randint(2, n))]
        elif kind == "diag":
            s = rng.choice([-1, 1])
            cells = [(x + i, y + s * i) for i in range(rng.randint(2, max(m, n)))]
        else:
            w, h = rng.randint(2, max(2, m // 2)), rng.randint(2, max(2, n // 2))
            cells = [(x + i, y + j) for i in range(w) for j in range(h) if i in (0, w - 1) or j in (0, h - 1)]
        for (i, j) in cells:
            if 0 <= i < m and 0 <= j < n:
                c[i][j] = 1
    return c


class MapCfg:
    def __init__(self, rng, hl=None):
        self.m, self.n = rng.choice([(5, 5), (7, 4), (16, 16), (17, 33), (20, 40), (33, 20), (40, 17)])
        self.c = gen_raster(rng, self.m, self.n)
        self.flat = rng.random() < 0.3
        self.wy = 1000
        self.wx = 2000 if self.flat else 1000
        if self.flat:        # longitude scaled by cos(60 degrees)
            self.cx, self.cy = rng.choice([0, -40 * MU, 30 * MU]), 60 * MU
        else:
            self.cx, self.cy = rng.choice([0, 12 * MU, -170 * MU]), rng.choice([0, 30 * MU, -45 * MU])
        # the origin on a multiple of a cell
        self.ox = self.cx - self.m * self.wx // 2
        self.oy = self.cy + self.n * self.wy // 2
        bb = ((self.ox / MU, (self.oy - self.n * self.wy) / MU), ((self.ox + self.m * self.wx) / MU, self.oy / MU))
        proj = (FlatEarthProjection if self.flat else GeoProjection)(bb, (self.m, self.n))
        d = rng.choice([None, 3, 12, -1])
        if d is None:
            self.bx = [-360 * MU, -90 * MU, 360 * MU, 90 * MU]
            bounds = None
        else:
            q = 0.5
            self.bx = [self.ox - d * self.wx, self.oy - self.n * self.wy - d * self.wy, self.ox + self.m * self.wx + d * self.wx, self.oy + d * self.wy]
            x0, y0, x1, y1 = [(v + q) / MU for v in self.bx]
            bounds = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        self.hl = hl if hl is not None else rng.choice([-1, -1, 0, 1, 1, 6])
        self.spill = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 2])):
                x, y = self.ox + rng.randint(0, self.m * self.wx // 2), self.oy - rng.randint(1, self.n * self.wy)
                self.spill.append([x, y, x + rng.randint(2000, 20000), y + rng.randint(2000, 20000)])
        sa = [[(x0 / MU, y0 / MU), (x1 / MU, y0 / MU), (x1 / MU, y1 / MU), (x0 / MU, y1 / MU)] for x0, y0, x1, y1 in
              [[v + 0.5 for v in s] for s in self.spill]] or None
        self.map = RasterMap(raster=np.array(self.c, dtype=np.uint8), projection=proj, refloat_halflife=self.hl,
                             map_bounds=bounds, spillable_area=sa)

    def dict(self):
        return dict(m=self.m, n=self.n, c=self.c, ox=self.ox, oy=self.oy, wx=self.wx, wy=self.wy, bx=self.bx, hl=self.hl, spill=self.spill)

    def pos(self, px, py, rng):
        """a position inside cell (px, py), away from the cell's edges"""
        return (self.ox + px * self.wx + rng.randint(self.wx // 10, self.wx * 9 // 10),
                self.oy - py * self.wy - rng.randint(self.wy // 10, self.wy * 9 // 10))


class PushMover(Mover):
    def __init__(self, mc, table, rng, log, **kw):
        super().__init__(**kw)
        self.mc, self.table, self.rng_, self.log, self.k = mc, table, rng, log, 0

    def get_move(self, sc, time_step, model_time):
        d = np.zeros_like(sc["positions"])
        req = []
        mc = self.mc
        e = els(sc)
        for i, x in enumerate(e):
            mv = [0, 0, 0]
            if x[1] == 2:
                t = self.table[x[0] % len(self.table)]
                dx, dy = t[(self.k + x[0] // len(self.table)) % len(t)]
                px, py = (x[2] - mc.ox) // mc.wx + dx, (mc.oy - x[3]) // mc.wy + dy
                nx, ny = mc.pos(px, py, self.rng_)
                if (dx, dy) == (0, 0):
                    nx, ny = x[2], x[3]
                mv = [nx - x[2], ny - x[3], self.rng_.choice([0, 0, 0, 1500, -2500])]
            d[i] = (mv[0] / MU, mv[1] / MU, mv[2] / 1000)
            req.append([x[0]] + mv)
        self.log["seen"].append(e)
        self.log["req"].append(req)
        return d

    def model_step_is_done(self, sc=None):
        pass


def model_run(rng, moves, uncertain):
    mc = MapCfg(rng)
    log = {}
    n = rng.choice([12, 25])
    locs = []
    for i in range(n):
        px, py = rng.randint(-3, mc.m + 2), rng.randint(-3, mc.n + 2)
        if rng.random() < 0.7:
            px, py = rng.randrange(mc.m), rng.randrange(mc.n)
        x, y = mc.pos(px, py, rng)
        locs.append((x / MU, y / MU, rng.choice([0, 0, 2])))
    m = Model(start_time=T0, time_step=timedelta(hours=1), duration=timedelta(hours=8), map=mc.map, uncertain=uncertain)
    big = max(mc.m, mc.n)
    table = []
    for h in moves:
        f = rng.choice([1, 1, 2, 4, big // 4 or 1, big // 2 or 1])
        table.append([(p[0] * f + (rng.randint(-f, f) if f > 2 else 0), p[1] * f + (rng.randint(-f, f) if f > 2 else 0)) for p in h])
    pm = PushMover(mc, table, rng, log)
    m.movers += pm
    m.spills += Spill(release=Release(custom_positions=locs, release_time=T0 + timedelta(hours=rng.choice([0, 0, 1])), num_elements=n), amount=rng.choice([10, 100]), units="kg")
    a.rec.trace += 1
    a.rec.emit("map", map=mc.dict())
    for k in range(8):
        log.update(seen=[], req=[])
        pm.k = k
        exc = ""
        try:
            m.step()
        except Exception as e:
            exc = excname(e)
            if os.environ.get("VERIF_DEBUG") == exc:
                traceback.print_exc()
        after = [els(s) for s in m.spills.items()]
        mb = [[fx(s.mass_balance.get("beached", 0), 1000), fx(s.mass_balance.get("off_maps", 0), 1000)] for s in m.spills.items()]
        seen, req = log["seen"], log["req"]
        while len(seen) < len(after):
            seen.append([])
            req.append([])
        a.rec.emit("mstep", exc=exc, seen=seen, req=req, after=after, mb=mb)
    queries(mc, rng)


def ask(mp, q):
    x, y = q
    c = (x / MU, y / MU, 0.0)
    return [x, y, bool(mp.on_land(c)), bool(mp.on_land_points(np.array([c, c]))[1]), bool(mp.in_water(c)), bool(mp.on_map(c)),
            bool(mp.allowable_spill_position(c))]


def queries(mc, rng):
    pts = []
    for _ in range(30):
        px, py = rng.randint(-8, mc.m + 8), rng.randint(-8, mc.n + 8)
        if rng.random() < 0.6:
            px, py = rng.randrange(mc.m), rng.randrange(mc.n)
        pts.append(mc.pos(px, py, rng))
    exc, q = "", []
    try:
        q = [ask(mc.map, p) for p in pts]
    except Exception as e:
        exc = excname(e)
    a.rec.emit("query", exc=exc, q=q)


def refl(rng, r):
    """a step of r half-lives on many beached elements"""
    N = 4000
    mp = RasterMap(raster=np.ones((4, 4), dtype=np.uint8), projection=GeoProjection(((0, 0), (4, 4)), (4, 4)), refloat_halflife=rng.choice([0.5, 1, 3]))
    sc = {"status_codes": np.full(N, oil_status.on_land, dtype=np.int16), "positions": np.zeros((N, 3)), "last_water_positions": np.ones((N, 3))}
    mp.refloat_elements(sc, mp.refloat_halflife * 3600 * r)
    a.rec.trace += 1
    fl = sc["status_codes"] == oil_status.in_water
    a.rec.emit("refl", n=N, k=ix(np.sum(fl & np.all(sc["positions"] == 1, axis=1))), r=r)


def bna(rng, i):
    W, H = rng.choice([(100, 60), (60, 90), (80, 80)])
    U = 10000
    x0, y0 = rng.choice([0, -50 * MU, 120 * MU]), rng.choice([0, 10 * MU])
    rects = [[x0, y0, x0 + 10 * U, y0 + 10 * U, 1], [x0 + (W - 10) * U, y0 + (H - 10) * U, x0 + W * U, y0 + H * U, 1]]
    for _ in range(rng.choice([1, 2, 3])):
        x, y = rng.randint(12, W - 30), rng.randint(12, H - 30)
        w, h = rng.randint(8, 16), rng.randint(8, 16)
        rects.append([x0 + x * U, y0 + y * U, x0 + (x + w) * U, y0 + (y + h) * U, 1])
        if rng.random() < 0.6:
            rects.append([x0 + (x + 2) * U, y0 + (y + 2) * U, x0 + (x + w - 2) * U, y0 + (y + h - 2) * U, 2])
    bx = [x0, y0, x0 + W * U, y0 + H * U]
    own = rng.choice([0, 1])
    if own:
        bx = [x0 - 20 * U, y0 - 10 * U, x0 + W * U + 5 * U, y0 + H * U + 30 * U]
    spill = []
    if rng.random() < 0.5:
        spill = [[x0 + 5 * U, y0 + 5 * U, x0 + W * U // 2, y0 + H * U // 2]]
    fn = os.path.join(a.scratch, "m%d.bna" % i)

    def poly(name, typ, r):
        pts = [(r[0], r[1]), (r[2], r[1]), (r[2], r[3]), (r[0], r[3]), (r[0], r[1])]
        return '"%s","%s",%d\n' % (name, typ, len(pts)) + "".join("%.7f, %.7f\n" % (px / MU, py / MU) for px, py in pts)
    with open(fn, "w") as f:
        if own:
            f.write(poly("Map Bounds", "1", bx))
        for s in spill:
            f.write(poly("SpillableArea", "1", s))
        for k, r in enumerate(rects):
            f.write(poly("%d" % (k + 1) if False else "Another Name", str(r[4]), r))
    exc, q = "", []
    try:
        mp = MapFromBNA(fn, raster_size=256 * 256)
        if rng.random() < 0.4:
            mp.raster_size = 200 * 200
        pts = []
        for _ in range(60):
            if rng.random() < 0.6:
                r = rng.choice(rects)
                pts.append((rng.randint(r[0], r[2]), rng.randint(r[1], r[3])))
            else:
                pts.append((rng.randint(bx[0] - 5 * U, bx[2] + 5 * U), rng.randint(bx[1] - 5 * U, bx[3] + 5 * U)))
        q = [ask(mp, p) for p in pts]
    except Exception as e:
        exc = excname(e)
        if os.environ.get("VERIF_DEBUG") == exc:
            traceback.print_exc()
    a.rec.trace += 1
    a.rec.emit("bna", exc=exc, rects=rects, bx=bx, spill=spill, q=q, tol=2 * U)


beh = list(behaviours(a, 0))
for b in beh:
    case(b["c"], b["a"], b["b"])
for k in range(800 if a.thorough else 150):
    m, n = rng.randint(2, 40), rng.randint(2, 40)
    c = gen_raster(rng, m, n)
    for _ in range(4):
        case(c, (rng.randint(-9, m + 9), rng.randint(-9, n + 9)), (rng.randint(-9, m + 9), rng.randint(-9, n + 9)))
moves = list(behaviours(a, 1))
for k in range(60 if a.thorough else 8):
    gnome.utilities.rand.seed(k)
    model_run(rng, rng.sample(moves, min(len(moves), 9)), rng.random() < 0.3)
for k in range(20 if a.thorough else 4):
    bna(rng, k)
for r in (1, 2, 3):
    refl(rng, r)
a.rec.close()
