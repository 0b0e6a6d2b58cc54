"""replays time-conversion histories in the real code: gnome.utilities.time_utils / inf_datetime and the native CyDateTime"""
import os, time, copy
from datetime import datetime, timedelta
from common import *
import cftime
from gnome import basic_types
from gnome.utilities import time_utils as tu
from gnome.utilities import inf_datetime as infd
from gnome.cy_gnome import cy_helpers

# zones with one standard offset throughout, given by rule (no zone data needed), west and east, with and without
# summer time, northern and southern, whole and half hours
ZONES = ["UTC0", "PST8PDT,M3.2.0,M11.1.0", "EST5EDT,M3.2.0,M11.1.0", "AKST9AKDT,M3.2.0,M11.1.0", "HST10",
         "CET-1CEST,M3.5.0,M10.5.0/3", "GMT0BST,M3.5.0/1,M10.5.0", "NZST-12NZDT,M9.5.0,M4.1.0/3",
         "AEST-10AEDT,M10.1.0,M4.1.0/3", "IST-5:30", "NST3:30NDT,M3.2.0,M11.1.0", "<+14>-14", "<-12>12"]
CY = cy_helpers.CyDateTime()
INF, MINF = 2147483000, -2147483000
EPOCH = datetime(1970, 1, 1)


def civ(d):
    try:
        return [int(d.year), int(d.month), int(d.day), int(d.hour), int(d.minute), int(d.second)] + ([int(d.microsecond)] if d.microsecond else [])
    except Exception:
        return [repr(type(d))]


def civ64(x):
    return civ(np.datetime64(x, "s").astype(datetime))


def sec(x):
    v = float(x)
    return int(v) if v == int(v) else NAN


def rec(d):
    r = np.zeros((1,), dtype=basic_types.date_rec)
    for k in ("year", "month", "day", "hour", "minute", "second"):
        r[k] = getattr(d, k)
    return r


def conv(a, d):
    secs = [sec(tu.date_to_sec(d)), sec(tu.date_to_sec(np.datetime64(d, "s"))), sec(tu.date_to_sec([d])[0]),
            sec(tu.date_to_sec(cftime.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second))),
            sec(tu.date_to_sec(np.array([d], dtype="datetime64[s]"))[0])]
    s = tu.date_to_sec(d)
    keep = [s, int(s), np.uint32(s), [int(s)], np.array([s], dtype=np.uint32)]
    before = copy.deepcopy(keep)
    back = [civ(tu.sec_to_date(x)) for x in keep] + [civ(tu.sec_to_datetime(int(s))), civ(tu.sec_to_datetime(float(s)))]
    same = all(np.array_equal(x, y) for x, y in zip(keep, before))
    nr = CY.SecondsToDate(int(s))
    r = rec(d)
    r0 = r.copy()
    ns = CY.DateToSeconds(r)
    a.rec.emit("conv", c=civ(d), secs=secs, back=back, nback=[[int(nr[k]) for k in ("year", "month", "day", "hour", "minute", "second")]],
               nsecs=[sec(ns)], same=bool(same and np.array_equal(r, r0)))


def arr(a, ds, form):
    x = [list(ds), np.array(ds, dtype="datetime64[s]"), tuple(ds), np.array(ds, dtype=object)][form]
    x0 = copy.deepcopy(x)
    s = tu.date_to_sec(x)
    same = bool(np.array_equal(np.asarray(x), np.asarray(x0)) and type(x) is type(x0))
    y = [s, s.tolist(), s.astype(np.int64), s.astype(float)][form]
    y0 = copy.deepcopy(y)
    b = tu.sec_to_date(y)
    same = same and bool(np.array_equal(np.asarray(y), np.asarray(y0)))
    back = [civ(b)] if isinstance(b, datetime) else [civ64(v) for v in b]
    a.rec.emit("arr", cs=[civ(d) for d in ds], secs=[sec(v) for v in np.atleast_1d(s)], back=back, same=same)


def rnd(a, ds, to, form):
    x = [ds if len(ds) > 1 else ds[0], np.array(ds, dtype="datetime64[s]"), np.array(ds, dtype=object)][form]
    x0 = copy.deepcopy(x)
    r = tu.round_time(x, roundTo=to)
    same = bool(np.array_equal(np.asarray(x), np.asarray(x0)))
    res = [civ(r)] if isinstance(r, datetime) else [civ64(v) for v in np.atleast_1d(r)]
    a.rec.emit("round", cs=[civ(d) for d in ds], to=to, res=res, same=same)


def tzoff(a, m, form):
    off = [m / 60, timedelta(minutes=m), str(m / 60)][form]
    t = tu.TZOffset(offset=off)
    t2 = tu.TZOffset(offset=t.offset, title="x")
    td = t.as_timedelta()
    a.rec.emit("tzoff", min=m, td=fx(td.total_seconds()) if td == t2.as_timedelta() else NAN, iso=t2.as_iso_string(), title=t.title)


def asdt(a, d, form):
    t = [d.isoformat(), d.strftime("%Y-%m-%d %H:%M:%S"), d.isoformat() + "-08:00"][form]
    keeps = tu.asdatetime(d) is d and tu.asdatetime(None) is None
    a.rec.emit("asdt", c=civ(d), res=civ(tu.asdatetime(t)), keeps=bool(keeps))


def inf(a, kinds, cs):
    pts, code = [], []
    for i, k in enumerate(kinds):
        if k == 0:
            pts.append([infd.InfTime(), infd.InfDateTime("inf")][i % 2]); code.append(INF)
        elif k == 1:
            pts.append([infd.MinusInfTime(), infd.InfDateTime("-inf")][i % 2]); code.append(MINF)
        else:
            d = datetime(*cs[i])
            pts.append(d if i % 2 or d > infd.max_datetime else infd.InfDateTime(*cs[i])); code.append(int((d - EPOCH).total_seconds()))
    back = lambda x: INF if isinstance(x, infd.InfTime) else MINF if isinstance(x, infd.MinusInfTime) else int((x - EPOCH).total_seconds())
    rel = [[dict(lt=bool(x < y), le=bool(x <= y), eq=bool(x == y), ne=bool(x != y), gt=bool(x > y), ge=bool(x >= y)) for y in pts] for x in pts]
    neg = [back(-x) if not isinstance(x, datetime) else code[i] for i, x in enumerate(pts)]
    iso = [x.isoformat() if not isinstance(x, datetime) else "date" for x in pts]
    a.rec.emit("inf", pts=code, rel=rel, sorted=[back(x) for x in sorted(pts)], min=back(min(pts)), max=back(max(pts)), neg=neg, iso=iso)


def ctor(a, c):
    exc, got = "", []
    try:
        got = civ(infd.InfDateTime(*c))
    except ValueError as e:
        exc = excname(e)
    s = int((datetime(*c) - EPOCH).total_seconds())
    a.rec.emit("ctor", c=c, s=min(s, INF - 1), got=got, exc=exc)


def main():
    a = args()
    for b in behaviours(a):
        a.rec.trace += 1
        for op in b:
            try:
                if op[0] == "zone":
                    os.environ["TZ"] = ZONES[op[1]]
                    time.tzset()
                    a.rec.emit("zone", tz=ZONES[op[1]])
                elif op[0] == "conv":
                    conv(a, datetime(*op[1]))
                elif op[0] == "arr":
                    arr(a, [datetime(*c) for c in op[1]], op[2])
                elif op[0] == "round":
                    rnd(a, [datetime(*c) for c in op[1]], op[2], op[3])
                elif op[0] == "tzoff":
                    tzoff(a, op[1], op[2])
                elif op[0] == "asdt":
                    asdt(a, datetime(*op[1]), op[2])
                elif op[0] == "inf":
                    inf(a, op[1], op[2])
                elif op[0] == "ctor":
                    ctor(a, op[1])
            except Exception as e:
                a.rec.emit("failed", what=op[0], args=repr(op)[:200], exc=excname(e) + ": " + str(e)[:200])
    a.rec.close()


main()
