"""drives real OrderedCollections through call histories"""
from common import *
from gnome.utilities.orderedcollection import OrderedCollection
from gnome.movers import SimpleMover, RandomMover
from gnome.gnomeobject import GnomeId

a = args()
NONE9 = 9999


class Plain:
    pass


class WithId:
    def __init__(self, i):
        self.id = i


def make_pool(kind, names):
    if kind == "mover":       # objects that all compare equal to each other
        return {n: SimpleMover(velocity=(1, 0, 0)) for n in names}, SimpleMover
    if kind == "plain":
        return {n: Plain() for n in names}, Plain
    return {n: WithId("obj-" + n) for n in names}, WithId


SL = [(NONE9, NONE9, 1), (1, NONE9, 1), (NONE9, 2, 1), (0, 2, 1), (-2, NONE9, 1), (NONE9, -1, 1), (0, 20, 1),
      (NONE9, NONE9, 2), (NONE9, NONE9, -1), (3, 1, 1), (-1, -3, -1), (5, 9, 1), (-9, 9, 3)]


def observe(oc, pool, name_of, absent):
    ev = {}
    items = list(oc)
    ev["items"] = [name_of(x) for x in items]
    ev["size"] = ix(len(oc))
    ev["vals"] = [name_of(x) for x in oc.values()]
    ev["contains"] = [n for n, o in pool.items() if o in oc]

    def safe(f, bad):
        try:
            return f()
        except Exception as e:
            return bad
    ev["index"] = [safe(lambda: ix(oc.index(x)), -77) for x in items]
    ids = [oc._s_id(x) if not hasattr(x, "id") else str(x.id) for x in items]
    ev["indexid"] = [safe(lambda: ix(oc.index(i)), -77) for i in ids]
    ev["byid"] = [name_of(safe(lambda: oc[i], None)) for i in ids]
    ev["bypos"] = [name_of(safe(lambda: oc[k], None)) for k in range(len(items))]
    ev["byneg"] = [name_of(safe(lambda: oc[k - len(items)], None)) for k in range(len(items))]
    idmap = {i: name_of(x) for i, x in zip(ids, items)}
    ev["dict"] = [idmap.get(d["id"], "?") for d in oc.to_dict()]
    ev["slices"] = []
    for st, sp, step in SL:
        sl = slice(None if st == NONE9 else st, None if sp == NONE9 else sp, step)
        ev["slices"].append([st, sp, step, safe(lambda: [name_of(x) for x in oc[sl]], ["raised"])])
    ok = True
    for bad in ("no-such-id", len(items), -len(items) - 1):
        try:
            oc[bad]
            ok = False
        except (KeyError, IndexError):
            pass
    try:
        oc.index(absent)
        ok = False
    except ValueError:
        pass
    ok = ok and absent not in oc
    ev["absent"] = ok
    return ev


def idof(oc, o):
    return str(o.id) if hasattr(o, "id") else str(id(o))


def run(hist, kind, start, use_ops):
    rec = a.rec
    rec.trace += 1
    names = ["a", "b", "c", "d", "e"]
    pool, typ = make_pool(kind, names)
    rev = {id(o): n for n, o in pool.items()}
    absent = make_pool(kind, ["zz"])[0]["zz"]
    if kind == "id":
        absent.id = "obj-zz"

    def name_of(x):
        return rev.get(id(x), "?")
    fired, fired2 = [], []
    oc = OrderedCollection([pool[n] for n in start], dtype=typ)
    for ev in ("add", "remove", "replace"):
        oc.register_callback(lambda o, ev=ev: fired.append([ev, name_of(o)]), events=ev)
    oc.register_callback(lambda o: fired2.append(name_of(o)))
    rec.emit("init", es=list(start), fired=[], kind=kind, **observe(oc, pool, name_of, absent))
    for c in hist:
        del fired[:], fired2[:]
        exc = ""
        op = c["op"]
        try:
            if op == "add":
                if use_ops == 1:
                    oc += pool[c["e"]]
                elif use_ops == 2:
                    oc.append(pool[c["e"]])
                else:
                    oc.add(pool[c["e"]])
            elif op == "addall":
                oc.add([pool[x] for x in c["es"]])
            elif op == "update":
                oc.update([pool[x] for x in c["es"]])
            elif op == "remove_id":
                (oc.__delitem__ if use_ops else oc.remove)(idof(oc, pool[c["e"]]))
            elif op == "remove_at":
                (oc.__delitem__ if use_ops else oc.remove)(c["i"])
            elif op == "replace_id":
                (oc.__setitem__ if use_ops else oc.replace)(idof(oc, pool[c["e"]]), pool[c["n"]])
            elif op == "replace_at":
                (oc.__setitem__ if use_ops else oc.replace)(c["i"], pool[c["n"]])
            elif op == "clear":
                oc.clear()
            elif op == "remake":
                oc.remake()
        except Exception as e:
            exc = excname(e)
        f = list(fired)
        if [x[1] for x in fired] != fired2:
            f.append(["mismatch", "?"])
        rec.emit(exc=exc, fired=f, kind=kind, **dict(c), **observe(oc, pool, name_of, absent))


kinds = ["mover", "id", "plain"]
starts = [(), ("a", "b", "c"), ("b", "a", "d", "c", "e")]
for i, h in enumerate(behaviours(a)):
    run(h, kinds[(i // 3) % 3], starts[i % 3], i % 3)
a.rec.close()
