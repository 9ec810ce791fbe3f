"""P20: buffers are values."""
import itertools


FIELDS = ["data", "flags", "weights", "uvw"]


def fields(r):
    return [f for f in FIELDS if r.random() < .6]


def vis(r):
    return r.randrange(-99, 100) + 1000 * r.randrange(-9, 10)


def regular(r, ev, length):
    ev.append({"op": "new"})
    names = {}          # handle -> set of extra names
    size = {}           # handle, name -> number of elements

    def arr(s=None, kind="d"):
        s = s or [r.randrange(1, 3), r.randrange(1, 3), r.randrange(1, 3)]
        n = 1
        for x in s:
            n *= x
        g = {"d": lambda: vis(r), "f": lambda: r.randrange(2), "w": lambda: r.randrange(9), "u": lambda: r.randrange(-50, 50)}[kind]
        return {"s": s, "v": [g() for _ in range(n)]}

    def add(**e):
        e["kind"] = "reg"
        ev.append(e)
    for _ in range(length):
        live = sorted(names)
        if not live or r.random() < .12:
            h = r.randrange(1, 5)
            add(op="make", h=h, t=r.randrange(1000), exp=r.randrange(20))
            names[h] = {"": 0}
            continue
        h, g = r.choice(live), r.choice(live)
        o = r.choice(["set", "set", "set", "time", "rows", "add", "shapeadd", "remove", "copyctor", "copyfields", "movector", "assign",
                      "moveassign", "copy", "copy", "copydata", "copydata", "movedata", "take", "poke", "poke", "solve", "nodata"])
        if o == "set":
            f = r.choice(["data", "data", "flags", "weights", "uvw"])
            if f == "data":
                n = r.choice(sorted(names[h]))
                a = arr()
                names[h][n] = len(a["v"])
                add(op=o, h=h, field=f, name=n, a=a)
            else:
                add(op=o, h=h, field=f, name="", a=arr([r.randrange(1, 4), 3], "u") if f == "uvw" else arr(None, "f" if f == "flags" else "w"))
        elif o == "time":
            add(op=o, h=h, t=r.randrange(1000), exp=r.randrange(20))
        elif o == "rows":
            add(op=o, h=h, rows=[r.randrange(100) for _ in range(r.randrange(0, 4))])
        elif o in ("add", "shapeadd"):
            free = [n for n in "abc" if n not in names[h]]
            if free:
                n = r.choice(free)
                a = arr()
                names[h][n] = len(a["v"]) if o == "add" else names[h][""]
                add(op=o, h=h, name=n, **({"a": a} if o == "add" else {}))
        elif o == "remove":
            n = r.choice(["", "a", "b", "c"])
            add(op=o, h=h, name=n)
            if n == "":
                names[h] = {"": names[h][""]}
            else:
                names[h].pop(n, None)
        elif o == "copyctor":
            g = r.randrange(1, 5)
            if g != h:
                add(op=o, h=h, g=g)
                names[g] = dict(names[h])
        elif o == "copyfields":
            g = r.randrange(1, 5)
            if g != h:
                f = fields(r)
                add(op=o, h=h, g=g, fields=f)
                names[g] = {"": names[h][""] if "data" in f else 0}
        elif o in ("movector", "moveassign"):
            if o == "movector":
                g = r.randrange(1, 5)
            if g == h:
                if o == "movector":
                    continue
                add(op=o, h=h, g=g)
                continue
            add(op=o, h=h, g=g)
            names[g] = names.pop(h)
        elif o == "assign":
            add(op=o, h=h, g=g)
            names[g] = dict(names[h])
        elif o == "copy":
            f, x = fields(r), r.random() < .5
            add(op=o, h=h, g=g, fields=f, extra=x)
            if g != h:
                old = names[g]
                names[g] = dict(names[h] if x else old)
                names[g][""] = names[h][""] if "data" in f else old[""]
        elif o in ("copydata", "movedata"):
            s, t = r.choice(sorted(names[h])), r.choice("abc")
            if o == "movedata" and g == h and s == t:
                continue
            e = {"op": o, "h": h, "g": g, "src": s, "tgt": t}
            n = names[h][s]
            if o == "movedata":
                if s == "":
                    e["a"] = arr()
                    names[h][""] = len(e["a"]["v"])
                else:
                    names[h].pop(s)
            names[g][t] = n
            add(**e)
        elif o == "take":
            a = arr()
            add(op=o, h=h, a=a, aw=arr(None, "w"))
            names[h][""] = len(a["v"])
        elif o == "poke":
            n = r.choice(sorted(names[h]))
            if names[h][n]:
                add(op=o, h=h, name=n, k=r.randrange(names[h][n]), v=vis(r))
        elif o == "solve":
            dirs = r.sample(["da", "db", "dc"], r.randrange(1, 4))
            na, np, nc = r.randrange(1, 4), r.choice([1, 2, 4]), r.randrange(1, 3)
            add(op=o, h=h, dirs=dirs, nant=na, npol=np, sol=[[vis(r) for _ in range(na * np * len(dirs))] for _ in range(nc)])
        elif o == "nodata":
            add(op=o, h=h)


def bda(r, ev, length):
    ev.append({"op": "new"})
    rows, cap, names, now = {}, {}, {}, {}

    def add(**e):
        e["kind"] = "bda"
        ev.append(e)
    for _ in range(length):
        live = sorted(rows)
        if not live or r.random() < .1:
            h = r.randrange(1, 4)
            f = fields(r) if r.random() < .7 else []
            cap[h] = r.choice([1, 4, 12, 12, 30, 60])
            add(op="bmake", h=h, cap=cap[h], fields=f)
            rows[h], names[h], now[h] = [], set([""] if "data" in f else []), r.randrange(0, 50)
            continue
        h, g = r.choice(live), r.choice(live)
        o = r.choice(["row"] * 6 + ["clear", "badd", "bremove", "bmove", "bcopy", "bcopy", "bfill", "bfill", "bfill", "same"])
        if o == "row":
            nch, nc = r.randrange(1, 4), r.choice([1, 2, 4])
            n = nch * nc
            i = r.choice([1, 2, 3, 4])
            t = now[h] + r.choice([0, 0, 1, 2, 3, -1, -2, -4])
            e = {"op": o, "h": h, "t": 2 * t + i, "int": i, "exp": r.randrange(1, 5), "bl": r.randrange(9), "nch": nch, "nc": nc,
                 "nr": r.randrange(1000), "d": [vis(r) for _ in range(n)] if r.random() < .8 else [],
                 "f": [r.randrange(2) for _ in range(n)] if r.random() < .8 else [],
                 "w": [r.randrange(9) for _ in range(n)] if r.random() < .8 else [],
                 "uvw": [r.randrange(-99, 99) for _ in range(3)] if r.random() < .8 else []}
            if r.random() < .2 and h > 1 and rows.get(1):
                e["t"], e["int"] = rows[1][-1][1:3]
            add(**e)
            bad = rows[h] and e["t"] + e["int"] <= rows[h][-1][1] - rows[h][-1][2]
            if not bad and sum(x[0] for x in rows[h]) + n <= cap[h]:
                rows[h].append((n, e["t"], e["int"]))
                now[h] = t
        elif o == "clear":
            add(op=o, h=h)
            rows[h] = []
        elif o == "badd":
            n = r.choice(["", "a", "b", "c"])
            add(op=o, h=h, name=n)
            names[h].add(n)
        elif o == "bremove":
            n = r.choice(["", "a", "b", "c"])
            add(op=o, h=h, name=n)
            names[h].discard(n)
        elif o == "bmove":
            if not names[h]:
                continue
            s, t = r.choice(sorted(names[h])), r.choice(["", "a", "b", "c"])
            # a buffer can only take over data laid out like its own
            if [x[0] for x in rows[h]] != [x[0] for x in rows[g]]:
                continue
            add(op=o, h=h, g=g, src=s, tgt=t)
            if (g, t) != (h, s):
                names[h].discard(s)
                names[g].add(t)
        elif o == "bcopy":
            g = r.randrange(1, 4)
            if not rows[h]:
                continue
            f = fields(r)
            add(op=o, h=h, g=g, fields=f)
            rows[g] = list(rows[h])
            names[g] = set(names[h]) | {""} if "data" in f else set()
            now[g] = now[h]
            cap[g] = sum(x[0] for x in rows[h])
        elif o == "bfill":
            if not rows[h]:
                continue
            k = r.randrange(len(rows[h]))
            n = rows[h][k][0]
            add(op=o, h=h, k=k, name=r.choice(["", "a", "b", "c"]), d=[vis(r) for _ in range(n)],
                f=[r.randrange(2) for _ in range(n)], w=[r.randrange(9) for _ in range(n)])
        elif o == "same":
            add(op=o, h=h, g=g)


def run(ctx):
    ctx.assumptions.append("xtensor and casacore arrays are the stand-ins of /verif/shim")
    b = ctx.build("buffers", ["buffers.cc"], ["base/DPBuffer.cc", "base/BdaBuffer.cc", "common/Fields.cc"], shim=True)
    r = ctx.rng
    ev = []
    for _ in range(ctx.n(150, 3000)):
        regular(r, ev, r.randrange(3, 25))
        bda(r, ev, r.randrange(3, 25))
    ctx.conform(b, ev, "BuffersTrace")
