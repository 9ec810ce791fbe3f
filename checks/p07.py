"""P07: one parameter set used by several threads."""
from vf import PARSET, chars, hist


def run(ctx):
    r = ctx.rng
    b = ctx.build("mt", ["parset_mt.cc"], PARSET, shim=True, san=False, opt="-O1",
                  flags=["-fsanitize=thread"])
    ev = []

    def op(o, k, v=""):
        return {"op": o, "k": chars(k), "v": chars(v)}
    shared = ["a.x", "a.y", "b", "c"]
    for n in range(ctx.n(220, 3000)):
        ths = []
        nt = r.choice([2, 2, 3])
        for t in range(nt):
            own = ["t%d.a" % t, "t%d.b" % t]
            l = []
            for _ in range(r.randrange(2, 5 if nt == 2 else 4)):
                o = r.choice(["get", "getd", "get", "subset", "unused", "write", "add", "args", "textadd", "remove",
                              "replace", "subtract", "has", "vec", "self"])
                if o in ("get", "getd", "has", "vec"):
                    l.append(op(o, r.choice(shared + own + ["zz", "n.k", "t0.a", "t1.b"]), "d"))
                elif o == "self":
                    l.append(op(o, "", "p."))
                elif o == "subset":
                    l.append(op(o, r.choice(["a.", "t0.", "", "t1."]), r.choice(["", "p"])))
                elif o == "subtract":
                    l.append(op(o, "t%d." % t))
                elif o in ("unused", "write"):
                    l.append(op(o, ""))
                else:
                    l.append(op(o, r.choice(own + ["n.k", "b", "t0.a"]), r.choice(["1", "v", "w"])))
            ths.append(l)
        ev.append({"op": "par", "nc": r.random() < 0.3, "pre": [[chars(k), chars("v" + k[-1])] for k in shared],
                   "threads": ths})
    # every pair of operations against each other
    names = ["get", "getd", "subset", "unused", "write", "add", "args", "textadd", "remove", "replace", "subtract", "has", "vec", "self", "over"]
    for x in names:
        for y in names:
            def mk(o, t):
                if o == "over":
                    return [op("replace", "a.x", "w"), op("remove", "b")]
                if o == "self":
                    return [op("self", "", "p.")]
                if o in ("get", "getd", "has", "vec"):
                    return [op(o, "a.x", "d"), op(o, "b", "d")]
                if o == "subset":
                    return [op(o, "a.")] * 2
                if o == "subtract":
                    return [op("add", "t%d.q" % t, "1"), op(o, "t%d." % t)]
                if o in ("unused", "write"):
                    return [op(o, "")] * 2
                return [op(o, "t%d.k" % t, "1"), op(o, "t%d.l" % t, "2")]
            ev.append({"op": "par", "nc": False, "pre": [[chars(k), chars("v")] for k in shared], "threads": [mk(x, 0), mk(y, 1)]})
    ctx.conform(b, hist(ev, 8), "ParSetConc.tla", deterministic=False)
