"""P05: parameter set histories."""
from vf import PARSET, chars
import parset_gen as g


def run(ctx):
    b = ctx.build("ps", ["parset.cc"], PARSET, shim=True)
    ops = ["add"] * 6 + ["replace"] * 4 + ["remove"] * 2 + ["get", "get", "getd", "geti", "def", "subset", "subset",
           "subtract", "adopt", "adopt", "args", "args", "text", "copy", "make", "clear", "write", "back"]
    ev = g.histories(ctx.rng, ctx.n(800, 6000), 16, ops)
    ev += g.histories(ctx.rng, ctx.n(300, 4000), 16, ops + ["look"] * 12 + ["mod"] * 3)
    # every type asked of every value, with and without default and expansion
    for v in g.LOOKVALS:
        ev.append({"op": "new", "nc": False})
        ev.append({"op": "args", "s": 1, "args": [chars("k=" + v)]})
        for t in g.TYPES + ["sizet"]:
            for vec in (False, True):
                for expand in (False, True):
                    for hasd in (False, True):
                        for k in ("k", "none"):
                            if (expand and not vec) or (t == "sizet" and (hasd or not vec)):
                                continue
                            d = {"bool": ["1"], "string": ["d"]}.get(t, ["21"]) * (2 if vec else 1)
                            ev.append({"op": "look", "s": 1, "k": chars(k), "type": t, "vec": vec, "hasd": hasd,
                                       "expand": expand, "ds": [chars(x) for x in d]})
    # module names
    for _ in range(ctx.n(150, 1500)):
        ev.append({"op": "new", "nc": ctx.rng.random() < 0.3})
        ev.append({"op": "args", "s": 1, "args": [chars(k + "=1") for k in ctx.rng.sample(g.MODKEYS, ctx.rng.randrange(1, 5))]})
        for _ in range(4):
            ev.append({"op": "mod", "s": 1, "full": ctx.rng.random() < 0.6, "k": chars(ctx.rng.choice(g.MODS))})
    ctx.conform(b, ev, "ParSetTrace.tla")
