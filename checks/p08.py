"""P08: data requirements of a chain of steps."""
import itertools
F = ["data", "flags", "weights", "uvw"]


def subsets():
    for m in range(16):
        yield [F[k] for k in range(4) if m >> k & 1]


def run(ctx):
    ctx.model("FieldsMC.tla")
    b = ctx.build("fields", ["fields.cc"], ["common/Fields.cc"])
    S = list(subsets())
    ev = []
    # every (needed after, required, provided) combination: 16^3
    for after in S:
        for req in S:
            for prov in S:
                ev += [{"op": "new"}, {"op": "step", "req": after, "prov": []},
                       {"op": "step", "req": req, "prov": prov}]
    for a, c in itertools.product(S, S):
        ev += [{"op": "new"}, {"op": "step", "req": a, "prov": []},
               {"op": "or", "req": c}, {"op": "eq", "a": a, "b": c}]
    for _ in range(ctx.n(300, 5000)):
        ev.append({"op": "new"})
        for _ in range(ctx.rng.randrange(2, 9)):
            ev.append({"op": "step", "req": ctx.rng.choice(S), "prov": ctx.rng.choice(S)})
            if ctx.rng.random() < .3:
                ev.append({"op": "or", "req": ctx.rng.choice(S)})
    ctx.conform(b, ev, "FieldsTrace.tla")
