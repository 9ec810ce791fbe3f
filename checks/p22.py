"""P22: constraints on calibration solutions."""
MOD = [(k, 0) for k in (1, 2, 3, 4, 5, 6, 8, 10)] + [(0, k) for k in (1, 2, 3, 5)] + [(3, 4), (4, 3), (6, 8), (5, 12), (8, 6)]
MODES = ["diagonal", "diagonalamplitude", "diagonalphase", "scalar", "scalaramplitude", "scalarphase"]


def gint(r):
    x, y = r.choice(MOD)
    return [x * r.choice([1, -1]), y * r.choice([1, -1])]


def mod(v):
    return round((v[0] ** 2 + v[1] ** 2) ** .5)


def val(r, pnan, m=10):
    return [] if r.random() < pnan else [r.randrange(-m, m + 1), r.randrange(-m, m + 1)]


def solutions(r, cf, pnan, m=10):
    ns = sum(cf["sols"])
    pn = r.choice([0, pnan, pnan, .5])
    return [[[[val(r, pn, m) for _ in range(cf["npol"])] for _ in range(ns)] for _ in range(cf["nant"])] for _ in cf["freqs"]]


def diagonals(r, cf):
    while True:
        ns = sum(cf["sols"])
        wild = r.random() < .3
        bad = r.choice([0, 0, .2])
        out, ok = [], True
        for _ in cf["freqs"]:
            rows = [[None] * ns for _ in range(cf["nant"])]
            for s in range(ns):
                for a in range(cf["nant"]):
                    while True:
                        x = {"phi": r.randrange(-36, 37), "a": gint(r), "b": gint(r)}
                        if not wild:
                            x = {"phi": x["phi"], "a": r.choice([[3, 4], [5, 0], [4, -3], [0, 5], [8, 6], [4, 0]]),
                                 "b": r.choice([[3, 4], [5, 0], [-3, 4], [5, 12], [10, 0], [4, 0]])}
                        if x["a"][0] + x["b"][0] or x["a"][1] + x["b"][1]:
                            break
                    if r.random() < bad:
                        x = {"phi": 0, "a": [], "b": []}
                    rows[a][s] = x
                # exactly at the limit of what is accepted: rounding decides
                v = [rows[a][s] for a in range(cf["nant"]) if rows[a][s]["a"]]
                for k in ("a", "b"):
                    t = sum(mod(x[k]) for x in v)
                    if any(mod(x[k]) * len(v) == 5 * t or 5 * mod(x[k]) * len(v) == t for x in v):
                        ok = False
            out.append(rows)
        if ok:
            return out


def history(r, ev):
    ev.append({"op": "new"})
    t = r.choice(["antset", "antint", "amp", "leak", "rot", "rotdiag", "rotdiag", "smooth", "smooth"])
    nch = r.randrange(1, 5)
    cf = {"op": "make", "type": t, "nant": r.randrange(1, 6), "npol": r.choice([1, 2, 4]),
          "sols": [r.choice([1, 1, 2, 3, 4, 6]) for _ in range(r.randrange(1, 3))],
          "freqs": [12000 + 10 * k for k in range(nch)]}
    if t in ("leak", "rot", "rotdiag"):
        cf["npol"] = 4
    if t in ("rotdiag", "rot", "smooth"):
        cf["sols"] = [r.choice([1, 1, 2]) for _ in range(r.randrange(1, 3))]
    ok = True
    if t == "antset":
        left = list(range(cf["nant"]))
        r.shuffle(left)
        cf["sets"] = []
        while left and r.random() < .8:
            k = r.randrange(1, len(left) + 1)
            cf["sets"].append(left[:k])
            left = left[k:]
    elif t == "antint":
        mx = max(cf["sols"])
        cf["factors"] = [r.randrange(1, mx + 1) for _ in range(cf["nant"])]
        x = r.random()
        if x < .05:
            cf["factors"].append(1)
        elif x < .1:
            cf["factors"][-1] = 0
        elif x < .15:
            cf["factors"][0] = mx + 1
        ok = x >= .15
    elif t == "rotdiag":
        cf.update(mode=r.choice(MODES), ref=r.choice([0, 0, 1]))
    elif t == "smooth":
        n = r.randrange(1, 9)
        f, k = [], r.choice([4, 16, 40])
        for _ in range(n):
            f.append(k)
            k += r.choice([1, 2, 2, 3, 5, 12])
        cf["nant"] = r.randrange(1, 4)
        cf["npol"] = r.choice([1, 2])
        cf.update(freqs=f, bw=r.choice([6, 12, 24, 48, 3]), reff=0, exponent=0, trunc=r.choice([0, 1]),
                  af=[r.choice([[1, 1], [1, 2], [2, 1]]) for _ in range(cf["nant"])], dd=[])
        if r.random() < .4:
            cf["reff"] = r.choice(f + [32])
            cf["exponent"] = r.choice([-1, 0, 1])
            cf["bw"] = min(cf["bw"], 2 * cf["reff"] - 1, 24)
        if r.random() < .4:
            cf["dd"] = [r.choice([[1, 1], [1, 2], [2, 1]]) for _ in range(sum(cf["sols"]))]
            if r.random() < .1:
                cf["dd"].append([1, 1])
                ok = False
    ev.append(cf)
    if not ok:
        return
    ns = sum(cf["sols"])
    nw = cf["nant"] * len(cf["freqs"])
    wm = 2 if t == "smooth" else 50

    def weights(sub=False):
        def w():
            return [r.choice([0, 1, wm, r.randrange(0, wm + 1)]) for _ in range(nw)]
        ev.append({"op": "weights", "w": w(), "sub": [w() for _ in range(ns)] if sub else []})
    if t in ("smooth", "rotdiag") or r.random() < .5:
        weights()
    for _ in range(r.randrange(1, 4)):
        if r.random() < .3:
            weights(t == "smooth" and r.random() < .5)
        e = {"op": "apply", "scale": 500 if t == "smooth" else 1000}
        if t == "rotdiag":
            e.update(dr=diagonals(r, cf), bad=r.randrange(4))
        else:
            e["sol"] = solutions(r, cf, .15)
            if t == "rot" and r.random() < .5:
                # close to a rotation: real and imaginary parts only
                for x in e["sol"]:
                    for y in x:
                        for z in y:
                            k = r.randrange(-10, 11)
                            z[:] = [[r.randrange(-10, 11), 0], [-k, 0], [k, 0], [r.randrange(-10, 11), 0]]
        ev.append(e)


def kernels(r, ev):
    ev.append({"op": "new"})
    n = r.randrange(1, 9)
    f, k = [], r.randrange(0, 20)
    for _ in range(n):
        f.append(k)
        k += r.choice([1, 1, 2, 3, 6, 14])
    real = r.choice([0, 1])
    ev.append({"op": "kernel", "kernel": r.choice(["rect", "tri", "gauss", "epan", "epan"]), "freqs": f,
               "bw": r.choice([3, 6, 12, 24]), "trunc": r.choice([0, 1]), "real": real, "num": r.choice([1, 1, 2, 1]),
               "den": r.choice([1, 1, 1, 2]), "w": [r.choice([0, 1, 1, 2]) for _ in f],
               "d": [[[r.randrange(-20, 21), 0 if real else r.randrange(-20, 21)] for _ in f] for _ in range(r.randrange(1, 3))]})


SOURCES = ["ddecal/constraints/Constraint.cc", "ddecal/constraints/AntennaIntervalConstraint.cc",
           "ddecal/constraints/PolarizationLeakageConstraint.cc", "ddecal/constraints/RotationConstraint.cc",
           "ddecal/constraints/RotationAndDiagonalConstraint.cc", "ddecal/constraints/SmoothnessConstraint.cc",
           "base/CalType.cc", "common/StringTools.cc"]


def run(ctx):
    ctx.assumptions.append("xtensor, aocommon and schaapcommon are not installed: the constraint code of /repo is compiled, "
                           "unedited, against the stand-in headers in /verif/shim (see DESIGN.md)")
    b = ctx.build("constraints", ["constraints.cc"], SOURCES, shim=True)
    ev = []
    for _ in range(ctx.n(300, 5000)):
        history(ctx.rng, ev)
        kernels(ctx.rng, ev)
    ctx.conform(b, ev, "ConstraintsTrace")
