"""P23: fits of phase models (TEC, offset, delay and piecewise lines)."""
NAN = 99999
GRID = ("TecOffsetDelayGridSearch with include_b=false over less than an octave (121-193 MHz, 3 wraps): the grid is too coarse, "
        "so the documented guarantee to find the global minimum of noise-free data fails")
IRREGULAR = ("TecOffsetDelayGridSearch over irregular frequencies (110, 118, 119, 124, ..., 183 MHz, 2 wraps): the documented "
             "guarantee to find the global minimum of noise-free data fails")
OFFSET = ("TecOffsetDelayGridSearch with include_b=true over regular channels (111, 117, ..., 183 MHz, 2 wraps): the documented "
          "guarantee to find the global minimum of noise-free data fails")
SOURCES = ["base/PhaseFitter.cc", "ddecal/constraints/Constraint.cc", "ddecal/constraints/TecConstraint.cc",
           "ddecal/constraints/TecOffsetDelayConstraint.cc", "ddecal/constraints/TecOffsetDelayFitting.cc"]


def wrap(p):
    return (p + 1800) % 3600 - 1800


def model(m, nu):
    return wrap(round(m[0] / nu + m[1] + m[2] * nu / 1000))


def band(r, n=None, low=(30, 200), span=None):
    n = n or r.randrange(8, 24)
    f0 = r.randrange(*low)
    w = span or r.randrange(52, 90)
    f = sorted(r.sample(range(f0, f0 + w), n - 2) + [f0 - 1, f0 + w]) if r.random() < .5 else \
        [f0 + k * max(1, w // (n - 1)) for k in range(n)]
    return sorted(set(f))


def weights(r, n, frac=2):
    k = r.choice([0, 0, 1, 2, 3])
    if k == 0:
        return [frac] * n
    if k == 1:
        return [r.randrange(1, 6) for _ in range(n)]
    if k == 2:
        return [r.choice([0, 1, 2, 3]) for _ in range(n)]
    if r.random() < .2:
        return [0] * n
    return [1 if r.random() < .8 else 0 for _ in range(n)]


def alpha(r, top=22000000):
    return r.choice([0, r.randrange(-top, top + 1), r.randrange(-top // 4, top // 4 + 1), r.randrange(-100000, 100000)])


def junked(r, p, w):
    """Channels without weight may hold anything."""
    return [r.randrange(-1800, 1800) if k == 0 and r.random() < .7 else q for q, k in zip(p, w)]


def fitter(r, ev):
    ev.append({"op": "new"})
    f = []
    fw = []
    for _ in range(r.randrange(1, 5)):
        if not f or r.random() < .3:
            f = band(r, low=(100, 150))
            ev.append({"op": "init", "freqs": f})
            fw = [2] * len(f)
        n = len(f)
        keep = r.random() < .3
        w = fw if keep else weights(r, n)
        fw = w
        if r.random() < .2:
            fw = w
            ev.append({"op": "cost", "set": [r.randrange(-1800, 1800) for _ in f], "w": w,
                       "a": alpha(r, 1000000), "b": r.randrange(-1800, 1800)})
            continue
        two = r.random() < .5
        m = [alpha(r), r.randrange(-1800, 1800) if two else 0, 0]
        p = junked(r, [model(m, nu) for nu in f], w)
        ev.append({"op": "fit2" if two else "fit1", "set": p, "w": [] if keep else w, "model": m,
                   "junk": r.choice(["", "nan", "big"])})


def lines(r, ev):
    ev.append({"op": "new"})
    for _ in range(r.randrange(1, 4)):
        n = r.randrange(1, 20)
        chunk = r.choice([0, 1, 2, 3, 4, 5, 8, n, n + 3])
        f0 = r.randrange(30, 200)
        f = [f0]
        for _ in range(n - 1):
            f.append(f[-1] + r.choice([1, 1, 1, 2]))
        k = max(2, min(chunk, n))
        most = 1500 // (2 * k)
        s = r.randrange(-most, most + 1)
        b = r.randrange(-1800, 1800)
        w = [r.randrange(1, 5) for _ in f]
        if r.random() < .3:
            w = [0 if r.random() < .5 else q for q in w]
        kind = r.choice(["piece", "wpiece", "slide", "wslide", "break"])
        if kind in ("wpiece", "wslide", "break") and chunk > 1 and any(w) is False:
            w = [1] * n
        ev.append({"op": "line", "kind": kind, "freqs": f, "in": [wrap(b + s * (x - f0)) for x in f], "w": w,
                   "wdiv": r.choice([1, 2, 4, 100]), "chunk": chunk})
    for _ in range(r.randrange(3)):
        ev.append({"op": "median", "wdiv": r.choice([1, 1, 4, 10]),
                   "v": [[r.randrange(-6, 7), r.choice([0, 1, 1, 2, 3, 10])] for _ in range(r.randrange(0, 8))]})


def delays(r, f, wraps):
    """A model within the range that the grid search covers."""
    x = wraps * 3600 * .7
    ta, tc = r.uniform(-x, x) / 2, r.uniform(-x, x) / 2
    a = round(ta / (1 / f[0] - 1 / f[-1]))
    c = round(tc / (f[-1] - f[0]) * 1000)
    if r.random() < .6:
        # close to where the search starts from
        k = [r.randrange(-2 * wraps, 2 * wraps + 1) + r.uniform(-.12, .12) for _ in range(2)]
        a = round(k[0] * 1800 * f[0] * f[-1] / (f[-1] - f[0]))
        c = round(k[1] * 1800000 / (f[-1] - f[0]))
    return a, c


def delay_band(r, ph):
    n = r.randrange(8, 14)
    if r.random() < .15:
        return band(r, n=n, low=(100, 150))
    if ph == 0:
        lo = r.randrange(30, 70)
        d = (lo * 12 // 10) // (n - 1) + r.randrange(1, 4)
    else:
        lo = r.randrange(30, 150)
        d = r.randrange(50 // (n - 1) + 1, 100 // (n - 1) + 2)
    return [lo + d * k for k in range(n)]


def grids(r, ev):
    ev.append({"op": "new"})
    wraps = r.randrange(1, 4)
    ph = r.randrange(2)
    f = delay_band(r, ph)
    a, c = delays(r, f, wraps)
    m = [a, r.randrange(-1800, 1800) if ph else 0, c]
    w = [r.randrange(1, 5) for _ in f] if r.random() < .7 else weights(r, len(f))
    if not any(w):
        w = [1] * len(f)
    ev.append({"op": "grid", "freqs": f, "in": junked(r, [model(m, nu) for nu in f], w), "w": w, "phase": ph,
               "wraps": wraps, "mises": r.randrange(2), "model": m})


def noisy(r, ev):
    """Data that follow no model: no small change of the parameters may improve the fit."""
    ev.append({"op": "new"})
    how = r.choice(["grid", "line", "gradient"])
    ph = 1 if how == "gradient" else r.randrange(2)
    f = delay_band(r, 0)
    wraps = 1
    a, c = delays(r, f, wraps) if how == "grid" else (0, 0)
    m = [a, r.randrange(-500, 500) if ph else 0, c]
    y = [model(m, nu) for nu in f]
    big = r.choice([100, 300])
    y = [wrap(q + r.randrange(-big, big)) for q in y]
    if r.random() < .7:
        k = r.randrange(len(f))
        y[k] = wrap(y[k] + r.choice([-800, 700, 900]))
    ev.append({"op": "grid", "freqs": f, "in": y, "w": [r.randrange(1, 5) for _ in f], "phase": ph, "wraps": wraps,
               "mises": 1 if how == "gradient" else r.randrange(2), "model": m, "how": how, "noise": 1})


def bent(r, ev):
    ev.append({"op": "new"})
    for _ in range(r.randrange(1, 4)):
        n = r.randrange(1, 16)
        f = [r.randrange(30, 200)]
        for _ in range(n - 1):
            f.append(f[-1] + r.choice([1, 1, 1, 2]))
        mid = r.randrange(-1800, 1800)
        s = r.randrange(-5, 6)
        e = {"op": "line", "kind": r.choice(["piece", "wpiece", "slide", "wslide"]), "freqs": f, "mid": mid,
             "in": [wrap(mid + s * (k - n // 2) + r.randrange(-60, 61)) for k in range(n)], "wdiv": r.choice([1, 2, 4]),
             "w": [r.choice([0, 1, 1, 2, 3]) for _ in f], "chunk": r.choice([0, 1, 2, 3, 4, 5, 8, 10])}
        ev.append(e)


def constraint(r, ev):
    ev.append({"op": "new"})
    t = r.choice(["tec", "tec", "approx", "approx", "delay"])
    cf = {"op": "make", "type": t, "phase": r.randrange(2), "nant": r.randrange(1, 4), "ref": r.randrange(2),
          "sols": [r.choice([1, 1, 2]) for _ in range(r.randrange(1, 3))], "need": 8, "span": 50, "smooth": 0,
          "iters": r.randrange(0, 4), "chunk": r.choice([0, 2, 3, 4, 6]), "wraps": r.randrange(1, 3)}
    if t == "delay":
        cf["nant"] = min(cf["nant"], 2)
    f = cf["freqs"] = band(r, n=r.randrange(8, 14) if t == "delay" else None, low=(100, 150))
    if t == "delay":
        f = cf["freqs"] = delay_band(r, cf["phase"])
    gentle = t == "approx" and r.random() < .7
    if gentle:
        # so dense and slow that the curve is straight over a few channels
        f = cf["freqs"] = list(range(r.randrange(100, 150), 300))[:r.randrange(60, 90)]
        cf["chunk"] = r.choice([2, 3, 4])
        cf["smooth"] = 1
    ev.append(cf)
    ns = sum(cf["sols"])
    n = len(f)
    wt = None
    for k in range(r.randrange(1, 4)):
        if r.random() < .4:
            wt = sum([weights(r, n, 1) for _ in range(cf["nant"])], [])
            ev.append({"op": "weights", "w": wt})
        e = {"op": "apply", "amp": r.choice([1, 1, 0.25, 3]), "precise": int(r.random() < .2), "iter": k, "final": int(r.random() < .2),
             "in": [], "model": [], "exact": []}
        gaps = r.choice([0, 0, .1, .3])
        for a in range(cf["nant"]):
            rows, ms, ex = [], [], []
            lost = r.random() < .15
            for s in range(ns):
                if t == "delay":
                    x = delays(r, f, cf["wraps"])
                    # referring subtracts two models
                    h = r.randrange(1, 3)
                    m = [x[0] // h, r.randrange(-1800, 1800) if cf["phase"] else 0, x[1] // h]
                else:
                    m = [alpha(r, 10000000), r.randrange(-1800, 1800) if cf["phase"] else 0, 0]
                    if gentle:
                        m[0] = r.randrange(-300000, 300001)
                p = [model(m, nu) for nu in f]
                p = [NAN if r.random() < (.9 if lost else gaps) else q for q in p]
                rows.append(p)
                ms.append(m)
                ex.append(1)
            e["in"].append(rows)
            e["model"].append(ms)
            e["exact"].append(ex)
        ev.append(e)


def run(ctx):
    ctx.assumptions.append("xtensor, aocommon and schaapcommon are not installed: the constraints of /repo are compiled, "
                           "unedited, against the stand-in headers in /verif/shim (see DESIGN.md)")
    b = ctx.build("fits", ["fits.cc"], SOURCES, libs=["-lgsl", "-lgslcblas"], shim=True)
    ev = []
    for _ in range(ctx.n(150, 3000)):
        fitter(ctx.rng, ev)
        lines(ctx.rng, ev)
        constraint(ctx.rng, ev)
        bent(ctx.rng, ev)
        noisy(ctx.rng, ev)
        if ctx.rng.random() < .5:
            grids(ctx.rng, ev)
    ctx.conform(b, ev, "PhaseFitTrace")
    f = [121 + 8 * k for k in range(10)]
    ctx.known_finding(b, [{"op": "new"}, {"op": "grid", "freqs": f, "w": [2] * 10, "phase": 0, "wraps": 3, "mises": 0, "strict": 1,
                                          "in": [140, 488, 829, 1166, 1499, -1771, -1444, -1120, -798, -478]}],
                      "PhaseFitTrace", GRID)
    ctx.known_finding(b, [{"op": "new"}, {"op": "grid", "freqs": [110, 118, 119, 124, 130, 147, 149, 157, 170, 183], "phase": 1,
                                          "w": [2, 3, 4, 4, 1, 3, 1, 2, 4, 2], "wraps": 2, "mises": 0, "strict": 1,
                                          "in": [-750, -1019, -1051, -1210, -1392, 1727, 1673, 1463, 1137, 826]}],
                      "PhaseFitTrace", IRREGULAR)
    f = [111 + 6 * k for k in range(13)]
    ctx.known_finding(b, [{"op": "new"}, {"op": "grid", "freqs": f, "phase": 1, "wraps": 2, "mises": 0, "strict": 1,
                                          "w": [2, 3, 4, 4, 4, 3, 4, 3, 4, 2, 3, 3, 1],
                                          "in": [84, -338, -730, -1097, -1442, -1768, 1523, 1229, 949, 679, 421, 172, -69]}],
                      "PhaseFitTrace", OFFSET)
