"""P29: prediction of visibilities and moving the phase centre."""

TRI = [[0, 1, 1], [1, 0, 1], [3, 4, 5], [4, 3, 5], [5, 12, 13], [12, 5, 13], [8, 15, 17], [7, 24, 25]]
SRC = ["base/Simulator.cc", "base/Simulate.cc", "base/PointSource.cc", "base/GaussianSource.cc", "base/Stokes.cc",
       "steps/PhaseShift.cc", "steps/Step.cc", "base/DPInfo.cc", "base/DPBuffer.cc", "base/FlagCounter.cc",
       "common/Fields.cc"]


def ang(r, dec=False):
    s, c, d = r.choice(TRI if r.random() < .7 else TRI[:4])
    s *= r.choice([1, -1])
    if not dec:
        c *= r.choice([1, 1, 1, -1])
    return [s, c, d]


def place(r, z):
    """a direction whose common denominator with the centre's stays small"""
    while True:
        s = {"dra": ang(r), "dec": ang(r, True)}
        if s["dra"][2] * s["dec"][2] * z[2] <= 1500:
            return s


def base(r, nst, most, auto=.3):
    al = [[p, q] for p in range(nst) for q in range(nst) if p < q or (p > q and r.random() < .2) or (p == q and r.random() < auto)]
    r.shuffle(al)
    return al[:r.randrange(1, most + 1)]


def coords(r, n, m):
    return [[r.randrange(-m, m + 1) for _ in range(3)] for _ in range(n)]


def sim(r):
    nst = r.randrange(2, 5)
    nch = r.randrange(1, 4)
    m = r.choice([3, 10, 40])
    ev = {"op": "sim", "f0": r.choice([10, 60, 150]), "ra": r.randrange(-72, 73), "dec0": ang(r, True), "uvw": coords(r, nst, m),
          "bl": base(r, nst, 4), "k": [r.randrange(1, 7) for _ in range(nch)], "w": [r.choice([0, 1, 3, 10, 40]) for _ in range(nch)],
          "ionly": r.random() < .35, "freqsmear": r.random() < .4, "timesmear": r.random() < .4,
          "shortctor": r.random() < .5,
          "ncp": [r.randrange(-40, 41), r.randrange(-40, 41)], "init": r.choice([0, 0, 5]), "src": []}
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        s = place(r, ev["dec0"])
        if r.random() < .1:
            s = {"dra": [0, 1, 1], "dec": ev["dec0"]}
        g = r.random() < .45
        s.update(s=[r.randrange(0, 20)] + [r.randrange(-6, 7) for _ in range(3)], c1=r.choice([0, 0, 2, -1]), gauss=g)
        if g:
            s.update(maj=r.choice([0, 1, 4, 9]), min=r.choice([0, 1, 2, 5]), pa=r.choice([[0, 1, 1], [1, 0, 1], [-3, 4, 5], [4, 3, 5], [-5, -12, 13], [12, -5, 13]]), abs=r.random() < .5)
        ev["src"].append(s)
    return ev


def split(r):
    n = r.randrange(1, 8)
    # groups of stations, with baselines of any orientation inside them
    grp = [r.randrange(r.choice([1, 1, 2, 3])) for _ in range(n)]
    al = [[p, q] for p in range(n) for q in range(n) if grp[p] == grp[q] and (p <= q or r.random() < .3)]
    al = [x for x in al if r.random() < r.choice([.4, .8, 1])]
    r.shuffle(al)
    pos, uvw = [], coords(r, n, 50)
    if r.random() < .6:
        pos = coords(r, n, r.choice([2, 30]))
        uvw = [[p[0] + 2 * p[1] - p[2], p[1] - 3 * p[0], 2 * p[2] + p[0]] for p in pos]
    return {"op": "split", "bl": al, "pos": pos, "uvw": uvw}


def shift(r):
    nst = r.randrange(2, 4)
    bl = base(r, nst, 3)
    nch = r.randrange(1, 4)
    nc = r.choice([1, 2, 4])
    z = ang(r, True)
    to = [r.choice([place(r, z), place(r, z), []]) for _ in range(r.choice([1, 1, 2, 3]))]
    m = r.choice([5, 40])
    return {"op": "shift", "f0": r.choice([10, 60, 150]), "ra": r.randrange(-72, 73), "dec0": z, "nst": nst, "bl": bl,
            "k": [r.randrange(1, 7) for _ in range(nch)], "ncorr": nc, "to": to, "how": r.choice(["key", "default"]),
            "bufs": [{"uvw": coords(r, len(bl), m),
                      "data": [[[[r.randrange(-9, 10), r.randrange(-9, 10)] for _ in range(nc)] for _ in range(nch)] for _ in bl]}
                     for _ in range(r.randrange(1, 4))]}


def run(ctx):
    from vf import PARSET
    b = ctx.build("predict", ["predict.cc"], SRC + [x for x in PARSET if x not in SRC], shim=True)
    r = ctx.rng
    ev = []
    for n in range(ctx.n(450, 6000)):
        ev.append({"op": "new"})
        ev.append(sim(r))
        ev.append(split(r))
        ev.append(shift(r))
        if n % 3 == 0:
            z = ang(r, True)
            ev.append({"op": "lmn", "ra": r.randrange(-72, 73), "dec0": z, "to": place(r, z)})
            ev.append({"op": "rotate", "ra": r.randrange(-72, 73), "dec0": z, "to": place(r, z),
                       "uvw": coords(r, r.randrange(0, 5), 90)})
    ctx.conform(b, ev, "PredictTrace.tla")
