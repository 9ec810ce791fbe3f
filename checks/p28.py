"""P28: the gain solvers."""
import gainsgen as g

KINDS = {"scalar": ["full"], "diagonal": ["full"], "fulljones": ["full"], "iterscalar": ["full", "duo", "uni"], "iterdiag": ["full", "duo"],
         "iterfull": ["full"], "lowrank": ["full"]}
POLS = {"scalar": 1, "iterscalar": 1, "diagonal": 2, "iterdiag": 2, "lowrank": 2, "fulljones": 4, "iterfull": 4}
UNIT = [[5, 0], [4, 3], [3, 4], [4, -3], [3, -4], [0, 5], [0, -5]]


def gain(r, np, phase):
    """Over 4, or on the unit circle over 5, as (matrix, divisor)."""
    def one():
        return list(r.choice(UNIT[:5])) if phase else [r.randrange(3, 7), r.randrange(-2, 3)]
    if np == 1:
        x = one()
        return [x, [0, 0], [0, 0], x]
    if np == 2:
        return [one(), [0, 0], [0, 0], one()]
    return [one(), [r.randrange(-1, 2), r.randrange(-1, 2)], [r.randrange(-1, 2), r.randrange(-1, 2)], one()]


def model(r, small=False):
    n = 3
    d = lambda: [r.choice([-1, 1]) * r.randrange(1, n + 1), r.randrange(-n, n + 1)]
    o = lambda: [r.randrange(-1, 2), r.randrange(-1, 2)]
    return [d(), o(), o(), d()]


class Field:
    """Data of known gains for a solver."""
    def __init__(self, r, solver, kind, nant, ndir, nt, nch, blocks, nsols, phase=0, noise=0, dead=(), linear=0, miss=0., flag=0., polar=True, bright=None):
        np = POLS[solver]
        pairs = [(a, b) for a in range(nant) for b in range(a + (r.random() < .7), nant)]
        if miss:
            pairs = [p for p in pairs if r.random() > miss] or pairs
        pairs = [p if r.random() < .7 else p[::-1] for p in pairs]
        r.shuffle(pairs)
        gd = 5 if phase else 4
        ns = [min(n, nt) for n in nsols]
        gains = [[[[gain(r, np, phase) for _ in range(nant)] for _ in range(ns[d])] for d in range(ndir)] for _ in range(blocks)]
        bufs = []
        for t in range(nt):
            b = {"d": [], "m": [[] for _ in range(ndir)], "w": [], "f": []}
            for (x, y) in pairs:
                ds, ws, fs, mm = [], [], [], [[] for _ in range(ndir)]
                for c in range(nch):
                    k = next(q for q in range(blocks) if q * nch // blocks <= c < (q + 1) * nch // blocks)
                    tot = [[0, 0]] * 4
                    for d in range(ndir):
                        m = model(r)
                        if kind == "uni":
                            m = [m[0], [0, 0], [0, 0], list(m[0])]
                        elif kind == "duo" or not polar:
                            m = [m[0], [0, 0], [0, 0], m[3]]
                        if d == bright:
                            m = [[3 * v[0], 3 * v[1]] for v in m]
                        mm[d].append(m)
                        G = gains[k][d][t * ns[d] // nt]
                        p = g.mmul(g.mmul(G[x], m), g.mherm(G[y]))
                        tot = [g.add(tot[q], p[q]) for q in range(4)]
                    if noise:
                        tot = [[v[0] + r.randrange(-noise, noise + 1), v[1] + r.randrange(-noise, noise + 1)] for v in tot]
                    f = [0] * 4
                    if x in dead or y in dead or r.random() < flag:
                        f[r.randrange(4)] = 1
                        if r.random() < .3:
                            tot[r.randrange(4)] = [g.NAN, 0]
                    w = [r.choice([1, 2, 3] if linear else [1, 4])] * 4
                    if not linear and kind == "full" and np == 2 and r.random() < .3:
                        w = [r.choice([1, 4]) for _ in range(4)]
                    ds.append(tot)
                    ws.append(w)
                    fs.append(f)
                b["d"].append(ds)
                b["w"].append(ws)
                b["f"].append(fs)
                for d in range(ndir):
                    b["m"][d].append(mm[d])
            bufs.append(b)
        nsub = sum(nsols)
        self.ev = {"op": "solve", "solver": solver, "kind": kind, "nant": nant, "a1": [p[0] for p in pairs], "a2": [p[1] for p in pairs],
                   "blocks": blocks, "nsols": nsols, "div": gd * gd, "keep": 0, "linear": linear, "bufs": bufs, "pin": [], "again": 0,
                   "refuse": 0, "tol": 12,
                   "init": [[[start(r, np) for _ in range(nsub)] for _ in range(nant)] for _ in range(blocks)]}
        self.gains = gains

    def solve(self, want, **cfg):
        e = dict(self.ev)
        for k in ("pin", "again", "init", "refuse", "tol", "solver"):
            if k in cfg:
                e[k] = cfg.pop(k)
        e["cfg"] = dict(g.CFG, **cfg)
        e["cfg"]["phase"] = e["cfg"]["phase"]
        e["want"] = want
        return e


def start(r, np):
    return [[10, 0]] if np == 1 else [[10, 0], [10, 0]] if np == 2 else [[10, 0], [0, 0], [0, 0], [10, 0]]


def shape(r, solver, ndir, sub):
    nt = r.randrange(1, 4)
    nch = r.randrange(1, 5)
    nsols = [1] * ndir
    if sub:
        nsols = [r.randrange(1, nt + 1) for _ in range(ndir)]
    return nt, nch, r.randrange(1, nch + 1), nsols


def pick(r, only=None):
    solver = r.choice(only or list(KINDS))
    return solver, r.choice(KINDS[solver])


def many(solver):
    return solver.startswith("iter")


def fits(r, ev):
    """Data without noise are reproduced."""
    solver, kind = pick(r)
    ndir = r.choice([1, 1, 2, 3]) if solver != "lowrank" else r.choice([1, 1, 2])
    phase = int(POLS[solver] < 4 and solver != "lowrank" and r.random() < .3)
    nant = r.randrange(4, 7)
    blocks = r.randrange(1, 4)
    per = 4 if ndir > 1 else 3 if POLS[solver] == 4 else 1
    if POLS[solver] == 4:
        nant = max(nant, 5)
    nch = blocks * per + (r.randrange(0, 3) if ndir == 1 else 0)
    nt = r.randrange(1, 4) if ndir == 1 else 2 * r.randrange(1, 3)
    nsols = [r.choice([n for n in (1, 2, 3) if n <= (nt if ndir == 1 else nt // 2)]) if many(solver) and r.random() < .6 else 1 for _ in range(ndir)]
    f = Field(r, solver, kind, nant, ndir, nt, nch, blocks, nsols, phase=phase, linear=int(solver == "lowrank"),
              flag=r.choice([0, 0, .1]), polar=r.random() < .8)
    lls = r.choice(["qr", "qr", "svd", "ne"]) if POLS[solver] < 4 or ndir == 1 else "qr"
    want = ["converge", "fit"] if ndir == 1 else ["still"]
    cfg = dict(maxit=r.choice([300, 400]), phase=phase, step=r.choice([.4, .5, .6]), lls=lls, lri=r.choice([3, 5]), lrp=r.choice([3, 6]))
    if solver == "lowrank":
        cfg["step"] = r.choice([.3, .5, 1.0])
        want = ["fit"] + ["converge"] * (ndir == 1 and cfg["step"] < 1)
        cfg["acc"] = 3e-4
    if r.random() < .3 and not phase and solver != "lowrank":
        cfg["step"] = r.choice([.2, .3])
    if cfg["lls"] == "ne" or cfg["step"] < .4:
        cfg["acc"] = 1e-4
    ev.append(f.solve(want, **cfg))
    if r.random() < .4:
        ev.append(f.solve(["same"], again=1, **cfg))


def noise(r, ev):
    """Nothing near a converged solution is better."""
    solver, kind = pick(r, [s for s in KINDS if s != "lowrank"])
    ndir = r.choice([1, 2])
    phase = int(POLS[solver] < 4 and r.random() < .4)
    nt = r.choice([2, 4])
    nsols = [r.choice([1, 2]) if many(solver) else 1 for _ in range(ndir)]
    blocks = r.randrange(1, 3)
    f = Field(r, solver, kind, r.randrange(4, 6), ndir, nt, 3 * blocks, blocks, nsols, phase=phase, noise=r.choice([4, 12, 30]), flag=.05, miss=.1)
    ev.append(f.solve(["still"], maxit=300, phase=phase, step=r.choice([.3, .5]), lls=r.choice(["qr", "svd"])))


def dead(r, ev):
    """Antennas without usable data get no solution, the others do."""
    solver, kind = pick(r, [s for s in KINDS if s != "lowrank"])
    nant = r.randrange(5, 7)
    nt, nch, blocks, nsols = shape(r, solver, 1, many(solver))
    if POLS[solver] == 4:
        nch = blocks * 2
    f = Field(r, solver, kind, nant, 1, nt, nch, blocks, nsols, dead=r.sample(range(nant), r.choice([1, 1, 2])), polar=r.random() < .8)
    ev.append(f.solve(["exist", "fit"], maxit=r.choice([200, 300]), step=.5, lls="qr"))


def order(r, ev):
    """What was solved before does not matter."""
    solver, kind = pick(r, ["lowrank", "lowrank", "iterdiag", "scalar"])
    nant = r.randrange(4, 6)
    blocks = r.randrange(1, 3)
    ndir = r.choice([2, 3])
    arg = dict(linear=int(solver == "lowrank"))
    d = r.sample(range(ndir), 2)
    f1 = Field(r, solver, kind, nant, ndir, 2, 4 * blocks, blocks, [1] * ndir, bright=d[0], **arg)
    f2 = Field(r, solver, kind, nant, ndir, 2, 4 * blocks, blocks, [1] * ndir, bright=d[1], **arg)
    cfg = dict(maxit=r.choice([2, 3, 5]), step=r.choice([1.0, 1.0, .5]))
    ev.append(f1.solve([], **cfg))
    ev.append(f2.solve([], again=1, **cfg))
    ev.append(f2.solve(["same"], **cfg))


def count(r, ev):
    """Iterations and constraints."""
    solver, kind = pick(r)
    nant = r.randrange(3, 6)
    f = Field(r, solver, kind, nant, 1, 1, 2, r.randrange(1, 3), [1], noise=r.choice([0, 5]), linear=int(solver == "lowrank"))
    maxit = r.choice([1, 2, 3, 5, 12, 60])
    ev.append(f.solve([], maxit=maxit, minit=r.choice([0, 0, 1, 4, 9]), step=r.choice([.3, .5]), stall=int(r.random() < .2),
                      acc=r.choice([1e-5, 1e-3, 1e-1]), cacc=r.choice([1e-4, 1e-2, 1]),
                      pin=[r.randrange(nant), r.choice([0, 0, 1, 3, 7, 100])] if r.random() < .8 else []))


def steps(r, ev):
    """A step of half the size goes half the way."""
    solver, kind = pick(r)
    np = POLS[solver]
    phase = int(np < 4 and solver != "lowrank" and r.random() < .5)
    nant = r.randrange(3, 6)
    sub = many(solver)
    nt, nch, blocks, nsols = shape(r, solver, r.choice([1, 2]), sub)
    f = Field(r, solver, kind, nant, len(nsols), nt, nch + 2 * blocks, blocks, nsols, phase=phase, noise=6, linear=int(solver == "lowrank"))
    init = [[[[unit10(r) if phase else ([r.randrange(5, 15), r.randrange(-4, 5)] if q in (0, 3) or np == 2 else [r.randrange(-2, 3), 0])
               for q in range(np)] for _ in range(sum(nsols))] for _ in range(nant)] for _ in range(blocks)]
    one = .98 if solver == "lowrank" else 1.0
    if solver == "lowrank":
        return
    ev.append(f.solve([], maxit=1, step=one, phase=phase, init=init))
    ev.append(f.solve(["half"], maxit=1, step=.5, phase=phase, init=init, again=0))


def unit10(r):
    return r.choice([[10, 0], [8, 6], [6, 8], [0, 10], [-6, 8], [-8, 6], [-10, 0], [-8, -6], [0, -10], [6, -8], [8, -6]])


def repair(r, ev):
    """Start values that are no numbers."""
    solver, kind = pick(r)
    np = POLS[solver]
    nant = r.randrange(3, 6)
    nt, nch, blocks, nsols = shape(r, solver, r.choice([1, 2]), many(solver))
    f = Field(r, solver, kind, nant, len(nsols), nt, nch + 2 * blocks, blocks, nsols, linear=int(solver == "lowrank"))
    amp = [[6, 8], [10, 0], [0, -20], [-3, 4], [9, 12], [5, 0], [12, -16]]
    bad = r.choice([.2, .5, .9, 1])
    init = []
    for _ in range(blocks):
        init.append([[[list(r.choice(amp)) for _ in range(np)] for _ in range(sum(nsols))] for _ in range(nant)])
        for a in init[-1]:
            for s in a:
                if r.random() < bad:
                    for q in r.sample(range(np), r.randrange(1, np + 1)):
                        s[q] = []
    ev.append(f.solve(["repair"], maxit=1, step=1e-9, init=init))


def hybrid(r, ev):
    full = r.random() < .3
    pool = ["fulljones", "iterfull"] if full else r.choice([["scalar", "iterscalar"], ["diagonal", "iterdiag"]])
    names = [r.choice(pool) for _ in range(r.randrange(1, 4))]
    nant = r.randrange(4, 6)
    blocks = r.randrange(1, 3)
    f = Field(r, names[0], "full", nant, 1, 2, 2 * blocks, blocks, [1], noise=r.choice([0, 4]))
    hmax = [r.choice([1, 2, 5, 20, 40, 80]) for _ in names]
    hacc = [r.choice([.3, .1, 1e-2, 1e-9]) for _ in names]
    if r.random() < .6:
        names = (names * 3)[:3]
        hmax = [30, 30, 40]
        hacc = [r.choice([.3, .1]), r.choice([.3, .1, .01]), 1e-12]
        f.ev["init"] = [[[start(r, POLS[names[0]])] for _ in range(nant)] for _ in range(blocks)]
    ev.append(f.solve([], solver="hybrid:" + ",".join(names), hmax=hmax, hacc=hacc, hstop=int(r.random() < .3),
                      maxit=r.choice([5, 10, 15, 20, 25, 60, 150]), step=.5, pin=[r.randrange(nant), 0], stall=0))


def rows(r, ev):
    """Baseline-dependent rows, with solutions per part of the interval."""
    solver, kind = pick(r, ["iterscalar", "iterdiag", "iterfull", "scalar", "diagonal", "fulljones"])
    np = POLS[solver]
    nant = r.randrange(4, 6)
    blocks = r.randrange(1, 3)
    ilen = r.choice([4, 6, 12])
    interval = 1000 * ilen
    nsub = r.choice([1, 2, 3]) if many(solver) else 1
    pairs = [(a, b) for a in range(nant) for b in range(a, nant) if a != b or r.random() < .3]
    r.shuffle(pairs)
    long = r.random() < .25
    span = {p: ilen if long else r.choice([k for k in (1, 2, ilen // nsub) if ilen % k == 0]) for p in pairs}
    nchs = {p: blocks * r.choice([1, 2, 3]) for p in pairs}
    G = [[[gain(r, np, 0) for _ in range(nant)] for _ in range(nsub)] for _ in range(blocks)]
    out = []
    for p in pairs:
        for t in range(0, ilen, span[p]):
            at = 1000 * t + 500 * span[p]
            s = min(nsub - 1, at * nsub // interval)
            d, m = [], []
            for c in range(nchs[p]):
                k = next(q for q in range(blocks) if q * nchs[p] // blocks <= c < (q + 1) * nchs[p] // blocks)
                x = model(r)
                if kind == "uni":
                    x = [x[0], [0, 0], [0, 0], list(x[0])]
                elif kind == "duo":
                    x = [x[0], [0, 0], [0, 0], x[3]]
                d.append(g.mmul(g.mmul(G[k][s][p[0]], x), g.mherm(G[k][s][p[1]])))
                m.append(x)
            out.append((t + span[p], {"t": 8000 + at, "int": 1000 * span[p], "bl": pairs.index(p), "d": d, "m": [m],
                                      "w": [[r.choice([1, 4])] * 4 for _ in d], "f": [[0] * 4 for _ in d]}))
    out.sort(key=lambda q: q[0])
    base = {"div": 16, "nsols": [nsub]}
    ev.append(dict(base, op="bnew", start=8000, interval=interval, nbl=len(pairs)))
    ev.append(dict(base, op="bapp", rows=[q[1] for q in out], keep=0))
    e = {"op": "solve", "solver": solver, "kind": kind, "nant": nant, "a1": [p[0] for p in pairs], "a2": [p[1] for p in pairs],
         "blocks": blocks, "nsols": [nsub], "div": 16, "linear": 0, "pin": [], "again": 0, "refuse": 0, "tol": 12,
         "init": [[[start(r, np) for _ in range(nsub)] for _ in range(nant)] for _ in range(blocks)],
         "cfg": dict(g.CFG, maxit=300, step=.5), "want": ["fit"] + (["exist", "converge"] if np < 4 else [])}
    ev.append(e)


def refuse(r, ev):
    solver = r.choice(["scalar", "diagonal", "fulljones"])
    f = Field(r, solver, "full", 3, 2, 2, 2, 1, [2, 1])
    ev.append(f.solve([], refuse=1))


def run(ctx):
    b = g.build(ctx)
    r = ctx.rng
    for _ in range(ctx.n(1, 10)):
        for names in ((fits, 70), (noise, 40), (dead, 30)), ((count, 90), (order, 20), (steps, 60), (repair, 60), (hybrid, 40), (rows, 40), (refuse, 4)):
            ev = []
            for f, n in names:
                for _ in range(n):
                    ev.append({"op": "new", "threads": r.choice([1, 1, 2, 5])})
                    f(r, ev)
            ctx.conform(b, ev, "GainsTrace")
