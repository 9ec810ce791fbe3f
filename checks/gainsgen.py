"""Shared generators for gain calibration: buffers, rows and solver cases."""
NAN = 7777
SOURCES = ["ddecal/gain_solvers/%s.cc" % n for n in
           ["SolverTools", "SolveData", "SolverBase", "BdaSolverBuffer", "DiagonalSolver", "ScalarSolver", "FullJonesSolver",
            "IterativeDiagonalSolver", "IterativeScalarSolver", "IterativeFullJonesSolver", "DiagonalLowRankSolver", "HybridSolver"]] + [
    "ddecal/linear_solvers/LLSSolver.cc", "ddecal/constraints/Constraint.cc", "base/DPBuffer.cc", "base/BdaBuffer.cc", "common/Fields.cc"]
LIBS = ["-llapack", "-lblas"]
CFG = {"maxit": 30, "minit": 0, "acc": 1e-5, "cacc": 1e-4, "step": 0.5, "stall": 0, "phase": 0, "lls": "qr", "lri": 4, "lrp": 4,
       "hmax": [], "hacc": [], "hstop": 1}


def build(ctx):
    ctx.assumptions.append("xtensor, xsimd, aocommon and schaapcommon are not installed: the gain solver code of /repo is compiled, "
                           "unedited, against the stand-in headers in /verif/shim (see DESIGN.md)")
    return ctx.build("gains", ["gains.cc"], SOURCES, shim=True, libs=LIBS)


def cmul(a, b):
    return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]


def conj(a):
    return [a[0], -a[1]]


def add(*q):
    return [sum(x[0] for x in q), sum(x[1] for x in q)]


def mmul(a, b):
    return [add(cmul(a[0], b[0]), cmul(a[1], b[2])), add(cmul(a[0], b[1]), cmul(a[1], b[3])),
            add(cmul(a[2], b[0]), cmul(a[3], b[2])), add(cmul(a[2], b[1]), cmul(a[3], b[3]))]


def mherm(a):
    return [conj(a[0]), conj(a[2]), conj(a[1]), conj(a[3])]


def antennas(r, n, auto=True, full=False):
    pairs = [(a, b) for a in range(n) for b in range(a, n) if auto or a != b]
    if not full:
        pairs = r.sample(pairs, r.randrange(1, len(pairs) + 1))
    if r.random() < .3:
        pairs = [p if r.random() < .5 else p[::-1] for p in pairs]
    r.shuffle(pairs)
    return [p[0] for p in pairs], [p[1] for p in pairs]


PYTH = [[3, 4], [-4, 3], [5, 0], [0, -5], [-3, -4], [4, -3]]


def vis_model(r):
    """Four correlations along one direction: amplitudes and their sums are whole."""
    u = r.choice(PYTH)
    return [[u[0] * k, u[1] * k] for k in (r.randrange(-2, 3) for _ in range(4))]


def weights(r, linear, zero=.1):
    return [0 if r.random() < zero else (r.randrange(1, 10) if linear else r.choice([1, 4, 9, 16])) for _ in range(4)]


def dirty(r, d, f, ms, p):
    """Sometimes a flag or a value that is no number, in any place."""
    if r.random() < p:
        f[r.randrange(4)] = 1
    if r.random() < p:
        d[r.randrange(4)][r.randrange(2)] = NAN
    if ms and r.random() < p:
        r.choice(ms)[r.randrange(4)][r.randrange(2)] = NAN


def buffer(r, nbl, nch, ndir, linear, p=.08):
    b = {"d": [], "m": [[] for _ in range(ndir)], "w": [], "f": []}
    for _ in range(nbl):
        rows = [[], [], []]
        mm = [[] for _ in range(ndir)]
        for _ in range(nch):
            d = [[r.randrange(-9, 10), r.randrange(-9, 10)] for _ in range(4)]
            f = [0] * 4
            ms = [vis_model(r) for _ in range(ndir)]
            dirty(r, d, f, ms, p)
            rows[0].append(d)
            rows[1].append(weights(r, linear))
            rows[2].append(f)
            for k in range(ndir):
                mm[k].append(ms[k])
        b["d"].append(rows[0])
        b["w"].append(rows[1])
        b["f"].append(rows[2])
        for k in range(ndir):
            b["m"][k].append(mm[k])
    return b


def case(r, kind=None):
    nant = r.randrange(2, 6)
    a1, a2 = antennas(r, nant)
    ndir = r.randrange(1, 4)
    nt = r.randrange(1, 6)
    nch = r.randrange(1, 7)
    linear = int(r.random() < .35)
    return {"nant": nant, "a1": a1, "a2": a2, "blocks": r.randrange(1, nch + 1) if r.random() < .9 else r.randrange(1, 9),
            "nsols": [r.randrange(1, 5) for _ in range(ndir)], "kind": kind or r.choice(["full", "duo", "uni"]), "div": r.choice([1, 2, 4]),
            "keep": int(r.random() < .5), "linear": linear, "bufs": [buffer(r, len(a1), nch, ndir, linear) for _ in range(nt)]}
