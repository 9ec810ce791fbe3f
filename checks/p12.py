"""P12: median."""
import itertools
from vf import hist


def run(ctx):
    b = ctx.build("stats", ["stats.cc"])
    r = ctx.rng
    ev = []
    for n in range(0, ctx.n(6, 8)):
        for w in itertools.product(range(4 if n < 6 else 3), repeat=n):
            ev.append({"op": "med", "t": r.choice("fd"), "v": list(w)})
    for _ in range(ctx.n(1500, 30000)):
        n = r.choice([1, 2, 3, 5, 8, 9, 10, 16, 17, 18, 31, 32, 33, 40])
        hi = r.choice([2, 10, 1000])
        v = [r.randrange(-hi, hi + 1) for _ in range(n)]
        s = r.random()
        if s < .2:
            v.sort()
        elif s < .4:
            v.sort(reverse=True)
        ev.append({"op": "med", "t": r.choice("fd"), "v": v})
    ctx.conform(b, hist(ev), "StatsTrace.tla")
    ctx.assumptions.append("finite values (the median of values with NaN is not defined)")
