"""P09: baseline numbering."""
from vf import hist


def run(ctx):
    ctx.model("BaselinesMC.tla")
    b = ctx.build("bl", ["baselines.cc"])
    r = ctx.rng
    ev = []
    for n in range(1, ctx.n(26, 70)):
        ev.append({"op": "count", "n": n})
        for o in ("row", "col"):
            ev.append({"op": "walk", "n": n, "order": o})
            for a in range(n):
                ev.append({"op": "list", "a": a, "n": n, "order": o})
                for c in range(n):
                    ev.append({"op": "pair", "a": a, "b": c, "n": n, "order": o})
    # large arrays: corners of the triangle and random pairs
    for n in [48, 62, 80, 96, 288, 512, 576, 1000, 2048, 4095, 8191, 16000, 30000]:
        ev.append({"op": "count", "n": n})
        cand = [0, 1, 2, n // 2 - 1, n // 2, n - 3, n - 2, n - 1]
        for o in ("row", "col"):
            for a in cand:
                for c in cand:
                    ev.append({"op": "pair", "a": a, "b": c, "n": n, "order": o})
            for _ in range(ctx.n(60, 1500)):
                ev.append({"op": "pair", "a": r.randrange(n), "b": r.randrange(n), "n": n, "order": o})
    for o in ("row", "col"):
        for n in [ctx.n(60, 150)]:
            ev.append({"op": "walk", "n": n, "order": o})
    ctx.conform(b, hist(ev), "BaselinesTrace.tla")
    ctx.assumptions.append("up to 30000 antennas (numbers fit TLC integers)")
