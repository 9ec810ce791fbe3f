"""P13: timers and human-readable quantities."""


def run(ctx):
    ctx.model("StopwatchMC.tla")
    b = ctx.build("sw", ["stopwatch.cc"], ["common/PrettyUnits.cc"])
    r = ctx.rng
    ev = []
    for h in ctx.behaviours("StopwatchGen.tla", simulate=ctx.n(150, 2000), depth=ctx.n(16, 24)):
        ev.append({"op": "new"})
        ev += h
    for e in range(-8, 9):
        for num in [100, 101, 123, 150, 250, 999, 1000, 1010, 1990, 2500, 9990, 10000,
                    10100, 12300, 25000, 99900, 99800, 50000] + [r.randrange(100, 1000) for _ in range(6)] + \
                [10 * r.randrange(100, 1000) for _ in range(6)] + [100 * r.randrange(100, 1000) for _ in range(6)]:
            if e == 8 and num >= 99900:
                continue
            if len(ev) % 60 == 0:
                ev.append({"op": "new"})
            ev.append({"op": "pretty", "num": num, "e": e, "f": r.random() < .5, "neg": r.random() < .2})
    ctx.conform(b, ev, "StopwatchTrace.tla")
