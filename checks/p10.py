"""P10: solution resampling."""


def run(ctx):
    ctx.model("ResampleMC.tla")
    b = ctx.build("rs", ["resample.cc"], ["ddecal/SolutionResampler.cc"])
    r = ctx.rng
    ev = []

    def div(m):
        return [d for d in range(1, m + 1) if m % d == 0]
    confs = []
    for solint in range(1, ctx.n(9, 13)):
        ds = div(solint)
        for a in ds:
            confs.append(([a], solint))
            for c in ds:
                confs.append(([a, c], solint))
    for _ in range(ctx.n(150, 1200)):
        solint = r.choice([1, 2, 3, 4, 6, 8, 10, 12, 15, 20, 24, 30, 36, 60])
        confs.append(([r.choice(div(solint)) for _ in range(r.randrange(1, 6))], solint))
    for nsol, solint in confs:
        nant = r.randrange(1, 4)
        N = max(nsol) if all(max(nsol) % d == 0 for d in nsol) else solint
        ev += [{"op": "new", "nsol": nsol, "solint": solint, "nant": nant}, {"op": "sub"}]
        for npol in r.sample([1, 2, 4], 2):
            nt = r.randrange(1, 4)
            if N * nt * nant * len(nsol) * npol < 1500:
                ev.append({"op": "up", "nt": nt, "nb": r.randrange(1, 4), "npol": npol})
            for _ in range(4):
                ev.append({"op": "map", "t": r.randrange(3 * N), "ant": r.randrange(nant),
                           "dir": r.randrange(len(nsol)), "pol": r.randrange(npol), "npol": npol})
        more, axes = r.choice([([], "ant,dir"), ([1], "ant,dir,freq"), ([3], "ant,dir,freq"), ([2, 2], "ant,dir,freq,pol")])
        if N < 31:
            ev.append({"op": "cons", "nt": r.randrange(0, 3), "nc": r.randrange(1, 3), "ns": r.randrange(1, 3),
                       "more": more, "axes": axes})
    ctx.conform(b, ev, "ResampleTrace.tla")
    ctx.assumptions.append("the solutions per direction divide the solution interval (documented precondition)")
