"""P19: baseline-dependent averaging and expansion."""
import stepgen as g


def script(ctx, n):
    r = ctx.rng
    ev = []
    for _ in range(n):
        ev.append(g.new(r, fu=r.choice([1000.0, 12207.03125, 1.0e6 / 3, 1.0e5 / 7])))
        nant = r.randrange(2, 5)
        nchan = r.choice([1, 2, 3, 4, 4, 5, 6, 8, 8])
        inf = g.info(r, nchan=nchan, nant=nant, ncorr=r.choice([1, 2, 4]), width=r.choice([2, 10, 64]))
        # whole baseline lengths
        dirn = r.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (3, 4, 0), (1, 2, 2)])
        used = r.sample(range(0, 24 if max(dirn) == 1 else 8), nant)
        inf["pos"] = [[u * x for x in dirn] for u in used]
        kind = r.choice(["avg", "avg", "exp", "again"])
        cfg = {"timebase4": r.choice([0, 4, 20, 41, 81, 101, 161, 241]), "maxinterval": 0, "minchannels": 1,
               "freqbase": 0, "weighted": True, "req": []}
        par = []
        if cfg["timebase4"] or r.random() < .5:
            par.append(["timebase", repr(cfg["timebase4"] / 4)])
        if r.random() < .5 or (cfg["timebase4"] and any(a == b for a, b in zip(inf["ant1"], inf["ant2"]))):
            cfg["maxinterval"] = r.choice([1, 2, 3, 4, 5, 7]) * inf["interval"] + r.choice([0, 0, inf["interval"] // 4])
            par.append(["maxinterval", repr(cfg["maxinterval"] / 1000)])
        if r.random() < .7:
            cfg["freqbase"] = r.choice([1, 2, 4, 8, 16, 32, 64])
            par.append(["frequencybase", str(cfg["freqbase"])])
            if r.random() < .5:
                cfg["minchannels"] = r.choice([0, 1, 2, 3, nchan, nchan + 2])
                par.append(["minchannels", str(cfg["minchannels"])])
        if kind != "avg":
            # an expanded set has the resolution of its finest baseline
            full = [b for b in range(len(inf["ant1"]))]
            long = [sum((x - y) ** 2 for x, y in zip(inf["pos"][a], inf["pos"][b])) for a, b in zip(inf["ant1"], inf["ant2"])]
            if cfg["freqbase"]:
                cfg["freqbase"] = min(cfg["freqbase"], max(1, int(max(long) ** .5)))
                if max(long) == 0:
                    cfg["minchannels"] = nchan
                    par = [p for p in par if p[0] != "minchannels"] + [["minchannels", str(nchan)]]
                par = [p if p[0] != "frequencybase" else ["frequencybase", str(cfg["freqbase"])] for p in par]
        bda = {"type": "bdaaverager", "prefix": "b.", "par": par}
        if r.random() < .15:
            cfg["weighted"] = False
            bda["useweights"] = False
        like = kind != "exp" and r.random() < .4
        names = [""]
        if kind == "avg" and r.random() < .4:
            names = r.choice([["", "extra"], ["", "a", "b"], ["", "model"]])
        mx = nchan * inf["ncorr"]
        if kind == "avg" and r.random() < .4:
            cfg["req"] = [mx * r.randrange(1, 4) + r.randrange(0, mx) for _ in range(r.randrange(1, 5))]
            bda["requests"] = cfg["req"]
        chain = {"avg": [bda], "exp": [bda, {"type": "bdaexpander", "prefix": "e."}],
                 "again": [bda, {"type": "bdaexpander", "prefix": "e."}, dict(bda, useweights=True)]}[kind]
        if like:
            # the scheme taken over from another averager instead of the settings
            chain[-1] = dict(chain[-1], par=[], like=par)
        ev.append({"op": "make", "kind": kind, "info": inf, "cfg": cfg, "names": names, "steps": chain})
        for k in range(r.choice([0, 1, inf["ntime"], inf["ntime"], r.randrange(1, 10)])):
            ev.append(g.buf(r, inf, k, names=names))
        ev.append({"op": "finish"})
    # expanding rows as they may stand in any baseline-dependent data set
    for _ in range(n // 2):
        ev.append(g.new(r, fu=r.choice([1000.0, 12207.03125, 1.0e6 / 3])))
        n0 = r.choice([1, 2, 4, 4, 6, 8, 8])
        inf = g.info(r, nchan=n0, ncorr=r.choice([1, 2, 4]), width=r.choice([2, 10]), ntime=r.randrange(1, 11))
        nb = len(inf["ant1"])
        m = [r.randrange(1, n0 + 1) for _ in range(nb)]
        if r.random() < .6:
            m[r.randrange(nb)] = n0
        mm = max(m)
        hi = [[(c + 1) * n0 // q for c in range(q)] for q in m]
        if any((2 * c - 1) * n0 == h * 2 * mm for c in range(1, mm + 1) for hh in hi for h in hh):
            m = [n0 if r.random() < .5 else q for q in m]
            m[0] = mm = n0
        fac = [r.choice([1, 1, 2, 3, 4]) for _ in range(nb)]
        inf["bda"] = {"m": m, "fac": fac, "integer": r.random() > .05}
        ev.append({"op": "make", "kind": "rows", "info": inf, "names": [""], "steps": [{"type": "bdaexpander", "prefix": "e."}]})
        if not inf["bda"]["integer"]:
            continue
        rows = []
        drop = r.random() < .15
        for b in range(nb):
            k = 0
            while k < inf["ntime"]:
                t = min(fac[b] if r.random() < .8 else r.randrange(1, 5), inf["ntime"] - k)
                cube = lambda f: [[f() for _ in range(inf["ncorr"])] for _ in range(m[b])]
                if not (drop and r.random() < .1):
                    rows.append(((k + t, b), {"bl": b + 1, "t": inf["t0"] - inf["interval"] // 2 + (2 * k + t) * inf["interval"] // 2,
                                              "int": t * inf["interval"], "exp": t * inf["interval"],
                                              "d": cube(lambda: [r.randrange(-20, 21), r.randrange(-20, 21)]),
                                              "w": cube(lambda: r.randrange(0, 9)), "f": cube(lambda: r.choice([0, 0, 1])),
                                              "uvw": [r.randrange(-99, 99) for _ in range(3)]}))
                k += t
        rows.sort(key=lambda x: x[0])
        rows = [x[1] for x in rows]
        while rows:
            c = r.randrange(1, 6)
            ev.append({"op": "bda", "rows": rows[:c], "spare": r.choice([0, 0, 5])})
            rows = rows[c:]
        ev.append({"op": "finish"})
    return ev


def run(ctx):
    b = g.build(ctx, "bda", ["steps/BDAAverager.cc", "steps/BdaExpander.cc"], ["WITH_BDA"])
    ctx.conform(b, script(ctx, ctx.n(140, 2500)), "BdaTrace")
