"""P18: averaging of regular data."""
import stepgen as g


def script(ctx, n):
    r = ctx.rng
    ev = []
    for _ in range(n):
        ev.append(g.new(r))
        fu = ev[-1]["fu"]
        nchan = r.choice([1, 2, 3, 4, 4, 6, 6, 8, 9, 12])
        inf = g.info(r, nchan=nchan, irregular=r.random() < .25)
        if r.random() < .3:
            inf["res"] = [r.randrange(1, 9) for _ in range(nchan)]
        if r.random() < .3:
            inf["ebw"] = [r.randrange(1, 9) for _ in range(nchan)]
        div = [d for d in range(1, nchan + 1) if nchan % d == 0]
        s = {"freqstep": r.choice(div + [nchan + 3, 0, r.randrange(1, nchan + 1)]), "timestep": r.choice([0, 1, 1, 2, 2, 3, 4, 5, 9]),
             "freqres": 0, "timeres": 0, "minpoints": 1, "minperc": 0}
        st = {"type": "averager", "prefix": r.choice(["avg.", "step1.", ""])}
        how = r.random()
        if how < .12:
            st["ctor"] = [s["freqstep"], s["timestep"]]
        else:
            par = []
            if r.random() < .25:
                # resolution: multiples of the width plus an unambiguous part
                w = inf["widths"][0]
                s["freqres"] = max(1, r.choice(div) * w + r.choice([0, -w // 4, w // 4]))
                hz = s["freqres"] * fu
                txt = r.choice(["%s", "%skHz", "%s Hz", "%sMHz ", "%s", "%sHz"])
                sc = 1e3 if "kHz" in txt else 1e6 if "MHz" in txt else 1
                par.append(["freqresolution", txt % repr(hz / sc)])
            if s["freqstep"] != 1 or r.random() < .5:
                par.append(["freqstep", str(s["freqstep"])])
            if r.random() < .25:
                s["timeres"] = r.choice([1, 2, 3, 4]) * inf["interval"] + r.choice([0, 0, -1, 1]) * inf["interval"] // 4
                par.append(["timeresolution", repr(s["timeres"] / 1000)])
            if s["timestep"] != 1 or r.random() < .5:
                par.append(["timestep", str(s["timestep"])])
            if r.random() < .4:
                s["minpoints"] = r.choice([0, 1, 2, 3, 4, 6, 100])
                par.append(["minpoints", str(s["minpoints"])])
            if r.random() < .4:
                s["minperc"] = r.choice([0, 25, 50, 75, 100])
                par.append(["minperc", str(s["minperc"])])
            st["par"] = par
        ev.append({"op": "make", "info": inf, "steps": [st], "step": s})
        # does the code refuse this one?  then nothing may be sent
        ca = s["freqstep"] or 1
        if s["freqres"]:
            ca = max(1, (2 * s["freqres"] + inf["widths"][0]) // (2 * inf["widths"][0]))
        ca = min(ca, nchan)
        if nchan % ca:
            continue
        for k in range(r.choice([0, 1, inf["ntime"], inf["ntime"], r.randrange(1, 12)])):
            ev.append(g.buf(r, inf, k))
        ev.append({"op": "finish"})
    # averaging in two steps is averaging once by the product
    for _ in range(n // 4):
        ev.append(g.new(r))
        c1, c2, t1, t2 = [r.choice([1, 2, 2, 3]) for _ in range(4)]
        if c1 * t1 == 1 or c2 * t2 == 1:
            c1, t2 = 2, 2
        times = t1 * t2 * r.choice([1, 1, 2])
        inf = g.info(r, nchan=c1 * c2 * r.choice([1, 1, 2]), ntime=times, ncorr=r.choice([1, 2]))
        ev.append({"op": "make", "info": inf,
                   "steps": [{"type": "averager", "prefix": "a.", "par": [["freqstep", str(c1)], ["timestep", str(t1)]]},
                             {"type": "averager", "prefix": "b.", "par": [["freqstep", str(c2)], ["timestep", str(t2)]]}],
                   "step": {"freqstep": c1 * c2, "timestep": t1 * t2, "freqres": 0, "timeres": 0, "minpoints": 1, "minperc": 0}})
        for k in range(times):
            ev.append(g.buf(r, inf, k))
        ev.append({"op": "finish"})
    return ev


def run(ctx):
    b = g.build(ctx, "avg", ["steps/Averager.cc"], ["WITH_AVERAGER"])
    ctx.conform(b, script(ctx, ctx.n(150, 2500)), "AveragerTrace")
