"""P32: flagging by medians and by statistics of antennas."""
import stepgen as g

MAD = ["steps/MadFlagger.cc"]
TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25)]


def yes(r, v):
    return r.choice(["true", "T", "1", "yes"]) if v else r.choice(["false", "F", "0", "no"])


def expr(r, lo, hi, quarter=False):
    """<<four times the constant, four times the factor of bl>> and its text"""
    q = r.randrange(lo * 4, hi * 4 + 1) if quarter else 4 * r.randrange(lo, hi + 1)
    f = r.choice([0, 0, 0, 1, 2, 4])
    t = "%g" % (q / 4)
    if f:
        t = r.choice(["%s+%g*bl", "%s + bl*%g"]) % (t, f / 4)
    elif r.random() < .1:
        t += "+0*bl"
    return [q, f], t


def amplitude(r, big):
    """a visibility and its whole amplitude"""
    m = r.choice([r.randrange(0, 8), r.randrange(0, 8), r.randrange(0, 40)] if big else [r.randrange(0, 8)])
    x = r.random()
    if x < .2:
        a, b, c = r.choice(TRIPLES)
        k = 1 + m // c
        return [k * a * r.choice([1, -1]), k * b * r.choice([1, -1])], k * c
    v = [m * r.choice([1, -1]), 0]
    return (v if x < .6 else v[::-1]), m


def mad(r, ev):
    inf = g.info(r, nbl=r.randrange(1, 5), nchan=r.randrange(1, 7), ncorr=r.choice([1, 2, 4]), ntime=r.randrange(1, 8), nant=r.randrange(2, 4))
    xs = r.sample(range(-6, 7), len(inf["pos"]))
    inf["pos"] = [[x, 5, 7] for x in xs]
    if r.random() < .1:
        inf["pos"][-1] = list(inf["pos"][0])
    s = {"corrs": [], "auto": r.random() < .25, "blmin": -1, "blmax": -1}
    par = []
    s["timewindow"], t = expr(r, 0, 5, True) if r.random() < .7 else ([4, 0], "1")
    if t != "1" or r.random() < .3:
        par.append(["timewindow", t])
    s["freqwindow"], t = expr(r, 0, 6, True) if r.random() < .7 else ([4, 0], "1")
    if t != "1" or r.random() < .3:
        par.append(["freqwindow", t])
    s["threshold"], t = expr(r, 0, 3, True) if r.random() < .7 else ([4, 0], "1")
    if t != "1" or r.random() < .3:
        par.append(["threshold", t])
    if r.random() < .5:
        s["corrs"] = r.sample(range(6), r.randrange(0, 4))
        par.append(["correlations", "[%s]" % ",".join(map(str, s["corrs"]))])
    if s["auto"] or r.random() < .2:
        par.append(["applyautocorr", yes(r, s["auto"])])
    if r.random() < .3:
        s["blmin"] = r.randrange(0, 6)
        par.append(["blmin", str(s["blmin"])])
    if r.random() < .3:
        s["blmax"] = r.randrange(0, 10)
        par.append(["blmax", str(s["blmax"])])
    if s["auto"] and r.random() < .8:
        inf["ant2"][0] = inf["ant1"][0]
        for b in range(len(inf["ant1"]) - 1, 0, -1):
            if (inf["ant1"][b], inf["ant2"][b]) == (inf["ant1"][0], inf["ant2"][0]):
                del inf["ant1"][b], inf["ant2"][b]
    ev.append({"op": "make", "info": inf, "steps": [{"type": "madflagger", "par": par}], "step": s})
    if s["auto"] and not any(a == b for a, b in zip(inf["ant1"], inf["ant2"])):
        return
    x = r.random()
    n = inf["ntime"] if x < .8 else r.randrange(0, inf["ntime"] + 2)
    big = r.random() < .8
    for k in range(n):
        b = g.buf(r, inf, k)
        d, m = [], []
        for _ in inf["ant1"]:
            dd, mm = [], []
            for _ in inf["freqs"]:
                q = [amplitude(r, big) for _ in range(inf["ncorr"])]
                dd.append([v for v, _ in q])
                mm.append([a for _, a in q])
            d.append(dd)
            m.append(mm)
        b["d"], b["m"] = [d], m
        ev.append(b)
    ev.append({"op": "finish"})


def run(ctx):
    b = g.build(ctx, "mad", MAD, ["WITH_MADFLAGGER"])
    for _ in range(ctx.n(1, 12)):
        ev = []
        for _ in range(400):
            ev.append(g.new(ctx.rng))
            mad(ctx.rng, ev)
        ctx.conform(b, ev, "MadTrace")
