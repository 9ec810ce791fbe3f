"""P33: antennas and stations whose statistics stand out."""
import stepgen as g

SRC = ["steps/AntennaFlagger.cc", "antennaflagger/Flagger.cc"]


def pairs(n, order):
    return [(a, b) for b in range(n) for a in range(b + 1)] if order == "col" else [(a, b) for a in range(n) for b in range(a, n)]


def data(r, pr, n, nc, np):
    """[baseline][channel][correlation]; some antennas stand out, in one respect or another"""
    amp = [r.randrange(3, 12)] * n
    if r.random() < .5:
        amp = [a + r.randrange(0, 3) for a in amp]
    off = [0] * n
    turn = [0] * n
    for a in r.sample(range(n), r.choice([0, 0, 1, 1, 2]) if n > 2 else 0):
        k = r.randrange(4)
        if k == 0:
            amp[a] = r.choice([0, 40, 100])
        elif k == 1:
            off[a] = r.choice([30, 80])
        elif k == 2:
            turn[a] = 1
        else:
            amp[a] *= 4
    if n > 4 and (n == 48 or r.random() < .3):  # found one after the other
        for a, m in zip(r.sample(range(n), 3), (200, 45, 18)):
            amp[a] = m
    only = r.choice([None, None, 0, np - 1])
    out = []
    for a, b in pr:
        row = []
        for _ in range(nc):
            cell = []
            for p in range(np):
                m = r.randrange(2, 9) if only is not None and p != only else max(amp[a], amp[b]) if 0 not in (amp[a], amp[b]) else 0
                o = 0 if only is not None and p != only else max(off[a], off[b])
                re, im = r.randrange(-m, m + 1) + o, r.randrange(-m, m + 1)
                if turn[a] or turn[b]:
                    im = im // 4 if r.random() < .9 else im
                cell.append([re, im])
            row.append(cell)
        out.append(row)
    if r.random() < .15:
        for _ in range(r.randrange(1, 4)):
            v = r.choice([7777, 7777, 7778])
            b = r.randrange(len(pr))
            for c in range(nc):
                if r.random() < .6:
                    out[b][c][r.randrange(np)] = [v, v]
    return out


def settings(r):
    return {"as": r.choice([10, 15, 20, 30]), "ai": r.choice([0, 1, 2, 5]), "ss": r.choice([10, 12, 15, 20, 25]), "si": r.choice([0, 1, 2, 5])}


def direct(r, ev):
    nst, nap = r.choice([(1, 5), (2, 4), (3, 3), (1, 8), (6, 1), (4, 2), (2, 1), (7, 1), (1, 1), (2, 5)])
    nc, np = r.randrange(1, 5), r.choice([1, 2, 4])
    ev.append({"op": "afnew", "nst": nst, "nap": nap, "nc": nc, "ncorr": np})
    for _ in range(r.randrange(1, 4)):
        order = r.choice(["col", "row"])
        ev.append(dict({"op": "af", "order": order, "d": data(r, pairs(nst * nap, order), nst * nap, nc, np)}, **settings(r)))


def step(r, ev, big=False):
    odd = not big and r.random() < .03
    n = 48 if big else 24 if odd else r.choice([1, 2, 4, 5, 6, 7])
    inf = g.info(r, nchan=1 if big else r.randrange(1, 5), ncorr=1 if big else r.choice([1, 2, 4]), nant=max(n, 2))
    inf["pos"] = [[k, 0, 0] for k in range(n)]
    pr = pairs(n, r.choice(["col", "row"]))
    inf["a12"] = big or odd
    if big or odd:
        inf["names"] = ["A12_%d" % k for k in range(n)]
    elif r.random() < .1:
        inf["a12"] = True
        inf["names"] = ["A12_%d" % k for k in range(n)]
    elif r.random() < .1:
        inf["names"] = ["A1_%d" % k if k else "A11" for k in range(n)]
    if not big and not odd and r.random() < .2:
        k = r.randrange(3)
        if k == 0 and n > 2:
            i, j = r.sample(range(len(pr)), 2)
            pr[i], pr[j] = pr[j], pr[i]
        elif k == 1 and len(pr) > 1:
            pr.pop(r.randrange(len(pr)))
        else:
            i = r.randrange(len(pr))
            pr[i] = pr[i][::-1]
    inf["ant1"], inf["ant2"] = [a for a, _ in pr], [b for _, b in pr]
    s = settings(r)
    par = []
    for name, key, d, ten in (("antenna_flagging_sigma", "as", 30, 1), ("antenna_flagging_max_iterations", "ai", 5, 0),
                              ("station_flagging_sigma", "ss", 25, 1), ("station_flagging_max_iterations", "si", 5, 0)):
        if big or r.random() < .4:
            s[key] = d
            if big or r.random() < .9:
                continue
        par.append([name, "%g" % (s[key] / 10) if ten else str(s[key])])
    ev.append({"op": "make", "info": inf, "steps": [{"type": "antennaflagger", "par": par}], "step": s})
    for k in range(1 if big or odd else r.randrange(1, 4)):
        b = g.buf(r, inf, k)
        b["d"] = [data(r, pr, n, len(inf["freqs"]), inf["ncorr"])]
        ev.append(b)
    ev.append({"op": "finish"})


def run(ctx):
    b = g.build(ctx, "af", SRC, ["WITH_ANTENNAFLAGGER"])
    for k in range(ctx.n(1, 12)):
        ev = []
        for j in range(200):
            ev.append(g.new(ctx.rng))
            step(ctx.rng, ev, j == 7) if j % 3 == 1 else direct(ctx.rng, ev)
        ctx.conform(b, ev, "AntennasTrace")
