"""P27: the data that calibration works on."""
import gainsgen as g


def rows_history(r, ev, long=False):
    """Baseline-dependent rows, arriving as they are completed."""
    nant = r.randrange(2, 5)
    a1, a2 = g.antennas(r, nant)
    nbl = len(a1)
    nch = [r.choice([1, 2, 3, 4, 6]) for _ in range(nbl)]
    ndir = r.randrange(1, 4)
    unit = 125 * r.choice([1, 2, 8])
    start = 250 * r.randrange(0, 40000)
    ilen = r.choice([2, 4, 6, 8, 12])
    interval = unit * ilen
    span = [r.choice([k for k in (1, 2, 3, 4, 6, 8, 12) if k <= ilen]) for _ in range(nbl)]
    base = {"div": r.choice([1, 2, 4]), "nsols": [r.randrange(1, 5) for _ in range(ndir)]}
    ev.append({"op": "new", "threads": r.choice([1, 2, 4])})
    ev.append(dict(base, op="bnew", start=start, interval=interval, nbl=nbl))
    total = ilen * r.randrange(1, 5) + r.randrange(0, 3)
    rows = []
    for b in range(nbl):
        t = 0
        while t < total:
            n = min(span[b], total - t)
            rows.append((t + n, r.random(), b, start + unit * t + unit * n // 2 if (unit * n) % 2 == 0 else start + unit * t, unit * n))
            t += n
    rows.sort()
    rows = [(x[2], x[3], x[4]) for x in rows]
    if r.random() < .15 and len(rows) > 3:
        k = r.randrange(len(rows) - 1)
        rows.insert(min(len(rows), k + r.randrange(1, 3 * nbl)), rows[k])
    keep = int(r.random() < .6)
    applied = 0
    last = [-1] * nbl           # last whole interval of each baseline
    while rows or r.random() < .7:
        n = r.randrange(1, 3 * nbl + 1)
        part, rows = rows[:n], rows[n:]
        ok = [x for x in part]
        if ok:
            # rows of one buffer have to follow each other
            end = None
            cut = len(ok)
            for k, (b, t, w) in enumerate(ok):
                if end is not None and 2 * t + w <= end:
                    cut = k
                    break
                end = 2 * t - w
            rest = ok[cut:]
            ok = ok[:cut]
            rows = rest + rows
            out = []
            for b, t, w in ok:
                d, ws, fl, ms = [], [], [], [[] for _ in range(ndir)]
                for _ in range(nch[b]):
                    x = [[r.randrange(-9, 10), r.randrange(-9, 10)] for _ in range(4)]
                    f = [0] * 4
                    mm = [g.vis_model(r) for _ in range(ndir)]
                    g.dirty(r, x, f, mm, .06)
                    d.append(x)
                    fl.append(f)
                    ws.append(g.weights(r, False))
                    for k in range(ndir):
                        ms[k].append(mm[k])
                out.append({"t": t, "int": w, "bl": b, "d": d, "w": ws, "f": fl, "m": ms})
            ev.append(dict(base, op="bapp", rows=out, keep=keep))
            for b, t, w in ok:
                k = (t - w // 2 - start) // interval
                if k < last[b]:
                    return      # refused: the history ends here
                last[b] = k - 1
        for _ in range(r.choice([0, 1, 1, 2])):
            k = r.random()
            if k < .45:
                ev.append(dict(base, op="data", nant=nant, a1=a1, a2=a2, blocks=r.randrange(1, 5), kind=r.choice(["full", "duo", "uni"]),
                               linear=int(r.random() < .3)))
            elif k < .65 and keep and applied < 2:
                applied += 1
                np = r.choice([1, 2, 4])
                nb = r.randrange(1, 4)
                starts = [0] + sorted(r.sample(range(5, 100, 10), nb - 1)) + [120]
                fr = [[(118 * (2 * c + 1)) // (2 * m) + 1 for c in range(m)] for m in nch]
                fr = [[x + 1 if x in starts else x for x in q] for q in fr]
                sol = [[[r.randrange(-20, 21), r.randrange(-20, 21)] for _ in range(nant * ndir * np)] for _ in range(nb)]
                ev.append(dict(base, op="bapply", np=np, sol=sol, starts=starts, freqs=fr, a1=a1, a2=a2))
            elif k < .85:
                ev.append(dict(base, op="bdone"))
            elif k < .9 and not rows:
                ev.append(dict(base, op="bclr"))
        yield_adv = r.random()
        if yield_adv < .5:
            # only advance as far as the rows that are still to come allow
            now = ev[-1]
            first = min((t for _, t, _ in rows), default=None)
            cur = adv_count(ev)
            if first is None or first >= start + (cur + 1) * interval:
                ev.append(dict(base, op="badv"))
                applied = 0
        if not rows and r.random() < .3:
            break


def adv_count(ev):
    n = 0
    for e in reversed(ev):
        if e["op"] == "new":
            return n
        n += e["op"] == "badv"
    return n


def run(ctx):
    ctx.model("GainsMC.tla")
    b = g.build(ctx)
    r = ctx.rng
    for _ in range(ctx.n(1, 12)):
        ev = []
        for _ in range(60):
            ev.append({"op": "new", "threads": r.choice([1, 2, 4])})
            for _ in range(3):
                c = g.case(r)
                ev.append(dict(c, op=r.choice(["weigh", "data", "data"])))
        ctx.conform(b, ev, "GainsTrace")
        ev = []
        for _ in range(60):
            rows_history(r, ev)
        ctx.conform(b, ev, "GainsTrace")
