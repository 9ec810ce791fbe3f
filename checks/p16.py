"""P16: Jones matrices, mixed subtraction, strided buffers."""


def run(ctx):
    b = ctx.build("jones", ["jones.cc"], ["base/Apply.cc", "base/SubtractMixed.cc"])
    r = ctx.rng
    ev = []

    def g(lim):
        return [r.randrange(-lim, lim + 1), r.randrange(-lim, lim + 1)]

    def layout(nc, nb):
        """strides for (4, nc, nb) plus the buffer size"""
        kind = r.randrange(4)
        if kind == 0:
            s = [1, 4, 4 * nc]
        elif kind == 1:
            s = [1, 4 + r.randrange(3), 0]
            s[2] = s[1] * nc + r.randrange(4)
        elif kind == 2:
            s = [1, 4 * nb, 4]
        else:
            s = [nc * nb, 1, nc]
        return s, 3 * s[0] + (nc - 1) * s[1] + (nb - 1) * s[2] + 1 + r.randrange(3)
    for _ in range(ctx.n(500, 6000)):
        if len(ev) % 40 == 0:
            ev.append({"op": "new"})
        nst, nc, nb = r.randrange(1, 5), r.randrange(1, 4), r.randrange(1, 5)
        bl = [[r.randrange(nst), r.randrange(nst)] for _ in range(nb)]
        s, size = layout(nc, nb)
        if r.random() < .5:
            # one Jones matrix per station: 8 coefficients, possibly interleaved
            cs = r.choice([[1, 8], [1, 11], [nst, 1]])
            co = [r.randrange(-4, 5) for _ in range(7 * cs[0] + (nst - 1) * cs[1] + 1)]
            ev.append({"op": "apply", "nc": nc, "bl": bl, "s": s, "cs": cs, "co": co,
                       "buf": [g(9) for _ in range(size)]})
        else:
            ws, wn = layout(nc, nb)
            ms, mn = layout(nc, nb)
            nan = r.random() < .3
            ev.append({"op": "sub", "nc": nc, "bl": bl, "s": s, "ws": ws, "ms": ms,
                       "buf": [[] if nan and r.random() < .2 else g(30) for _ in range(size)],
                       "w": [g(5) for _ in range(wn)], "m": [g(9) for _ in range(mn)]})
    # cursors
    for _ in range(ctx.n(120, 1500)):
        rank = r.randrange(1, 6)
        st = [r.choice([1, 1, 2, 3, 4, 7, 12, 40]) for _ in range(rank)]
        pos = 2000
        ev.append({"op": "new", "pos": pos, "strides": st, "conv": r.random() < .5})
        for _ in range(r.randrange(4, 20)):
            mv = r.choice(["inc", "post", "plus", "minus", "fwd", "fwdn", "bwd", "bwdn", "stay"])
            n = r.randrange(0, 5)
            ax = r.randrange(rank)
            d = {"inc": st[0], "post": st[0], "plus": n * st[0], "minus": -n * st[0], "fwd": st[ax],
                 "fwdn": n * st[ax], "bwd": -st[ax], "bwdn": -n * st[ax], "stay": 0}[mv]
            if not 300 < pos + d < 3500:
                continue
            pos += d
            ev.append({"op": "cur", "mv": mv, "n": n, "ax": ax, "look": r.randrange(0, 6)})
    ctx.conform(b, ev, "JonesTrace.tla")
    ctx.assumptions.append("Gaussian-integer data, for which the arithmetic is exact")
