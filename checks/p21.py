"""P21: the description of the data."""


def history(r, ev):
    fu = r.choice([100.0, 250.0, 1000.0])
    ev.append({"op": "new", "epoch": r.choice([0, 4.4e9, 4.9e9]), "f0": r.choice([0, 120]), "fu": fu, "khz": int(1000 / fu)})
    n0 = r.choice([1, 2, 4, 6, 8, 12])
    ev.append({"op": "make", "n": n0, "ncorr": r.choice([1, 2, 4]), "set": r.choice(["", "HBA_DUAL", "LBA"])})
    # what the generator needs to know to stay within the interface
    s = {"nchan": n0, "nbl": 0, "bda": False, "lists": 1, "nt": 1, "chan": False, "fac": 1}
    names = ["CS001", "CS002", "RS106", "DE601", "CS002HBA1"]

    def widths(n, even):
        w = r.choice([2, 4, 8, 20])
        return [w] * n if even else [r.choice([2, 4, 8, 20]) for _ in range(n)]

    def freqs(ws, even=True):
        f, out = 2 * r.randrange(0, 40), []
        for w in ws:
            out.append(f + w // 2)
            f += w + (0 if even or r.random() < .6 else r.choice([2, 8, 12, 20]))
        return out

    def op(o, **e):
        ev.append(dict(op=o, **e))
    for _ in range(r.randrange(4, 22)):
        o = r.choice(["times", "chan", "chan", "bdachan", "ant", "ant", "selch", "selch", "selbl", "update", "update",
                      "bdaupdate", "unused", "unused", "clearmeta", "setmeta", "array", "phase", "lengths", "lengths", "auto", "dirs", "copy"])
        if s["nbl"] == 0 and r.random() < .5:
            o = "ant"
        if not s["chan"] and r.random() < .4:
            o = "chan"
        if o == "times":
            i = r.choice([500, 1000, 2000, 10000])
            first, k = r.randrange(0, 50) * 500, r.randrange(0, 20)
            last = first + k * i + r.choice([0, 0, 0, -i // 4, i // 4])
            if r.random() < .1:
                i = r.choice([0, -1000])
            op(o, first=first, last=last, int=i)
            if last >= first and i > 0:
                s["nt"] = (2 * (last - first) + 3 * i) // (2 * i)
        elif o == "chan":
            n = r.choice([1, 2, 3, 4, 6, 8, 12])
            even = r.random() < .6
            w = widths(n, even)
            f = freqs(w, even or r.random() < .5)
            if r.random() < .2:
                f = f[::-1]
            re, e = [[] if r.random() < .5 else widths(n, False) for _ in range(2)]
            x = r.random()
            bad = x < .12
            if bad:
                t = r.choice([0, 1, 2])
                if t == 0:
                    w = w + [2]
                elif t == 1:
                    re = widths(n + 1, False)
                else:
                    e = widths(max(1, n - 1) if n > 1 else 2, False)
            op(o, f=f, w=w, r=re, e=e, ref=r.choice([0, 0, 7]))
            if not bad:
                s.update(nchan=n, bda=False, lists=1, chan=True, fac=1)
        elif o == "bdachan":
            if not s["nbl"]:
                continue
            nb = s["nbl"]
            n = r.choice([1, 2, 4, 6, 8])
            base = widths(n, True)
            f0 = freqs(base)
            f, w = [], []
            for b in range(nb):
                m = r.choice([d for d in range(1, n + 1) if n % d == 0]) if r.random() < .7 else n
                k = n // m
                w.append([sum(base[c * k:(c + 1) * k]) for c in range(m)])
                f.append([(f0[c * k] + f0[(c + 1) * k - 1]) // 2 for c in range(m)])
            re, e = [], []
            bad = False
            x = r.random()
            if x < .1:
                e = [list(q) for q in w]
                e[-1][-1] += r.choice([2, -1, 1])
                bad = nb > 1
            elif x < .2:
                f, w, bad = f + [[3]], w + [[2]], True
            elif x < .3:
                w[-1] = w[-1] + [2]
                bad = True
            elif x < .4:
                re = [list(q) for q in w]
                re[0].append(1)
                bad = True
            elif x < .6:
                re = [[r.choice([2, 4]) for _ in q] for q in w]
            op(o, f=f, w=w, r=re, e=e, ref=r.choice([0, 0, 9]))
            if not bad:
                s.update(nchan=max(len(q) for q in f), bda=True, lists=nb, chan=True, fac=1)
        elif o == "ant":
            na = r.randrange(1, 6)
            nb = r.randrange(1, 6)
            e = dict(names=names[:na], diam=[r.randrange(1, 60) for _ in range(na)],
                     pos=[[r.randrange(-40, 41) for _ in range(3)] for _ in range(na)],
                     a1=[r.randrange(na) for _ in range(nb)], a2=[r.randrange(na) for _ in range(nb)])
            bad = r.random() < .1
            if bad:
                k = r.choice(["names", "diam", "pos", "a1", "a2"])
                e[k] = e[k] + e[k][:1]
            op(o, **e)
            if not bad:
                s["nbl"] = nb
        elif o == "selch":
            if not s["chan"]:
                continue
            st = r.randrange(0, s["nchan"] + 1)
            n = r.randrange(1, s["nchan"] + 2)
            if r.random() < .7:
                st = r.randrange(0, s["nchan"])
                n = r.randrange(1, s["nchan"] - st + 1)
            op(o, start=st, n=n)
            if st + n <= s["nchan"] and s["lists"] == 1:
                s["nchan"] = n
        elif o == "selbl":
            if not s["nbl"]:
                continue
            b = [k for k in range(s["nbl"]) if r.random() < .6] or [r.randrange(s["nbl"])]
            if r.random() < .1:
                r.shuffle(b)
            op(o, b=b)
            s["nbl"] = len(b)
        elif o == "update":
            if not s["chan"]:
                continue
            ca = r.choice([1, 2, 2, 3, 4, 6, 40])
            c = min(ca, s["nchan"])
            if s["lists"] == 1 and s["nchan"] % c == 0:
                if s["fac"] * (c if c % 2 == 0 or c == 1 else 2 * c) > 16:
                    continue
                s["fac"] *= c if c % 2 == 0 or c == 1 else 2 * c
                s["nchan"] //= c
            ta = r.choice([1, 2, 3, 4, 100])
            op(o, ca=ca, ta=ta)
        elif o == "bdaupdate":
            op(o, ta=[r.randrange(1, 9) for _ in range(r.randrange(1, 4))])
        elif o == "array":
            op(o, phase=[r.randrange(0, 314), r.randrange(-150, 151)], delay=[r.randrange(0, 314), 3], tile=[4, r.randrange(-150, 151)])
        elif o == "phase":
            op(o, phase=[r.randrange(0, 314), r.randrange(-150, 151)])
        elif o in ("lengths", "auto"):
            if s["nbl"]:
                op(o)
        else:
            op(o)


def run(ctx):
    ctx.assumptions.append("casacore measures are the stand-ins of /verif/shim: conversions between ITRF positions and J2000 "
                           "directions are the identity")
    b = ctx.build("dpinfo", ["dpinfo.cc"], ["base/DPInfo.cc"], shim=True)
    ev = []
    for _ in range(ctx.n(250, 5000)):
        history(ctx.rng, ev)
    ctx.conform(b, ev, "DataInfoTrace")
