"""P17: sky model components and patches."""


def run(ctx):
    b = ctx.build("sky", ["sky.cc"], ["base/PointSource.cc", "base/GaussianSource.cc", "base/ComponentInfo.cc",
                                      "base/Stokes.cc", "sky_model/Patch.cc"], shim=True)
    r = ctx.rng
    ev = []

    def d():
        return [r.randrange(-36, 37), r.randrange(-18, 19)]

    def s():
        return [r.choice([0, 1, 2, 3, 7, -2, 10]), r.randrange(-9, 10), r.randrange(-9, 10), r.randrange(-9, 10)]
    for _ in range(ctx.n(350, 5000)):
        ev.append({"op": "new"})
        terms, logm, rm, ref, gauss = [], True, [], 0, r.random() < .5
        for j in range(r.randrange(1, 4)):
            gauss = r.random() < .5
            terms, logm, rm, ref = [], True, [], 0
            nost = r.random() < .3
            ev.append({"op": "make", "gauss": gauss, "dir": d(), "s": s(), "nostokes": nost})
            st = None
            for _ in range(r.randrange(2, 9)):
                o = r.choice(["dir", "stokes", "terms", "rm", "shape", "get", "inspect", "inspect", "flux", "flux", "get"])
                e = {"op": o}
                if o == "dir":
                    e["dir"] = d()
                elif o == "stokes":
                    e["s"] = s()
                elif o == "terms":
                    logm = r.random() < .5
                    ref = r.choice([100000000, 150000000, 60000000])
                    terms = [r.randrange(-2, 3) for _ in range(r.choice([0, 1, 1, 2, 3, 3, 4]))]
                    e.update(terms=terms, log=logm, ref=ref)
                elif o == "rm":
                    rm = [r.randrange(0, 101), r.randrange(-36, 37), r.randrange(-30, 31)]
                    e["rm"] = rm
                elif o == "shape":
                    if not gauss:
                        continue
                    e.update(pa=r.randrange(-36, 37), maj=r.randrange(0, 50), min=r.randrange(0, 50), abs=r.random() < .5)
                elif o == "flux":
                    e.update(l=0, xn=0, xd=1, lam=1, lamd=1, den=1)
                    if rm:
                        # rotation needs a known wavelength: with spectral
                        # terms, the reference is at 1 m and we look at 1/2 m
                        if terms:
                            terms = [r.randrange(-2, 3) for _ in range(r.choice([1, 2, 3]))]
                            ev.append({"op": "terms", "terms": terms, "log": False, "ref": 299792458})
                            logm, ref = False, 299792458
                            rm = [rm[0], rm[1], 4 * r.randrange(-9, 10)]
                            ev.append({"op": "rm", "rm": rm})
                            e.update(by="lin", xn=1, xd=1, den=1, lam=1, lamd=2)
                        else:
                            e.update(by="lam", lam=r.randrange(1, 5))
                    elif terms and logm:
                        l = r.choice([-1, 0, 1])
                        x = 0
                        for t in reversed(terms):
                            x = x * l + t
                        if abs(l * x) > 5:
                            continue
                        e.update(by="log", l=l, den=10 ** max(0, -l * x))
                    elif terms:
                        xn, xd = r.choice([(1, 1), (2, 1), (3, 1), (1, 2), (-1, 2), (3, 2), (-3, 4), (0, 1)])
                        e.update(by="lin", xn=xn, xd=xd, den=xd ** len(terms))
                    else:
                        e.update(by="lam", lam=r.randrange(1, 5))
                ev.append(e)
    for _ in range(ctx.n(400, 6000)):
        if len(ev) % 50 == 0:
            ev.append({"op": "new"})
        k = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        if r.random() < .4:     # close together, somewhere (also at the poles and the ra wrap)
            a, c = d()
            dirs = [[a + r.randrange(-3, 4), max(-18, min(18, c + r.randrange(-3, 4)))] for _ in range(k)]
        else:
            dirs = [d() for _ in range(k)]
        ev.append({"op": "patch", "dirs": dirs, "asked": r.choice(["a", "patch 1", ""]), "moved": d()})
    ctx.conform(b, ev, "SkyTrace.tla")
