"""Shared by the step checks: building the step driver, generating inputs."""

BASE = ["base/DPBuffer.cc", "base/DPInfo.cc", "base/BdaBuffer.cc", "base/FlagCounter.cc", "steps/Step.cc",
        "common/ParameterSet.cc", "common/ParameterSetImpl.cc", "common/ParameterValue.cc",
        "common/ParameterRecord.cc", "common/StringTools.cc", "common/Fields.cc", "common/PrettyUnits.cc"]


def build(ctx, name, sources, defines, extra=(), harness="steps.cc"):
    ctx.assumptions.append("casacore, xtensor, aocommon and schaapcommon are not installed: the step code of /repo is "
                           "compiled, unedited, against the stand-in headers in /verif/shim (see DESIGN.md)")
    return ctx.build(name, [harness], list(BASE) + list(sources) + list(extra), defines=defines, shim=True)


def info(r, nbl=None, nchan=None, ncorr=None, ntime=None, irregular=False, nant=None, width=None):
    nant = nant or r.randrange(2, 5)
    pairs = [(a, b) for a in range(nant) for b in range(a, nant)]
    nbl = min(nbl or r.randrange(1, 4), len(pairs))
    bl = r.sample(pairs, nbl)
    if r.random() < .5:
        bl = [p if r.random() < .5 else (p[1], p[0]) for p in bl]
    nchan = nchan or r.randrange(1, 9)
    width = width or r.choice([2, 4, 10, 64])
    f0 = r.randrange(0, 50) * 2
    widths = [width] * nchan
    if irregular:
        widths = [r.choice([2, 4, 6, 8]) for _ in range(nchan)]
    freqs, f = [], f0
    for w in widths:
        freqs.append(f + w // 2)
        f += w
    return {"ncorr": ncorr or r.choice([1, 2, 4]), "freqs": freqs, "widths": widths,
            "t0": r.randrange(0, 20) * 1000, "interval": r.choice([1000, 2000, 4000, 10000, 500]),
            "ntime": ntime or r.randrange(1, 9),
            "pos": [[r.randrange(-40, 41), r.randrange(-40, 41), r.randrange(-40, 41)] for _ in range(nant)],
            "ant1": [p[0] for p in bl], "ant2": [p[1] for p in bl]}


def buf(r, inf, k, names=("",), mode=None, gap=0, wmax=4):
    nb, nc, np = len(inf["ant1"]), len(inf["freqs"]), inf["ncorr"]
    mode = mode or r.choice(["mixed", "mixed", "clear", "flagged", "some", "zero"])
    pf = {"mixed": .4, "clear": 0, "flagged": 1, "some": .1, "zero": .2}[mode]
    perbl = [r.choice([0, 0, 0, 1]) if mode == "mixed" else 0 for _ in range(nb)]

    def w():
        if mode == "zero" and r.random() < .5:
            return 0
        return r.randrange(0 if r.random() < .2 else 1, wmax + 1)

    def cube(g):
        return [[[g(b) for _ in range(np)] for _ in range(nc)] for b in range(nb)]
    return {"op": "buf", "t": inf["t0"] + k * inf["interval"] + gap, "exp": inf["interval"], "names": list(names),
            "d": [cube(lambda b: [r.randrange(-20, 21), r.randrange(-20, 21)]) for _ in names],
            "w": cube(lambda b: w()), "f": cube(lambda b: 1 if perbl[b] or r.random() < pf else 0),
            "uvw": [[r.randrange(-100, 101) for _ in range(3)] for _ in range(nb)]}


def new(r, fu=None):
    return {"op": "new", "epoch": r.choice([0, 4.4e9, 4.9e9]), "f0": r.choice([0, 120, 150]),
            "fu": fu or r.choice([1000.0, 12207.03125, 1.0e4])}
