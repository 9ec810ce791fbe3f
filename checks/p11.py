"""P11: linear least-squares solvers."""
import numpy_free as nf


def run(ctx):
    b = ctx.build("lls", ["linsolve.cc"], ["ddecal/linear_solvers/LLSSolver.cc"],
                  libs=["-llapack", "-lblas"])
    r = ctx.rng
    ev = [{"op": "new", "kind": "qr", "m": 1, "n": 1, "nrhs": 1}]
    for nm in ["qr", "QR", "Qr", "svd", "SVD", "Svd", "normalequations", "NormalEquations",
               "NORMALEQUATIONS", "", "q", "qrr", "normal", "lsmr", "svd "]:
        ev.append({"op": "parse", "name": nm})

    def mat(m, n):
        while True:
            a = [[complex(r.randrange(-3, 4), r.randrange(-3, 4)) for _ in range(n)] for _ in range(m)]
            if m < n or nf.well_conditioned(a):
                return a
    for kind in ("qr", "svd", "ne"):
        for m in range(1, 7):
            for n in range(1, min(m, 4) + 1):
                for nrhs in (1, 2, 3):
                    for _ in range(ctx.n(2, 25)):
                        ld = max(m, n)
                        ev.append({"op": "new", "kind": kind, "m": m, "n": n, "nrhs": nrhs})
                        for _ in range(r.randrange(1, 5)):
                            a = mat(m, n)
                            if r.random() < .15:
                                j = r.randrange(n)
                                for row in a:
                                    row[j] = 0j
                            bb = [complex(r.randrange(-9, 10), r.randrange(-9, 10)) for _ in range(ld * nrhs)]
                            ev.append({"op": "solve", "guess": r.random() < .3,
                                       "a": [[int(a[i][j].real), int(a[i][j].imag)] for j in range(n) for i in range(m)],
                                       "b": [[int(x.real), int(x.imag)] for x in bb]})
    for m, n in ((1, 2), (2, 3), (2, 4)):
        ev.append({"op": "new", "kind": "qr", "m": m, "n": n, "nrhs": 1})
        a = mat(m, n)
        ev.append({"op": "solve", "guess": False,
                   "a": [[int(a[i][j].real), int(a[i][j].imag)] for j in range(n) for i in range(m)],
                   "b": [[1, 1]] * n})
    ctx.conform(b, ev, "LinSolveTrace.tla")
    ctx.assumptions += ["well-conditioned systems with Gaussian-integer entries; the reported solution is "
                        "compared to 0.003 absolute", "LAPACK itself is trusted"]
