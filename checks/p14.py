"""P14: name tables."""
from vf import hist

NAMES = ["diagonal", "complexgain", "diagonalphase", "phaseonly", "diagonalamplitude", "amplitudeonly",
         "scalar", "scalarcomplexgain", "scalarcomplex", "scalaramplitude", "scalarphase", "tec", "tec+delay",
         "tec+phase", "tecandphase", "tec+phase+delay", "tecscreen", "fulljones", "rotation+diagonal",
         "rotation", "faradayrotation", "leakage", "leakageamplitude"]
MODES = ["Scalar", "ScalarAmplitude", "ScalarPhase", "Diagonal", "DiagonalAmplitude", "DiagonalPhase",
         "FullJones", "Tec", "TecAndDelay", "TecAndPhase", "TecPhaseAndDelay", "TecScreen",
         "RotationAndDiagonal", "Rotation", "FaradayRotation", "Leakage", "LeakageAmplitude"]


def run(ctx):
    b = ctx.build("names", ["names.cc"], ["base/CalType.cc", "common/TypeNames.cc"])
    r = ctx.rng
    ev = []
    for n in NAMES:
        ev.append({"op": "cal", "name": n})
        for v in (n[:-1], n + "s", " " + n, n.upper(), n + " ", n.replace("+", "and"), n[1:]):
            if v not in NAMES:
                ev.append({"op": "cal", "name": v})
    for n in ["", "faraday", "gain", "none", "tecandphaseanddelay", "diagonal+rotation", "delay+tec",
              "scalargain", "phase", "amplitude", "full", "jones"]:
        ev.append({"op": "cal", "name": n})
    for m in MODES:
        ev.append({"op": "caltext", "mode": m})
    for k in list(range(-5, 300)) + [2**31 - 1, -2**31, 1 << 16, 256 + 5]:
        ev.append({"op": "rcu", "k": k})
    for t in ["void", "bool", "char", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64",
              "f32", "f64", "c32", "c64"]:
        ev.append({"op": "type", "t": t})
    r.shuffle(ev)
    ctx.conform(b, hist(ev), "NamesTrace.tla")
