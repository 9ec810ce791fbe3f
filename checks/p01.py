"""P01: text to number conversion."""
import itertools
from vf import chars, hist, PARSET

TYPES = ["long", "int", "int16", "int32", "int64",
         "ulong", "uint", "uint16", "uint32", "uint64"]
VTYPES = ["int", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64"]


def run(ctx):
    b = ctx.build("num", ["number_text.cc"],
                  PARSET, shim=True)
    rng = ctx.rng
    ev = []

    def add(t, text, via="func", **kw):
        e = {"op": "int", "type": t, "text": chars(text), "via": via}
        e.update(kw)
        ev.append(e)
    # exhaustive over a small alphabet
    alpha = "019xXaG-+ "
    L = ctx.n(3, 4)
    for n in range(0, L + 1):
        for w in itertools.product(alpha, repeat=n):
            s = "".join(w)
            if n == L:
                add(rng.choice(["long", "ulong"]), s)
                continue
            for t in TYPES:
                add(t, s)
    # limits of every type, +- a few, in all spellings
    lims = [0, 2**15, 2**16, 2**31, 2**32, 2**63, 2**64, 10**5, 10**10, 10**19,
            10**20, 10**25]
    vals = set()
    for l in lims:
        for d in range(-3, 4):
            vals.add(l + d)
            vals.add(-l + d)
    for _ in range(ctx.n(120, 1500)):
        vals.add(rng.randrange(2**rng.randrange(1, 70)) * rng.choice([1, -1]))
    for v in sorted(vals):
        forms = ["%d" % v]
        if v >= 0:
            forms += ["0x%x" % v, "0X%X" % v, "+%d" % v, "000%d" % v]
        else:
            forms += ["-0%d" % -v, "-0x%x" % -v]
        for f in forms:
            for t in TYPES:
                dec = rng.choice([f, " " + f, f + " ", "\t " + f + "\n",
                                  f + " x", f + ".", f + "e0", "x" + f, f + "_",
                                  f + " 1"]) if rng.random() < 0.5 else f
                add(t, dec)
            add(rng.choice(VTYPES), rng.choice(["", " "]) + f + rng.choice(["", "  "]), "value")
    # each form through the parset value
    for t in VTYPES:
        for v in (0, 1, -1, 32767, 32768, -32768, -32769, 65535, 65536,
                  2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32,
                  2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64):
            add(t, "%d" % v, "value")
            add(t, " %d\t" % v, "value", trim=False)
    # booleans: all single and double characters of interest
    for c in range(32, 127):
        ev.append({"op": "bool", "text": [c]})
        ev.append({"op": "bool", "text": [c] + chars("rue")})
        ev.append({"op": "bool", "text": [32, c]})
    for s in ["", "true", "false", "TRUE", "False", "yes", "No", "1", "0", "on", "off",
              "yep", "Njet", "10", "01", "-1", "t", "f"]:
        ev.append({"op": "bool", "text": chars(s)})
    # floats
    fl = []
    for n in range(0, ctx.n(4, 5)):
        for w in itertools.product("05.e-+ ", repeat=n):
            fl.append("".join(w))
    if not ctx.quick:
        pass
    for _ in range(ctx.n(700, 6000)):
        m = rng.choice(["%d" % rng.randrange(1000), "%d.%03d" % (rng.randrange(1000), rng.randrange(1000)),
                        ".%d" % rng.randrange(1000), "%d." % rng.randrange(1000),
                        "%d" % rng.randrange(10**9), "0.%0*d" % (rng.randrange(1, 6), rng.randrange(1, 10))])
        e = rng.choice(["", "", "e%d" % rng.randrange(-3, 6), "E+%02d" % rng.randrange(4),
                        "e%d" % rng.randrange(-400, 400), "e", "e+", "x", " ", " 1"])
        fl.append(rng.choice(["", "-", "+", " ", "  -", "--"]) + m + e + rng.choice(["", "", " ", "\t\n", "f", " f"]))
    for s in fl:
        for t in ("float", "double"):
            ev.append({"op": "float", "type": t, "text": chars(s)})
    ctx.conform(b, hist(ev), "NumberTextTrace.tla")
    ctx.assumptions += ["blank text may convert to zero or be rejected",
                        "inf/nan/hexadecimal floating text is out of scope"]
