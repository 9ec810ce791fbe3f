"""P03: structured parameter values."""
import itertools
from vf import chars, hist, PARSET


def tree(r, d):
    """mostly balanced text"""
    x = r.random()
    if d == 0 or x < 0.35:
        return r.choice(["a", "b c", "1", "-2", "'q'", '"x,y"', "'a[b'", "", " ", "k:v", "p:'q:r'",
                         "'n m': 2", '"(": )', "0x1F", "true", "F"])
    o, c = r.choice(["[]", "{}", "()", "[]", "{}"])
    n = r.choice([0, 1, 2, 3])
    s = o + ",".join(r.choice(["", " "]) + tree(r, d - 1) + r.choice(["", " "]) for _ in range(n)) + c
    if x < 0.5:
        s = r.choice(["k:", "'a b' : ", "x :"]) + s
    return s


def run(ctx):
    b = ctx.build("val", ["value_text.cc"], PARSET, shim=True)
    r = ctx.rng
    ev = []
    kinds = ["vec", "str", "rec", "strvec"]

    def add(op, s, **kw):
        e = {"op": op, "text": chars(s), "set": r.random() < 0.3}
        e.update(kw)
        ev.append(e)
    # every short text between brackets
    for n in range(0, ctx.n(5, 6)):
        for w in itertools.product("a,'[](" if n > 3 else "a,'\"[](){}", repeat=n):
            s = "".join(w)
            if n == 5 and r.random() < 0.5:
                continue
            add("vec", "[" + s + "]")
            if n < 4:
                add("vec", s)
                add("str", s)
    for n in range(0, ctx.n(5, 6)):
        for w in itertools.product("a:,'" if n > 3 else "a:,' {b", repeat=n):
            add("rec", "{" + "".join(w) + "}")
    for _ in range(ctx.n(1500, 12000)):
        s = tree(r, 3)
        o, c = r.choice(["[]", "{}", "{}", ["", ""]])
        t = o + ",".join([s] + [tree(r, 2) for _ in range(r.randrange(3))]) + c
        if r.random() < 0.25:                      # break it somewhere
            k = r.randrange(len(t) + 1)
            t = t[:k] + r.choice("[](){}'\",:") + t[k + r.randrange(2):]
        if r.random() < 0.2:
            t = r.choice([" ", "\t"]) + t + " "
        add(r.choice(kinds), t)
    # records that are fine
    names = ["a", "b", "A", "a.b", "'x y'", '"q"', " c ", "'k:l'", "''"]
    for _ in range(ctx.n(500, 4000)):
        n = r.randrange(0, 5)
        add("rec", "{" + r.choice(["", " "]) + ",".join(
            r.choice(names) + r.choice([":", " : "]) + r.choice(
                ["1", "'x'", "[1,2]", "{a:1}", "", "a b", "'p,q'", "a:b", "[ x , 'y]' ]"])
            for _ in range(n)) + "}")
    # typed vectors
    nums = ["0", "1", "-1", " 5 ", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647",
            "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807",
            "9223372036854775808", "18446744073709551615", "18446744073709551616", "x", "1.5", "0x10", "'3'",
            "0x", "1 2", "[1]"]
    types = ["int", "uint", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
    for t in types:
        for x in nums:
            add("typed", x, type=t)
            add("typed", "[%s]" % x, type=t)
            add("typed", "[1,%s,2]" % x, type=t)
        for _ in range(ctx.n(60, 500)):
            good = [x for x in nums[:4] + ["7", "0x1a", "+3"] if not (t[0] == "u" and x[0] == "-")]
            add("typed", "[" + ",".join(r.choice(good if r.random() < 0.95 else nums)
                                        for _ in range(r.randrange(0, 7))) + "]", type=t)
    for _ in range(ctx.n(200, 2000)):
        add("boolvec", "[" + ",".join(r.choice(["true", "F", "1", "0", " yes", "no ", "T", "n"] +
                                               (["x", ""] if r.random() < 0.2 else []))
                                      for _ in range(r.randrange(0, 6))) + "]")
        add("strvec", "[" + ",".join(r.choice(["a", "'b,c'", '"d"', " e ", "", "'f' g", "[h,i]", "{j:k}", "(l,m)", "'n"] )
                                     for _ in range(r.randrange(0, 6))) + "]")
    for n in ["0", "1", "7", "60", "90", "12345", "-3"]:
        for u in ["", "s", "S", "m", "M", "h", "H", " s", " m", "  h", "sec", "min", "hours", "Hrs"]:
            add("time", n + u)
            add("time", "  " + n + u + " ")
    for s in ["x", "s", "m5", "h", "-", "'5'"]:
        add("time", s)
    ctx.conform(b, hist(ev), "ValueTextTrace.tla")
