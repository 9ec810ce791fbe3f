"""P04: parameter text is read as written."""
import itertools
from vf import chars, PARSET
import parset_gen as g


def run(ctx):
    b = ctx.build("ps", ["parset.cc"], PARSET, shim=True)
    r = ctx.rng
    ev = []

    def one(s, prefix="", f=False, nc=False, back=True):
        ev.append({"op": "new", "nc": nc})
        ev.append({"op": "text", "s": 1, "text": chars(s), "prefix": chars(prefix), "viafile": f})
        if back:
            ev.append({"op": "write", "s": 1})
            ev.append({"op": "back", "s": 1, "t": 2, "ctor": f})
    # every short line after a key, and every short two-line text
    for n in range(0, ctx.n(5, 6)):
        al = "a#' \\" if n > 3 else "ab#'\" \\\t"
        for w in itertools.product(al, repeat=n):
            one("k=" + "".join(w), back=n < 3)
            if n < 4:
                one("k" + "".join(w) + "= v", back=n < 3)
                one("k= v\n" + "".join(w), f=n == 2, back=n < 3)
    for _ in range(ctx.n(600, 6000)):
        one(g.text(r, r.randrange(1, 9)), r.choice(g.PRE), r.random() < 0.3, r.random() < 0.2)
    ctx.conform(b, ev, "ParSetTrace.tla")
