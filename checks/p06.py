"""P06: accounting of parameters that were never asked for."""
from vf import PARSET, chars
import parset_gen as g


def run(ctx):
    b = ctx.build("ps", ["parset.cc"], PARSET, shim=True)
    r = ctx.rng
    ops = ["add"] * 8 + ["get"] * 4 + ["getd"] * 4 + ["geti"] * 2 + ["look"] * 3 + ["def"] * 2 + ["subset"] * 3 + [
        "text", "remove", "replace", "copy", "adopt", "args", "subtract"]
    ev = g.histories(r, ctx.n(350, 4000), 20, ops)
    # fill, then ask every subset of three keys by every kind of question
    for nc in (False, True):
        for m in range(4 ** 3):
            ev.append({"op": "new", "nc": nc})
            ev.append({"op": "args", "s": 1, "args": [chars("a.x=1"), chars("a.y=2"), chars("b=3")]})
            for n, k in enumerate(["a.x", "a.y", "b"]):
                q = (m >> (2 * n)) & 3
                if q == 1:
                    ev.append({"op": "get", "s": 1, "k": chars(k), "br": False})
                elif q == 2:
                    ev.append({"op": "geti", "s": 1, "k": chars(k), "hasd": bool(m & 1), "d": chars("5")})
                elif q == 3:
                    ev.append({"op": "subset", "s": 1, "t": 2, "base": chars(k[:2]), "prefix": []})
            ev.append({"op": "getd", "s": 1, "k": chars("absent"), "d": chars("x")})
            ev.append({"op": "def", "s": 1, "k": chars("b")})
    ctx.conform(b, ev, "ParSetTrace.tla")
