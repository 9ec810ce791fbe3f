from vf import chars

KEYS = ["a", "b", "A", "ab", "a.b", "a.B", "a.c", "aa", "p.a", "p.a.b", "P.x", "b.a", "step.type", "Step.x", "z"]
VALS = ["", "1", "x", "'q'", '"a b"', "[1,2]", "{k:v}", "-5", "a b", "0x10", "1.5", "'a#b'", '"x=y"', " pad ", "9999999999",
        "'open"]
LOOKVALS = ["7", "0", "300", "-4", "70000", "[1..3]", "[2*5,7]", "[1, 2]", "[0]", "true", "F", "[T,no]", "90m", "[1h,2]", "x",
            "[a,'b c']", "[]", "3", "2.5", "[8", "-1", "[-5]"]
TYPES = ["bool", "int", "uint", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "string", "time"]
MODKEYS = ["a.b.c.p", "b.xb.p", "a.p", "p", "x.a.b.q", "ab.b.c", "a.a.p", "b.a.b.z", "c.b", "xa.b.c", "B.c.d"]
MODS = ["a", "b", "c", "p", "a.b", "b.c", "x", "xb", "a.a", "b.a", "B", "q"]


def look(r):
    """a typed lookup"""
    vec = r.random() < 0.6
    t = r.choice(TYPES + (["sizet"] if vec else []))
    good = ["0", "1"] if t == "bool" else ["a", "b c", ""] if t == "string" else ["0", "5", "31", "1200"]
    return {"op": "look", "type": t, "vec": vec, "hasd": t != "sizet" and r.random() < 0.6, "expand": vec and r.random() < 0.5,
            "ds": [chars(r.choice(good)) for _ in range(r.randrange(0, 4) if vec else 1)]}
BASES = ["", "a", "a.", "p.", "p.a", "A.", "b", "step.", "x", "P.", "aa.b"]
PRE = ["", "", "p.", "a", "P.", "n_"]


def line(r):
    k = r.choice(["a", "b", "ab", "a.b", "'q k'", '"d"', "A", "p.a", "k'1'x", "a b", "long.key.name"])
    v = r.choice(["1", "x", "'y z'", '"#"', "'=' b", "[1,2", "3]", "a b  c", "", "'it' \"s\"", "-1", "[a, 'b,c']", "{x:1}", "x\\y"])
    x = r.random()
    ws = lambda: r.choice(["", "", " ", "\t", "  "])
    com = r.choice(["", "", "", "", " # note", "#x", " # it's", " # a=b", "\t#"])
    if x < 0.55:
        return ws() + k + ws() + "=" + ws() + v + ws() + com
    if x < 0.75:
        return ws() + v + ws() + com
    if x < 0.85:
        return ws() + "#" + r.choice([" plain", "a=1", " 'quote", "", " don't=1"])
    if x < 0.9:
        return ws()
    if x < 0.97:
        return ws() + k + ws() + "=" + ws() + v + r.choice([" \\", "\\", " \\ "]) + com
    return k + "='open"


def text(r, n=None):
    n = r.randrange(0, 7) if n is None else n
    s = "\n".join(line(r) for _ in range(n))
    return s + r.choice(["", "\n", "\n\n"])


def histories(r, nh, length, ops, nc=None):
    ev = []
    for _ in range(nh):
        ev.append({"op": "new", "nc": (r.random() < 0.35) if nc is None else nc})
        L = r.randrange(2, length)
        for _ in range(L):
            op = r.choice(ops)
            e = {"op": op, "s": r.choice([1, 1, 1, 2, 3])}
            if op == "look":
                e.update(look(r))
            if op == "mod":
                e["full"] = r.random() < 0.6
                e["k"] = chars(r.choice(MODS))
            if op in ("add", "replace") and "mod" in ops and r.random() < 0.5:
                e["k"] = chars(r.choice(MODKEYS))
            if op in ("copy", "subset", "adopt", "back"):
                e["t"] = r.choice([1, 2, 3, 4])
                if op in ("subset", "back") and e["t"] == e["s"]:
                    e["t"] = 4
            if op in ("add", "replace", "remove", "get", "getd", "geti", "def", "look") and "k" not in e:
                e["k"] = chars(r.choice(KEYS))
            if op in ("add", "replace"):
                e["v"] = chars(r.choice(LOOKVALS if "look" in ops and r.random() < 0.7 else VALS))
            if op == "get":
                e["br"] = r.random() < 0.3
            if op == "getd":
                e["d"] = chars(r.choice(["dflt", ""]))
            if op == "geti":
                e["hasd"] = r.random() < 0.6
                e["d"] = chars(r.choice(["0", "42", "-7"]))
            if op == "make":
                e["nc"] = r.random() < 0.35
                e["byname"] = r.random() < 0.5
            if op in ("subset", "subtract"):
                e["base"] = chars(r.choice(BASES))
            if op in ("subset", "adopt", "text"):
                e["prefix"] = chars(r.choice(PRE))
            if op == "args":
                e["args"] = [chars(r.choice(KEYS + [""]) + r.choice(["=", "", "=", "= "]) + r.choice(VALS + ["a=b"]))
                             for _ in range(r.randrange(0, 4))]
            if op == "text":
                e["text"] = chars(text(r))
                e["viafile"] = r.random() < 0.4
            if op == "back":
                e["ctor"] = r.random() < 0.5
            ev.append(e)
            # contents after a failed read are unspecified: end the history
            if op in ("text", "back") and b"'open" in bytes(e.get("text", b"'open")):
                break
    return ev
