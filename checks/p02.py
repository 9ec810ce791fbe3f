"""P02: compact array notation."""
import itertools
from vf import chars, hist, PARSET

WS = ["", "", "", " ", "\t", "  "]


def atom(r):
    return {"k": "atom", "t": chars(r.choice(
        ["a", "0", "7", "-1", "1.5", "x.y", "CS001", "b2", "a*b", "x3*4", "1e3",
         "a..b", "-", "_k", "{3*b}", "z..", "5m", "a:b", "%", "a/b"]))}


def quote(r):
    q = r.choice([34, 39])
    other = 73 - q
    body = r.choice(["a", "1..3", "2*b", "x,y", "", "[", ")", "3*(a", " sp ", ";",
                     "a" + chr(other) + "b", "1..2,2*x"])
    return {"k": "quote", "q": q, "t": chars(body)}


def digits(r, big=False):
    w = r.choice([1, 1, 2, 3])
    return "%0*d" % (w, r.randrange(0, 10 ** min(w, 2)))


def rng_(r, ws_ok=True):
    parts = []
    for k in range(r.choice([1, 1, 1, 2])):
        a = int(digits(r))
        b = max(0, a + r.randrange(-4, 6))
        fw = r.choice([len(str(a)), len(str(a)) + 1, 3])
        frm = "%0*d" % (fw, a)
        to = "%0*d" % (r.choice([1, fw]), b)
        pre = r.choice(["", "a", "CS", "lii", "x-", "p.q"]) if k == 0 else r.choice(["b", "cd", "_"])
        if k > 0 and parts[-1]["post"]:
            pre = ""
            parts[-1]["post"] = chars(r.choice(["b", "_x"]))
        brace = r.random() < 0.25
        post = r.choice(["", "", "y", "HBA", ".z"])
        # the closing text must not extend the number or start a new range
        if post == "" and k == 0:
            post = ""
        blank = ws_ok and r.random() < 0.15
        parts.append({"pre": chars(pre), "from": chars(frm), "to": chars(to),
                      "post": chars(post), "brace": brace,
                      "rep": bool(pre) and not brace and r.random() < 0.3,
                      "ws1": chars(r.choice(WS)) if blank else [],
                      "ws2": chars(r.choice(WS)) if blank else []})
    # a chain needs a non-digit between its parts and no blanks
    if len(parts) == 2:
        for p in parts:
            p["ws1"] = p["ws2"] = []
        if not parts[0]["post"] and not parts[1]["pre"]:
            parts[1]["pre"] = chars("b")
        parts[1]["rep"] = False
        # 'rep' would have to repeat everything before the number
        if parts[0]["post"] or True:
            parts[0]["rep"] = False
        # braces of the second part see the first part's text as prefix: fine
    return {"k": "range", "parts": parts}


def node(r, d, nested=False):
    x = r.random()
    if d <= 0 or x < 0.3:
        return r.choice([atom, atom, quote])(r)
    if x < 0.55:
        return rng_(r, not nested)
    if x < 0.8:
        y = r.random()
        if y < 0.35:
            v = paren(r, d - 1, nested)
        elif y < 0.5:
            v = lst(r, d - 1)
        elif y < 0.65:
            v = mult(r, d - 1, nested)
        elif y < 0.8:
            v = rng_(r, False)
        else:
            v = r.choice([atom, quote])(r)
        return {"k": "mult", "n": chars(r.choice(["1", "2", "3", "4", "02", "10"]) if d > 1 else r.choice(["1", "2", "3"])),
                "ws1": chars("" if nested else r.choice(WS)),
                "ws2": chars("" if nested else r.choice(WS)), "v": v}
    if x < 0.92:
        return lst(r, d - 1)
    return quote(r)


def mult(r, d, nested):
    n = node(r, d, nested)
    return {"k": "mult", "n": chars(r.choice(["1", "2", "3"])), "ws1": [], "ws2": [], "v": n}


def paren(r, d, nested):
    n = r.choice([1, 2, 2, 3])
    items = [node(r, d, True) for _ in range(n)]
    seps = [chars(r.choice([";", ","])) for _ in range(n - 1)]
    # a multiplier or range after ';' is only seen when the parenthesis is
    # multiplied itself, which holds here
    return {"k": "paren", "items": items, "seps": seps}


def lst(r, d):
    n = r.choice([0, 1, 2, 3])
    return {"k": "list", "items": [node(r, d, True) for _ in range(n)],
            "seps": [chars(",")] * max(0, n - 1)}


def size(t):
    """upper bound of the expansion, to keep cases small"""
    k = t["k"]
    if k == "mult":
        return int(bytes(t["n"]).decode()) * size(t["v"])
    if k in ("paren", "list"):
        return sum(size(x) for x in t["items"]) + 1
    if k == "range":
        n = 1
        for p in t["parts"]:
            n *= abs(int(bytes(p["from"]).decode()) - int(bytes(p["to"]).decode())) + 1
        return n
    return 1


def parts_text(ps):
    s = []
    for p in ps:
        s += p["pre"] + ([123] if p["brace"] else []) + p["from"] + p["ws1"] + [46, 46] + p["ws2"]
        s += (p["pre"] if p["rep"] else []) + p["to"] + ([125] if p["brace"] else []) + p["post"]
    return s


def render(t):
    k = t["k"]
    if k == "atom":
        return t["t"]
    if k == "quote":
        return [t["q"]] + t["t"] + [t["q"]]
    if k == "mult":
        return t["n"] + t["ws1"] + [42] + t["ws2"] + render(t["v"])
    if k == "range":
        return parts_text(t["parts"])
    o, c = (40, 41) if k == "paren" else (91, 93)
    return [o] + items(t["items"], t["seps"]) + [c]


def items(its, seps):
    s = []
    for n, x in enumerate(its):
        if n:
            s += seps[n - 1]
        s += render(x)
    return s


def events(ctx):
    r = ctx.rng
    ev = []
    while len(ev) < ctx.n(2500, 25000):
        n = r.choice([0, 1, 1, 2, 3, 4])
        its = [node(r, r.choice([0, 1, 2, 3])) for _ in range(n)]
        if sum(map(size, its)) > 60:
            continue
        a = {"items": its, "ws": chars(r.choice(WS)) if n else [],
             "seps": [chars(r.choice(WS) + "," + r.choice(WS)) for _ in range(max(0, n - 1))]}
        ev.append({"op": "expand", "ast": a, "strings": True,
                   "text": [91] + a["ws"] + items(its, a["seps"]) + [93]})
    # every range between small numbers, in every width and direction
    for a in range(0, 13):
        for b in range(0, 13):
            for w in (1, 2, 3):
                for pre, post in (("", ""), ("x", ""), ("x", "y")):
                    p = {"pre": chars(pre), "from": chars("%0*d" % (w, a)), "to": chars("%d" % b),
                         "post": chars(post), "brace": False, "rep": False, "ws1": [], "ws2": []}
                    t = {"k": "range", "parts": [p]}
                    ev.append({"op": "expand", "ast": {"items": [t], "ws": [], "seps": []},
                               "text": [91] + render(t) + [93]})
    # plain: not an array, or without notation
    for n in range(0, ctx.n(4, 5)):
        for w in itertools.product("a1[],' ", repeat=n):
            s = "".join(w)
            if s.count("'") % 2 == 0:
                ev.append({"op": "plain", "text": chars(s)})
    for s in ["3*5", "1..4", "(3*5)", "{1..4}", "[1..4", "1..4]", " 3*[a,b]", "'[3*a]'", "[a,'3*b','1..3']",
              "[\"2*x\", '1..2' ]", "[a3*b]", "[a..b]", "[*]", "[..]", "[x..3]", "[a*3]"]:
        ev.append({"op": "plain", "text": chars(s)})
    for s in ["['a]", "[3*'a]", "[\"a]", "[2*(a]", "[2*(a,(b)]", "[1,2*(3]", "[x,'y]",
              "[2*('a)]", "[1..3,'a]", "[a,3*(1;2]"]:
        ev.append({"op": "bad", "text": chars(s)})
    # globs
    al = "ab.C1"
    for n in range(0, 4):
        for w in itertools.product("a.*?", repeat=n):
            for s in ["", "a", "b", "aa", "ab", ".", "a.", "aab", "a.b", "ba", "...", "xyz"]:
                ev.append({"op": "glob", "pat": chars("".join(w)), "text": chars(s)})
    for _ in range(ctx.n(400, 4000)):
        s = "".join(r.choice(al) for _ in range(r.randrange(0, 8)))
        p = "".join(c if r.random() < 0.6 else r.choice("*?.") for c in s)
        if r.random() < 0.4:
            p += r.choice(["*", "?", "a", ".*"])
        ev.append({"op": "glob", "pat": chars(p), "text": chars(s)})
    # tokenizing
    for n in range(0, ctx.n(5, 7)):
        for w in itertools.product("a,; ", repeat=n):
            ev.append({"op": "tok", "text": chars("".join(w)), "delims": chars(r.choice([",", ",;", " ,", ";", ""]))})
    return ev


def run(ctx):
    b = ctx.build("arr", ["array_text.cc"], PARSET, shim=True)
    ctx.conform(b, hist(events(ctx)), "ArrayTextTrace.tla")
