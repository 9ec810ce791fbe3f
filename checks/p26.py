"""P26: flagging by selection."""
import os
import stepgen as g

DAY = 86400000
BIG = 20000


# ------------------------------------------------------------ text of numbers
def num(r, x):
    t = repr(float(x))
    if float(x) == int(x) and r.random() < .6:
        t = str(int(x))
    return t


def hms(r, ms):
    """A time of the day (or duration) in text; ms >= 0."""
    s, f = divmod(ms, 1000)
    k = r.random()
    sec = "%d%s" % (s % 60, (".%03d" % f) if f else r.choice(["", ".0"]))
    if k < .5:
        return "%d:%02d:%s" % (s // 3600, s // 60 % 60, sec if len(sec.split(".")[0]) > 1 else "0" + sec)
    if k < .75:
        return "%dh%dm%s" % (s // 3600, s // 60 % 60, sec)
    return "%ss" % repr(ms / 1000)


def mjd_text(r, ms):
    """Date and time of a number of ms since MJD 0."""
    days, rest = divmod(ms, DAY)
    j = days + 2400001
    a = j + 32044
    b = (4 * a + 3) // 146097
    c = a - 146097 * b // 4
    d = (4 * c + 3) // 1461
    e = c - 1461 * d // 4
    m = (5 * e + 2) // 153
    day, month, year = e - (153 * m + 2) // 5 + 1, m + 3 - 12 * (m // 10), 100 * b + d - 4800 + m // 10
    names = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
    s, f = divmod(rest, 1000)
    t = "%02d:%02d:%02d.%03d" % (s // 3600, s // 60 % 60, s % 60, f)
    if r.random() < .5:
        return "%d-%s-%d/%s" % (day, names[month - 1], year, t)
    return "%d/%02d/%02d/%s" % (year, month, day, t)


def off(r, lo, hi):
    """Milliseconds that no time of the data equals."""
    return r.randrange(lo // 250, max(hi, lo + 250) // 250) * 250 + 125


def new(r, epoch_days=None, fu=None, f0=None):
    e = g.new(r, fu)
    days = r.choice([0, 51544, 55000, 56789]) if epoch_days is None else epoch_days
    tod = r.choice([0, 0, 3600, 43200, 80000]) if epoch_days is None else 0
    e["epoch"] = days * 86400 + tod
    e["tod0"] = tod * 1000
    if f0 is not None:
        e["f0"] = f0
    e["days"] = days
    return e


NAMES = ["CS001HBA0", "CS001HBA1", "CS002LBA", "CS003LBA", "RS106HBA", "RS208LBA", "DE601HBA", "FR606", "CS004HBA0", "CS005", "RS305"]


def rep(r, par, inf, prefix, count="count."):
    o = {"warn": 0, "full": 0, "save": 0, "dir": "", "base": "", "step": prefix.rstrip(".")}
    if r.random() < .4:
        o["warn"] = r.choice([1, 10, 25, 50, 75, 100])
        par.append([count + "warnperc", str(o["warn"])])
    if r.random() < .4:
        o["full"] = 1
        par.append([count + "showfullyflagged", r.choice(["true", "T", "yes"])])
    d, base, ext = r.choice(["", "dir", "/data/obs.1"]), r.choice(["L1234_SB001", "my", "a_b"]), r.choice([".MS", ".ms", "", ".dppp.MS"])
    inf["ms"] = (d + "/" if d else "") + base + ext
    if r.random() < .5:
        o["save"] = 1
        par.append([count + "save", "true"])
        o["base"] = base
        o["dir"] = d or "."
        if r.random() < .3:
            o["dir"] = r.choice(["out", "/tmp/none"])
            par.append([count + "path", o["dir"]])
    return o


# ------------------------------------------------------------ criteria
def glob(r, names):
    import fnmatch
    p = r.choice([r.choice(names), r.choice(names)[:3] + "*", "*" + r.choice(names)[-3:], "*", "CS*", "RS*", "XX*",
                  r.choice(names)[:-1] + "?", "CS00[12]*", "[!C]*", "{CS,RS}*"])
    if p == "{CS,RS}*":
        m = [k for k, n in enumerate(names) if n[:2] in ("CS", "RS")]
    else:
        m = [k for k, n in enumerate(names) if fnmatch.fnmatchcase(n, p)]
    return p, m


def empty():
    return {"blon": 0, "bl": [], "corr": "", "len": [], "abs": [], "rel": [], "tod": [], "lst": [], "slot": [], "az": [], "el": [],
            "uvmin": 0, "uvmax": 0, "chon": 0, "chan": [], "fron": 0, "freq": [], "amon": 0, "reon": 0, "imon": 0, "phon": 0,
            "amin": [-BIG] * 4, "amax": [BIG] * 4, "rmin": [-BIG] * 4, "rmax": [BIG] * 4, "imin": [-BIG] * 4, "imax": [BIG] * 4,
            "pmin": [[0, 0]] * 4, "pmax": [[0, 0]] * 4, "expr": {"op": "none"}, "subs": []}


def baseline(r, s, inf, par, pre):
    nm = inf["names"]
    how = r.random()
    if how < .7:
        s["blon"] = 1
        if r.random() < .6:
            terms, txt = [], []
            for _ in range(r.choice([1, 1, 2, 3])):
                p, a = glob(r, nm)
                while "," in p:          # braces and commas do not mix with lists
                    p, a = glob(r, nm)
                if r.random() < .5:
                    q, b = glob(r, nm)
                    while "," in q:
                        q, b = glob(r, nm)
                    terms.append({"k": "two", "a": a, "b": b})
                    txt.append("[%s,%s%s]" % (p, r.choice(["", " "]), q))
                else:
                    terms.append({"k": "one", "a": a, "b": []})
                    txt.append("[%s]" % p if r.random() < .5 else p)
            if not any(t.startswith("[") for t in txt) and any("[" in t for t in txt):
                txt = ["[%s]" % t for t in txt]
            if any("[" in t[1:] for t in txt) or any(t.startswith("[!") or t.startswith("[C") and not t.endswith("]") for t in txt):
                # a pattern with brackets looks like a nested list: keep to plain ones
                terms, txt = [{"k": "one", "a": [k for k, n in enumerate(nm) if n.startswith("CS")], "b": []}], ["[CS*]"]
            val = "[" + ", ".join(txt) + "]"
        else:
            terms, txt = [], []
            for _ in range(r.choice([1, 1, 2])):
                p, a = glob(r, nm)
                q, b = glob(r, nm)
                while "[" in p or "{" in p:
                    p, a = glob(r, nm)
                while "[" in q or "{" in q:
                    q, b = glob(r, nm)
                k, sep = r.choice([("cross", "&"), ("all", "&&"), ("auto", "&&&")])
                if r.random() < .4:
                    terms.append({"k": k, "a": a, "b": a})
                    txt.append(p + sep)
                else:
                    terms.append({"k": k, "a": a, "b": b})
                    txt.append(p + sep + q)
            val = ";".join(txt)
        s["bl"] = terms
        par.append([pre + "baseline", val])
    if how > .6 and r.random() < .7:
        s["corr"] = r.choice(["auto", "cross"])
        par.append([pre + "corrtype", r.choice([s["corr"], s["corr"].upper()])])
    if how > .75 or r.random() < .15:
        k = r.random()
        if k < .5:
            for _ in range(r.choice([1, 2])):
                a = r.randrange(0, 120) * 2 + 1
                s["len"].append([a, a + 2 * r.randrange(1, 60)])
            par.append([pre + "blrange", "[" + ",".join("%s,%s" % (repr(a / 2), repr(b / 2)) for a, b in s["len"]) + "]"])
        if k > .3 and r.random() < .6:
            a = r.randrange(1, 80) * 2 + 1
            s["len"].append([-1, a])
            par.append([pre + "blmin", repr(a / 2)])
        if k > .3 and r.random() < .6:
            a = r.randrange(10, 160) * 2 + 1
            s["len"].append([a, 40000])
            par.append([pre + "blmax", repr(a / 2)])


def times(r, s, inf, e, par, pre):
    k = r.choice(["abs", "rel", "tod", "lst", "slot", "slot", "rel"])
    t0, t1 = inf["t0"], inf["t0"] + inf["ntime"] * inf["interval"]
    txt, rngs = [], []
    for _ in range(r.choice([1, 1, 2])):
        if k == "slot":
            a = r.randrange(0, 8)
            b = a + r.choice([0, 0, 1, 2])
            s["slot"] += list(range(a, b + 1))
            txt.append(str(a) if a == b else "%d..%d" % (a, b))
            continue
        if k == "abs":
            a = off(r, t0 - 2 * inf["interval"], t1)
            b = a + off(r, 250, 5 * inf["interval"]) + 125
            base = e["days"] * DAY + e["tod0"]
            if base + a < 0:
                a = off(r, 0, t1)
                b = a + 5000
            if r.random() < .4:
                h = off(r, 125, 3 * inf["interval"]) // 250 * 250 + 250
                txt.append(mjd_text(r, base + a + h) + "+-" + hms(r, h))
                b = a + 2 * h
            else:
                txt.append(mjd_text(r, base + a) + ".." + mjd_text(r, base + b))
            rngs.append([a, b])
        elif k == "rel":
            a = off(r, 0, t1 - t0)
            if r.random() < .4:
                h = r.randrange(1, 12) * 500
                txt.append(hms(r, a) + r.choice(["+-", " +- "]) + hms(r, h))
                rngs.append([a - h, a + h])
            else:
                b = a + r.randrange(1, 40) * 250
                txt.append(hms(r, a) + r.choice(["..", " .. "]) + hms(r, b))
                rngs.append([a, b])
        else:
            sh = DAY // 4 if k == "lst" else 0
            a = (e["tod0"] + off(r, t0, t1) + sh) % DAY
            if r.random() < .4:
                h = r.randrange(1, 40) * 250
                if r.random() < .2:
                    h = 6 * 3600000
                txt.append(hms(r, a) + "+-" + hms(r, h))
                lo, hi = a - h, a + h
                rngs.append([lo % DAY, hi % DAY])
            else:
                b = (a + r.choice([off(r, 250, 20000), 12 * 3600000, 20 * 3600000])) // 250 * 250 % DAY + 125
                if abs(b - a) < 250:
                    b = (a + 1000) % DAY
                txt.append(hms(r, a) + ".." + hms(r, b))
                rngs.append([a, b])
    if k != "slot":
        s[k] = rngs
    key = {"abs": "abstime", "rel": "reltime", "tod": "timeofday", "lst": "lst", "slot": "timeslot"}[k]
    par.append([pre + key, "[" + r.choice([",", ", "]).join(txt) + "]"])


def azel(r, s, inf, e, par, pre):
    for k, key in (("az", "azimuth"), ("el", "elevation")):
        if r.random() < .6:
            p = r.choice(inf["pos"])
            at = (e["tod0"] + inf["t0"] + 100000 * p[0]) % DAY if k == "az" else (100000 * p[1]) % DAY
            a = (at - r.choice([500000, 2000000, 4000000])) % DAY // 250 * 250 + 125
            b = (at + r.choice([500000, 2000000, 4000000])) % DAY // 250 * 250 + 125
            s[k] = [[a, b]]
            par.append([pre + key, "[" + hms(r, a) + ".." + hms(r, b) + "]"])


def freqs(r, s, inf, e, par, pre):
    s["fron"] = 1
    txt = []
    fr = inf["freqs"]
    for _ in range(r.choice([1, 1, 2])):
        a = 2 * r.randrange(fr[0] - 6, fr[-1] + 6) + 1
        b = a + 2 * r.randrange(1, max(3, fr[-1] - fr[0]))
        hz = lambda x: e["f0"] * 1e6 + x / 2 * e["fu"]
        if r.random() < .4:
            c, h = (a + b) / 2, (b - a) / 2
            u = r.choice([("MHz", 1e6), ("kHz", 1e3), ("Hz", 1)])
            v = r.choice([("MHz", 1e6), ("kHz", 1e3), ("Hz", 1)])
            txt.append("%s %s+-%s%s" % (repr(hz(c) / u[1]), u[0], repr(h / 2 * e["fu"] / v[1]), v[0]))
        else:
            u, sc = r.choice([("MHz", 1e6), ("kHz", 1e3), ("Hz", 1), ("", 1e6), ("GHz", 1e9)])
            k = r.choice(["%s%s..%s%s", "%s%s .. %s %s "])
            first, second = u, u
            if u and r.random() < .4:
                first, second = r.choice([("", u), (u, "")])
            txt.append(k % (repr(hz(a) / sc), first, repr(hz(b) / sc), second))
        s["freq"].append([a, b])
    par.append([pre + "freqrange", "[" + ",".join(txt) + "]"])


def chans(r, s, inf, par, pre):
    n = len(inf["freqs"])
    s["chon"] = 1
    txt = []

    def one(x):
        return r.choice([str(x), "nchan-%d" % (n - x) if x <= n else str(x), "nchan*2-%d" % (2 * n - x) if x <= 2 * n else str(x),
                         "(%d+%d)" % (x // 2, x - x // 2)])
    for _ in range(r.choice([1, 1, 2, 3])):
        a = r.randrange(0, n + 4)
        if r.random() < .25:
            a += n
        b = a + r.choice([0, 0, 1, 2, 5])
        s["chan"].append([a, b])
        txt.append(one(a) if a == b else "%s..%s" % (one(a), one(b)))
    par.append([pre + "chan", "[" + ",".join(txt) + "]"])


PH = [(1, 0.01), (97, 1), (1, 97), (-97, 1), (-1, 97), (97, -1), (-97, -1), (-41, -43), (43, 41), (41, 997), (-997, 41), (41, -997)]


def values(r, s, inf, par, pre):
    import math
    n = inf["ncorr"]
    which = r.choice(["amon", "reon", "imon", "phon"])
    s[which] = 1
    lo, hi, klo, khi = {"amon": ("amin", "amax", "amplmin", "amplmax"), "reon": ("rmin", "rmax", "realmin", "realmax"),
                        "imon": ("imin", "imax", "imagmin", "imagmax"), "phon": ("pmin", "pmax", "phasemin", "phasemax")}[which]
    sides = r.choice([[lo], [hi], [lo, hi]])
    for side in sides:
        key = klo if side == lo else khi

        def draw():
            if which == "phon":
                p, q = r.choice(PH[1:])
                return [p, q], repr(math.atan2(q, p))
            if which == "amon":
                x = r.choice([r.randrange(1, 56), 10 * r.randrange(1, 6), 26])
            else:
                x = r.randrange(-18, 19) * 2 + r.choice([0, 1])
            return x, num(r, x / 2)
        if r.random() < .4:
            v, t = draw()
            s[side] = [v] * 4
            par.append([pre + key, t])
        else:
            vals, txt = [], []
            for _ in range(r.choice([n, n, 4, 1, 2])):
                if vals and r.random() < .3:
                    vals.append(None)
                    txt.append("")
                else:
                    v, t = draw()
                    vals.append(v)
                    txt.append(t)
            cur = list(empty()[side])
            for k, v in enumerate(vals[:4]):
                if v is not None:
                    cur[k] = v
            s[side] = cur
            par.append([pre + key, "[" + ",".join(txt) + "]"])


def tree(r, names, depth):
    k = r.random()
    if depth == 0 or k < .3:
        n = r.choice(names)
        return {"op": "set", "n": n}
    if k < .5:
        return {"op": "not", "x": tree(r, names, depth - 1)}
    return {"op": r.choice(["and", "or"]), "l": tree(r, names, depth - 1), "r": tree(r, names, depth - 1)}


PREC = {"or": 1, "and": 2, "not": 3, "set": 4}


def show(r, t, least):
    if t["op"] == "set":
        x = t["n"]
    elif t["op"] == "not":
        o = r.choice(["!", "! ", "not ", "NOT\t", "Not "])
        a = show(r, t["x"], 3)
        if a.startswith("(") and r.random() < .3:
            o = "not"
        x = o + a
    else:
        o = r.choice(["&", "&&", " & ", " and ", " AND\t", "and"] if t["op"] == "and" else ["|", "||", ",", " , ", " or ", " OR ", "or"])
        a = show(r, t["l"], PREC[t["op"]])
        b = show(r, t["r"], PREC[t["op"]] + 1)
        if o in ("and", "or"):          # without blanks only next to parentheses
            if not (a.endswith(")") and (b.startswith("(") or b.startswith("!"))):
                o = " " + o + " "
        x = a + o + b
    if PREC[t["op"]] < least or r.random() < .15:
        x = r.choice(["(%s)", "( %s )"]) % x
    return x


def number(t, order):
    """Sets are made in the order of their appearance."""
    if t["op"] == "set":
        order.append(t["n"])
        return {"op": "set", "k": len(order)}
    if t["op"] == "not":
        return {"op": "not", "x": number(t["x"], order)}
    left = number(t["l"], order)
    return {"op": t["op"], "l": left, "r": number(t["r"], order)}


def criteria(r, inf, e, par, pre, depth, chance=None):
    s = empty()
    c = chance or r.choice([.15, .3, .5])
    if r.random() < c:
        baseline(r, s, inf, par, pre)
    if r.random() < c * .6:
        times(r, s, inf, e, par, pre)
    if r.random() < c * .4:
        azel(r, s, inf, e, par, pre)
    if r.random() < c * .6:
        if r.random() < .7:
            s["uvmin"] = r.randrange(1, 150)
            par.append([pre + "uvmmin", num(r, s["uvmin"] / 2)])
        if r.random() < .6:
            s["uvmax"] = s["uvmin"] + r.randrange(1, 120)
            par.append([pre + "uvmmax", num(r, s["uvmax"] / 2)])
    if r.random() < c:
        chans(r, s, inf, par, pre)
    if r.random() < c * .6:
        freqs(r, s, inf, e, par, pre)
    for _ in range(2):
        if r.random() < c * .6:
            values(r, s, inf, par, pre)
    if depth and r.random() < .6:
        names = r.sample(["s1", "s2", "t_3", "Org", "andy", "note", "A"], r.choice([1, 2, 3]))
        t = tree(r, names, r.choice([0, 1, 2, 3]))
        order = []
        s["expr"] = number(t, order)
        subs = {}
        for n in dict.fromkeys(order):
            subs[n] = criteria(r, inf, e, par, pre + n + ".", depth - 1 if r.random() < .3 else 0, .35)
        s["subs"] = [subs[n] for n in order]
        par.append([pre + "expr", show(r, t, 0)])
    return s


def dedup(par):
    out = {}
    for k, v in par:
        out[k] = v
    return [[k, v] for k, v in out.items()]


def buf(r, inf, k, special=False, umax=100):
    b = g.buf(r, inf, k)
    for f in b["f"]:
        for c in f:
            c[:] = [c[0]] * len(c)
    for u in b["uvw"]:
        u[:] = [max(-umax, min(umax, x)) for x in u]
    if r.random() < .3:     # lengths that are integers, on the borders of ranges
        for u in b["uvw"]:
            if umax >= 100:
                u[:2] = r.choice([[3, 4], [0, 10], [-6, 8], [12, -5], [-20, -21], [30, 40], [0, -15], [48, 14]])
        for d in b["d"][0]:
            for c in d:
                x = [r.choice([[3, 4], [0, 10], [-6, 8], [12, -5], [-15, -20], [-5, 0], [0, -15]]) for _ in range(2)]
                c[:] = [list(r.choice(x)) for _ in c]
    if special:
        for d in b["d"][0]:
            for c in d:
                for p in c:
                    if r.random() < .06:
                        p[r.randrange(2)] = r.choice([7777, 7778])
    return b


def names(r, inf):
    n = len(inf["pos"])
    pool = NAMES + ["ST%03d" % k for k in range(40)]
    inf["names"] = r.sample(NAMES, n) if n <= len(NAMES) else pool[:n]


def history(r, ev, inf, make, special=False, umax=100, nbuf=None):
    ev.append(make)
    for k in range(r.choice([0, 1, 2, 3, 5]) if nbuf is None else nbuf):
        ev.append(buf(r, inf, k, special, umax))
        if r.random() < .1:
            ev.append({"op": "counts", "step": 0})
    ev.append({"op": "finish"})
    ev.append({"op": "counts", "step": 0})


def pre(ctx, n):
    r, ev = ctx.rng, []
    for _ in range(n):
        e = new(r)
        ev.append(e)
        inf = g.info(r, nbl=r.randrange(1, 7), nant=r.choice([2, 3, 4, 5]), ntime=r.randrange(2, 9))
        names(r, inf)
        par = []
        prefix = r.choice(["pre.", "flag1."])
        s = criteria(r, inf, e, par, "", 2)
        s["mode"] = r.choice(["set", "set", "set", "clear", "setcomplement", "clearcomplement"])
        s["kind"], s["bad"] = "pre", 0
        s["rep"] = rep(r, par, inf, prefix)
        if s["mode"] != "set" or r.random() < .3:
            t = s["mode"]
            if "comp" in t and r.random() < .5:
                t = t.replace("complement", "other")
            par.append(["mode", r.choice([t, t.upper(), t.capitalize()])])
        clear = s["mode"].startswith("clear")
        val = '"amon": 1' in repr(s).replace("'", '"')
        special = clear and not any(k in repr(s) for k in ("'amon': 1", "'reon': 1", "'imon': 1", "'phon': 1"))
        history(r, ev, inf, {"op": "make", "info": inf, "set": s, "steps": [{"type": "preflagger", "prefix": prefix, "par": dedup(par)}]},
                special)
    return ev


def bad(ctx, n):
    """Settings that must be refused."""
    r, ev = ctx.rng, []
    wrong = [["mode", "flag"], ["mode", "setall"], ["expr", "a b"], ["expr", "a &"], ["expr", "& a"], ["expr", "(a"], ["expr", "a)"],
             ["expr", "a | | b"], ["expr", "!"], ["expr", "()"], ["expr", "a (b)"], ["expr", "a ! b"], ["expr", "a-b"], ["expr", "1x"],
             ["expr", "a and"], ["expr", "not"], ["expr", "a or and b"], ["corrtype", "both"], ["blrange", "[1,2,3]"],
             ["chan", "[..3]"], ["chan", "[2..]"], ["chan", "[3..2]"], ["timeofday", "[1:0:0]"], ["reltime", "[0:0:20..0:0:10]"],
             ["abstime", "[1:0:0..2:0:0]"], ["freqrange", "[120MHz]"], ["freqrange", "[120..130furlong]"], ["timeofday", "[x..y]"],
             ["reltime", "[0:0:10+-0:0:0]"], ["baseline", "[[a,b,c]]"], ["baseline", "[CS*"], ["amplmin", "abc"], ["chan", "[foo]"]]
    for w in wrong + [r.choice(wrong) for _ in range(n)]:
        ev.append(new(r))
        inf = g.info(r)
        names(r, inf)
        par = [w]
        if r.random() < .5:
            par.append(["uvmmin", "10"])
        s = empty()
        s.update({"mode": "set", "kind": "pre", "bad": 1, "rep": {"warn": 0, "full": 0, "save": 0}})
        ev.append({"op": "make", "info": inf, "set": s, "steps": [{"type": "preflagger", "prefix": "pre.", "par": dedup(par)}]})
    for key, val in [["uvmrange", "[10]"], ["umrange", "[10-20]"], ["vmrange", "[a..b]"], ["wlambdarange", "[1..x]"],
                     ["phasecenter", "[1,2,3,4]"], ["phasecenter", "nosuch"], ["phasecenter", "[0deg,abc]"], ["phasecenter", "[x,0deg]"],
                     ["phasecenter", "[0deg,0deg,NOFRAME]"]]:
        ev.append(new(r))
        inf = g.info(r)
        names(r, inf)
        s = {"kind": "uvw", "bad": 1, "none": 0, "centre": [], "m": {}, "l": {}, "rep": {"warn": 0, "full": 0, "save": 0}}
        ev.append({"op": "make", "info": inf, "set": s,
                   "steps": [{"type": "uvwflagger", "prefix": "u.", "par": [[key, val], ["uvmmin", "3"]]}]})
    return ev


INF = 40000


def ranges(r, par, key, is_uv, scale, span, odd):
    """Ranges in units of 1/scale; a bound is odd where equality must be avoided."""
    out, txt = [], []

    def bound(lo, hi):
        x = r.randrange(lo, hi)
        return x | 1 if odd else x
    for _ in range(r.choice([0, 1, 1, 2])):
        a = bound(0 if is_uv else -span, span)
        b = a + 2 * r.randrange(1, max(2, span // 3))
        if r.random() < .4:
            c, h = (a + b) // 2, (b - a) // 2
            if is_uv and r.random() < .3:
                h = c + r.randrange(1, 20) * 2 + ((c + 1) % 2 if odd else 0)
                if odd and (c - h) % 2 == 0:
                    h += 1
            a, b = c - h, c + h
            txt.append(repr(c / scale) + "+-" + repr(h / scale))
        else:
            txt.append(repr(a / scale) + ".." + repr(b / scale))
        out.append([a, b])
    if txt:
        par.append([key + "range", "[" + ",".join(txt) + "]"])
    if r.random() < .3:
        x = bound(1, span)
        out.append([-INF, x])
        par.append([key + "min", repr(x / scale)])
    if r.random() < .3:
        x = bound(1, span)
        out.append([x, INF])
        par.append([key + "max", repr(x / scale)])
    return out


def uvw(ctx, n):
    r, ev = ctx.rng, []
    c = 299792458.0
    for _ in range(n):
        centre = r.random() < .35
        e = new(r, epoch_days=r.choice([0, 51544]) if centre else None, fu=c / 1000, f0=0)
        ev.append(e)
        bda = r.random() < .35
        inf = g.info(r, nbl=r.randrange(1, 5), nchan=r.randrange(1, 7), width=r.choice([2, 4, 10]))
        inf["freqs"] = [f + 2 for f in inf["freqs"]]
        if inf["freqs"][-1] > 95:
            d = inf["freqs"][-1] - 95
            d += d % 2
            inf["freqs"] = [f - d for f in inf["freqs"]]
        if inf["freqs"][0] < 1:
            inf["freqs"] = [1 + 2 * k for k in range(len(inf["freqs"]))]
        names(r, inf)
        par, m, l = [], {}, {}
        prefix = r.choice(["uvw.", "u2."])
        few = r.random() < .5
        pick = r.choice(["m", "l", "ml", "ml", ""] if r.random() < .9 else [""])
        for k in ("uv", "u", "v", "w"):
            on = lambda t: t in pick and (not few or r.random() < .4)
            m[k] = ranges(r, par, k + "m", k == "uv", 2, 150, centre) if on("m") else []
            l[k] = ranges(r, par, k + "lambda", k == "uv", 4000, 8000, True) if on("l") else []
        none = 1 if not any(m.values()) and not any(l.values()) else 0
        s = {"kind": "uvw", "bad": 0, "none": none, "centre": [], "m": m, "l": l, "rep": rep(r, par, inf, prefix)}
        if centre:
            inf["interval"] = 21600000
            inf["t0"] = 21600000 * r.randrange(0, 4)
            inf["pos"] = [[x // 2 for x in p] for p in inf["pos"]]
            lon, lat = r.randrange(0, 4), r.choice([0, 0, 0, 1, -1])
            f = r.random()
            if f < .2:
                s["centre"] = ["sun", 0, 0]
                par.append(["phasecenter", r.choice(["SUN", "[sun]", "Sun"])])
            else:
                fr, sh = r.choice([("", 0), ("", 0), ("J2000", 0), ("b1950", 1), ("GALACTIC", 2)])
                s["centre"] = ["fixed", lon + sh, lat]
                lt = r.choice(["%ddeg" % (90 * lon), "%dh00m00" % (6 * lon), "%d:00:00" % (6 * lon)])
                bt = r.choice(["%ddeg" % (90 * lat), "%s%d.00.00.0" % ("-" if lat < 0 else "", 90 * abs(lat))])
                par.append(["phasecenter", "[%s,%s%s]" % (lt, bt, "," + fr if fr else "")])
        if bda:
            nb = len(inf["ant1"])
            inf["bda"] = {"m": [r.choice([x for x in range(1, len(inf["freqs"]) + 1)]) for _ in range(nb)],
                          "fac": [r.choice([1, 2]) for _ in range(nb)]}
            inf["bda"]["m"][r.randrange(nb)] = len(inf["freqs"])
        make = {"op": "make", "info": inf, "set": s,
                "steps": [{"type": "uvwflagger", "prefix": prefix, "par": dedup(par), "bda": bda}]}
        if not bda:
            history(r, ev, inf, make, umax=50)
            continue
        ev.append(make)
        for k in range(r.choice([0, 1, 2, 3])):
            rows = []
            for _ in range(r.randrange(1, 6)):
                b = r.randrange(0, len(inf["ant1"]))
                mm = inf["bda"]["m"][b]
                rows.append({"t": inf["t0"] + (k + r.randrange(0, 3)) * inf["interval"], "int": inf["interval"], "exp": inf["interval"],
                             "bl": b + 1, "uvw": [r.randrange(-50, 51) for _ in range(3)],
                             "d": [[[r.randrange(-20, 21), r.randrange(-20, 21)] for _ in range(inf["ncorr"])] for _ in range(mm)],
                             "w": [[r.randrange(0, 4) for _ in range(inf["ncorr"])] for _ in range(mm)],
                             "f": [[x] * inf["ncorr"] for x in [int(r.random() < .3) for _ in range(mm)]]})
            ev.append({"op": "bda", "rows": sorted(rows, key=lambda x: x["t"])})
        ev.append({"op": "finish"})
        ev.append({"op": "counts", "step": 0})
    return ev


def counter(ctx, n):
    r, ev = ctx.rng, []
    for _ in range(n):
        ev.append(new(r))
        if r.random() < .3:
            inf = g.info(r, nant=r.choice([12, 16, 17, 31]), nbl=r.randrange(8, 30), nchan=r.randrange(1, 4))
        else:
            inf = g.info(r, nchan=r.choice([1, 3, 9, 10, 11, 21]))
        names(r, inf)
        par = []
        prefix = r.choice(["count.", "counter."])
        s = {"kind": "counter", "bad": 0, "rep": rep(r, par, inf, prefix, "")}
        make = {"op": "make", "info": inf, "set": s, "steps": [{"type": "counter", "prefix": prefix, "par": par}]}
        js = None
        if r.random() < .5:
            js = os.path.join(ctx.tmp, "stations-%d.json" % r.randrange(10 ** 6))
            par += [["savetojson", "true"], ["jsonfilename", js]]
        history(r, ev, inf, make)
        for x in ev[-12:]:
            if x["op"] == "counts" and js and x is ev[-1]:
                x["json"] = js
        if r.random() < .5:
            inf2 = g.info(r, nant=r.choice([3, 4, 18]))
            names(r, inf2)
            inc = []
            for _ in range(r.randrange(0, 12)):
                k = r.choice("bcp")
                lim = {"b": len(inf2["ant1"]), "c": len(inf2["freqs"]), "p": inf2["ncorr"]}[k]
                inc.append([k, r.randrange(1, lim + 1), r.randrange(1, 5), r.randrange(2)])
            ev.append({"op": "fc", "info": inf2, "inc": inc, "nt": r.choice([0, 10, 30, 100])})
    return ev


def run(ctx):
    b = g.build(ctx, "flag", ["steps/PreFlagger.cc", "steps/UVWFlagger.cc", "steps/Counter.cc", "base/BaselineSelection.cc",
                              "base/UVWCalculator.cc"], ["WITH_PREFLAGGER", "WITH_UVWFLAGGER", "WITH_COUNTER"])
    ctx.model("FlaggingMC.tla")
    ctx.assumptions.append("conversions to sidereal time, azimuth and elevation, and between celestial frames are stand-ins of the "
                           "missing library; what the steps do with their results is checked")
    for k in range(ctx.n(1, 12)):
        ctx.conform(b, pre(ctx, ctx.n(500, 900)), "FlaggingTrace")
        ctx.conform(b, uvw(ctx, ctx.n(250, 500)), "FlaggingTrace")
    ctx.conform(b, counter(ctx, ctx.n(120, 1200)), "FlaggingTrace")
    ctx.conform(b, bad(ctx, ctx.n(10, 100)), "FlaggingTrace")
