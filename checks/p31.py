"""P31: superstations."""
import fnmatch
import stepgen as g

SRC = ["steps/StationAdder.cc", "base/UVWCalculator.cc"]
DEF = ["WITH_STATIONADDER"]


def yes(r, v):
    return r.choice(["true", "T", "1", "yes"]) if v else r.choice(["false", "F", "0", "no"])


def group(r, inf, name, taken):
    """patterns for some stations, and which station each matches"""
    names = inf["names"]
    free = [n for n in names if n not in taken]
    pats = []
    for _ in range(r.randrange(1, 4)):
        x = r.random()
        if x < .6 and free:
            p = r.choice(free if r.random() < .97 else names)
        elif x < .75:
            p = r.choice(["CS*", "RS*", "*2", "*[01]", "?S00[13]", "XX*"])
        else:
            p = None
        if p is None:
            a = r.randrange(len(names))
            hits = [k for k in range(a, min(a + 2, len(names)))]
            pats.append({"t": "CS%03d..CS%03d" % (hits[0], hits[-1]),
                         "all": [("CS%03d" % k) for k in hits], "neg": False})
            continue
        neg = bool(pats) and r.random() < .3
        pats.append({"t": (r.choice("!^") if neg else "") + p, "all": [p], "neg": neg})
    out = []
    for p in pats:
        for one in p["all"]:
            alt = [one]
            if "{" in one:
                alt = [one.replace("{1,3}", "1"), one.replace("{1,3}", "3")]
            out.append({"neg": p["neg"], "hits": [a for a, n in enumerate(names) if any(fnmatch.fnmatchcase(n, q) for q in alt)]})
    text = ["'%s'" % p["t"] if set(p["t"]) & set("!^*?[{") else p["t"] for p in pats]
    for q in out:
        for a in q["hits"]:
            (taken.discard if q["neg"] else taken.add)(names[a])
    return {"name": name, "pats": out}, name + ":[" + ",".join(text) + "]"


def one(r, ev):
    ev[-1]["epoch"] = r.choice([0, 4.32e9])
    inf = g.info(r, nbl=r.randrange(1, 11), nchan=r.randrange(1, 3), ncorr=r.choice([1, 2, 4]), nant=r.randrange(3, 6))
    na = len(inf["pos"])
    inf["names"] = ["%s%03d" % (r.choice(["CS", "CS", "RS"]), a) for a in range(na)]
    inf["pos"] = [[12 * x for x in p] for p in inf["pos"]]
    inf["ra0"] = 1
    inf["interval"] = r.choice([21600000, 43200000])
    inf["t0"] = 21600000 * r.randrange(1, 5)
    s = {"kind": "stationadder", "groups": [], "minpoints": r.choice([1, 1, 1, 2, 3]), "autocorr": r.random() < .5,
         "sumauto": r.random() < .6, "average": r.random() < .7, "useweights": r.random() < .7, "round": na > 4}
    text, taken = [], set()
    for k in range(r.choice([1, 1, 2, 2, 3])):
        name = "ST%d" % k if r.random() < .97 else r.choice(inf["names"])
        if any(q["name"] == name for q in s["groups"]):
            continue
        q, t = group(r, inf, name, taken)
        s["groups"].append(q)
        text.append(t)
    if len(s["groups"]) == 1 and r.random() < .3:
        q = s["groups"][0]
    s["groups"].sort(key=lambda q: q["name"])
    r.shuffle(text)
    par = [["stations", "{" + ",".join(text) + "}"]]
    for k in ("autocorr", "sumauto", "average", "useweights"):
        if s[k] != (k != "autocorr") or r.random() < .3:
            par.append([k, yes(r, s[k])])
    if s["minpoints"] != 1 or r.random() < .3:
        par.append(["minpoints", str(s["minpoints"])])
    sets = []
    for q in s["groups"]:
        S = set()
        for p in q["pats"]:
            S = S - set(p["hits"]) if p["neg"] else S | set(p["hits"])
        sets.append(S)
    bad = any(q["name"] in inf["names"] for q in s["groups"]) or any(a & b for k, a in enumerate(sets) for b in sets[:k])
    ev.append({"op": "make", "info": inf, "steps": [{"type": "stationadder", "par": par}], "step": s})
    if bad:
        return
    for k in range(r.randrange(1, 3)):
        ev.append(g.buf(r, inf, k, wmax=r.choice([1, 3])))
    ev.append({"op": "finish"})
    if r.random() < .6:
        tables(r, ev, inf, na)


def tables(r, ev, inf, na):
    ant = {"NAME": inf["names"], "TYPE": [r.choice(["GROUND", "SPACE"]) for _ in range(na)],
           "MOUNT": [r.choice(["X-Y", "ALT"]) for _ in range(na)],
           "OFFSET": [[r.randrange(9), 1, 2] for _ in range(na)], "DISH_DIAMETER": [10 + a for a in range(na)],
           "FLAG_ROW": [r.randrange(2) for _ in range(na)], "POSITION": inf["pos"]}
    beam = r.random() < .6
    ns = r.randrange(1, 4)
    if r.random() < .5:
        ant["STATION"] = [r.choice(["LOFAR", "x"]) for _ in range(na)]
    if beam or r.random() < .3:
        ant["LOFAR_STATION_ID"] = [r.randrange(ns) for _ in range(na)]
    if r.random() < .5:
        ant["LOFAR_PHASE_REFERENCE"] = inf["pos"]
    nf = r.randrange(1, 5)
    t = {"ANTENNA": ant, "FEED": {"ANTENNA_ID": [r.randrange(na) for _ in range(nf)], "BEAM": [r.randrange(99) for _ in range(nf)],
                                  "SORT": [r.choice("abc") for _ in range(nf)]}}
    if beam:
        m = r.randrange(1, 8)
        t["LOFAR_ANTENNA_FIELD"] = {"ANTENNA_ID": [r.randrange(na) for _ in range(m)], "NAME": [r.choice(["HBA0", "HBA1"]) for _ in range(m)],
                                    "POSITION": [[r.randrange(9), 0, 1] for _ in range(m)]}
        t["LOFAR_STATION"] = {"NAME": ["S%d" % k for k in range(ns)], "CLOCK_ID": [r.randrange(3) for _ in range(ns)], "FLAG_ROW": [0] * ns}
    ev.append({"op": "ms", "tables": t})


def run(ctx):
    b = g.build(ctx, "super", SRC, DEF)
    for _ in range(ctx.n(2, 16)):
        ev = []
        for _ in range(250):
            ev.append(g.new(ctx.rng))
            one(ctx.rng, ev)
        ctx.conform(b, ev, "SuperTrace")
