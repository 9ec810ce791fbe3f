"""P30: steps that turn one stream of time slots into another."""
import fnmatch
import stepgen as g

SRC = ["steps/Upsample.cc", "steps/NullStokes.cc", "steps/Combine.cc", "steps/ScaleData.cc", "steps/Filter.cc",
       "steps/Interpolate.cc", "base/UVWCalculator.cc", "base/BaselineSelection.cc"]
DEF = ["WITH_UPSAMPLE", "WITH_NULLSTOKES", "WITH_COMBINE", "WITH_SCALEDATA", "WITH_FILTER", "WITH_INTERPOLATE"]


def stream(r, ev, inf, step, s, n=None, names=("",), finish=True, gaps=False, tweak=None):
    ev.append({"op": "make", "info": inf, "steps": [step], "step": s})
    if "fields" in step:
        ev[-1]["fields"], ev[-1]["nant"] = step.pop("fields"), step.pop("nant")
    for k in range(inf["ntime"] if n is None else n):
        b = g.buf(r, inf, k, names)
        if tweak:
            tweak(b)
        ev.append(b)
    if finish:
        ev.append({"op": "finish"})


def yes(r, v):
    return r.choice(["true", "T", "1", "yes"]) if v else r.choice(["false", "F", "0", "no"])


def nullstokes(r, ev):
    inf = g.info(r, ncorr=4 if r.random() < .9 else None, nchan=r.randrange(1, 4))
    s = {"kind": "nullstokes"}
    par = []
    for x in "iquv":
        s[x] = r.random() < .4
        if s[x] or r.random() < .4:
            par.append(["modify_" + x, yes(r, s[x])])
    stream(r, ev, inf, {"type": "nullstokes", "par": par}, s, n=r.randrange(0, 4) if inf["ncorr"] == 4 else 0)


def rows(r, inf, extra):
    q = []
    for _ in range(r.randrange(0, 5)):
        b = r.randrange(len(inf["ant1"]))
        m = inf["bda"]["m"][b]

        def cube(f):
            return [[f() for _ in range(inf["ncorr"])] for _ in range(m)]
        v = inf.get("most", 20)
        one = {"t": r.randrange(0, 9) * 1000, "int": 2000, "exp": r.choice([2000, 1000]), "bl": b + 1, "nr": r.randrange(9),
               "d": cube(lambda: [r.randrange(-v, v + 1), r.randrange(-v, v + 1)]), "w": cube(lambda: r.randrange(0, 5)),
               "f": cube(lambda: r.randrange(2)), "uvw": [r.randrange(-99, 99) for _ in range(3)]}
        if extra:
            one["x"] = cube(lambda: [r.randrange(-20, 21), r.randrange(-20, 21)])
        q.append(one)
    q.sort(key=lambda one: one["t"])
    return q


def bda_info(r, inf, exact=False):
    n = len(inf["freqs"])
    inf["bda"] = {"m": [r.choice([m for m in range(1, n + 1) if n % m == 0]) for _ in inf["ant1"]], "fac": [1] * len(inf["ant1"])}
    inf["bda"]["m"][r.randrange(len(inf["ant1"]))] = n
    if exact:
        inf["bda"]["m"][0] = r.choice([inf["bda"]["m"][0], 1])


def combine(r, ev):
    bda = r.random() < .4
    inf = g.info(r, nchan=r.choice([1, 2, 4]))
    op, sign = r.choice([("add", 1), ("subtract", -1), ("", -1), ("multiply", 0)] if r.random() < .2 else [("add", 1), ("subtract", -1)])
    s = {"kind": "combine", "sign": sign, "buffer": r.choice(["model", "m2"])}
    par = [["buffername", s["buffer"]]] + ([["operation", op]] if op else [])
    step = {"type": "combine", "par": par, "bda": bda}
    if not bda:
        names = ["", s["buffer"]] + (["other"] if r.random() < .4 else [])
        stream(r, ev, inf, step, s, n=r.randrange(0, 4), names=sorted(names))
        return
    bda_info(r, inf)
    ev.append({"op": "make", "info": inf, "steps": [step], "step": s})
    for _ in range(r.randrange(0, 3)):
        x = r.random() < .9
        e = {"op": "bda", "rows": rows(r, inf, x)}
        if x:
            e["extra"] = s["buffer"]
        if e["rows"]:
            ev.append(e)
    ev.append({"op": "finish"})


def scale(r, ev):
    bda = r.random() < .4
    ev[-1].update(f0=0, fu=1.0e6)
    inf = g.info(r, nchan=r.choice([1, 2, 4]), nant=r.randrange(2, 5))
    if bda:
        # averaged channels are to have whole frequencies
        w = r.choice([2, 6])
        inf["widths"] = [w] * len(inf["freqs"])
        inf["freqs"] = [10 + w // 2 + k * w for k in range(len(inf["freqs"]))]
    else:
        inf["freqs"] = sorted(r.sample(range(1, 41), len(inf["freqs"])))
    na = len(inf["pos"])
    inf["names"] = [r.choice(["CS", "RS", "DE"]) + "%03d" % a for a in range(na)]
    lba = r.random() < .5
    inf["antset"] = r.choice(["LBA", "LBA_INNER"]) if lba else r.choice(["", "HBA_DUAL", "HBA"])
    default = r.random() < .35 and not bda
    s = {"kind": "scaledata", "lba": lba, "bad": False, "coeffs": [], "size": r.choice(["", "yes", "no", "no"]), "match": [0] * na}
    pats = []
    if not default or r.random() < .3:
        for _ in range(r.choice([1, 1, 2, 3])):
            pats.append(r.choice(["CS*", "RS*", "?S*", "*1", "DE*", "*", "CS00[01]", r.choice(inf["names"])]))
            s["coeffs"].append([r.randrange(0 if k else 1, 6) for k in range(r.choice([1, 1, 2, 2, 3]))])
        if not default:
            pats.append("*")
            s["coeffs"].append([r.randrange(1, 9)])
    for a in range(na):
        for k, p in enumerate(pats):
            if fnmatch.fnmatchcase(inf["names"][a], p):
                s["match"][a] = k + 1
                break
    if 0 in s["match"]:
        inf["freqs"] = sorted(r.sample([30, 40, 50, 60, 70] if lba else [120, 130, 150, 170, 180], len(inf["freqs"])))
        inf["most"] = 1
        s["coeffs"] = [c[:1] for c in s["coeffs"]]
    elif not bda and r.random() < .1:
        s["bad"] = True
    par = []
    if pats:
        k = list(s["coeffs"])
        if s["bad"]:
            k = r.choice([k[:-1], k + [[1]], [[]] * len(k)])
        par = [["stations", "[" + ",".join(pats) + "]"], ["coeffs", "[" + ",".join("[%s]" % ",".join(map(str, c)) for c in k) + "]"]]
        if s["bad"] and k == [] and False:
            par = par[:1]
    if s["size"]:
        par.append(["scalesize", yes(r, s["size"] == "yes")])
    step = {"type": "scaledata", "par": par, "bda": bda}
    s["elem"] = [4] * na
    nominal = 48 if lba else 24
    if s["size"] != "no" or r.random() < .2:
        fields = []
        for a in range(na):
            e = r.choice([2, 4, 8])
            s["elem"][a] = e
            used = 2 * nominal * 4 // e          # X and Y are separate
            cut = r.choice([used, used // 2])
            for part in (cut, used - cut):
                if part or r.random() < .2:
                    fl = [0] * part + [1] * r.choice([0, 5])
                    r.shuffle(fl)
                    fields.append([a, fl])
        r.shuffle(fields)
        step["fields"], step["nant"] = fields, na
        if s["size"] != "no" and r.random() < .05:
            step["nant"], s["bad"] = na + 1, True
    if bda:
        bda_info(r, inf)
        mk = {"op": "make", "info": inf, "steps": [step], "step": s}
        if "fields" in step:
            mk["fields"], mk["nant"] = step.pop("fields"), step.pop("nant")
        ev.append(mk)
        if s["bad"]:
            return
        for _ in range(r.randrange(1, 3)):
            q = rows(r, inf, False)
            if q:
                ev.append({"op": "bda", "rows": q})
        ev.append({"op": "finish"})
        return

    def small(b):
        if inf.get("most"):
            b["d"] = [[[[[max(-1, min(1, x)) for x in v] for v in c] for c in bl] for bl in d] for d in b["d"]]
    stream(r, ev, inf, step, s, n=0 if s["bad"] else r.randrange(1, 3), tweak=small)


TABLES = ["FEED", "POINTING", "SYSCAL"]


def filt(r, ev):
    inf = g.info(r, nbl=r.randrange(1, 6), nchan=r.randrange(1, 7))
    na = len(inf["pos"])
    inf["names"] = ["%s%03d" % (r.choice(["CS", "RS"]), a) for a in range(na)]
    n = len(inf["freqs"])
    s = {"kind": "filter", "pairs": [], "corr": "", "start": 0, "nchan": 0, "remove": r.random() < .5}
    par = [["remove", yes(r, True)]] if s["remove"] else []
    if r.random() < .5:
        s["start"] = r.randrange(0, n + (1 if r.random() < .1 else 0))
        t = str(s["start"])
        if s["start"] * 2 == n and r.random() < .6:
            t = "nchan/2"
        elif s["start"] == n - 1 and r.random() < .5:
            t = "nchan-1"
        par.append(["startchan", t])
    if r.random() < .5:
        s["nchan"] = r.choice([0, 1, 2, n, n + 3])
        t = str(s["nchan"])
        if s["nchan"] == n and r.random() < .5:
            t = "nchan"
        par.append(["nchan", t])
    if r.random() < .7:
        if r.random() < .7:
            k = r.randrange(1, 4)
            have = list(zip(inf["ant1"], inf["ant2"]))
            for _ in range(k):
                p = list(r.choice(have)) if r.random() < .8 else [r.randrange(na), r.randrange(na)]
                if r.random() < .4:
                    p = p[::-1]
                s["pairs"].append(p)
            par.append(["baseline", "[" + ",".join("[%s,%s]" % (inf["names"][a], inf["names"][b]) for a, b in s["pairs"]) + "]"])
        if r.random() < .4 or not s["pairs"]:
            s["corr"] = r.choice(["auto", "cross"])
            par.append(["corrtype", s["corr"]])
    kept = [b for b, (a, c) in enumerate(zip(inf["ant1"], inf["ant2"]))
            if (not s["pairs"] or [a, c] in s["pairs"] or [c, a] in s["pairs"])
            and (s["corr"] != "auto" or a == c) and (s["corr"] != "cross" or a != c)]
    fine = kept and s["start"] < n
    rn = r.random() < .5

    def number(b):
        if rn:
            b["rownrs"] = [r.randrange(0, 1000) for _ in inf["ant1"]]
    stream(r, ev, inf, {"type": "filter", "par": par}, s, n=r.randrange(1, 3) if fine else 0, tweak=number)
    if not fine:
        return
    ids = lambda: [r.randrange(na) for _ in range(r.randrange(0, 7))]
    tabs = {"ANTENNA": {"NAME": inf["names"]}}
    for t in TABLES:
        if r.random() < .7:
            c = ids()
            tabs[t] = {"ANTENNA_ID": c, "TIME": [r.randrange(100) for _ in c]}
    if r.random() < .7:
        c = ids()
        tabs["QUALITY_BASELINE_STATISTIC"] = {"ANTENNA1": c, "ANTENNA2": [r.randrange(na) for _ in c], "V": [r.randrange(100) for _ in c]}
    if r.random() < .7:
        c = ids()
        tabs["LOFAR_ANTENNA_FIELD"] = {"ANTENNA_ID": c, "NAME": [r.choice(["HBA", "HBA0", "HBA1"]) for _ in c]}
        if c and r.random() < .7:
            e = [r.randrange(len(c)) for _ in range(r.randrange(0, 7))]
            tabs["LOFAR_ELEMENT_FAILURE"] = {"ANTENNA_FIELD_ID": e, "ELEMENT": [r.randrange(9) for _ in e]}
    ev.append({"op": "ms", "tables": tabs})


def interpolate(r, ev):
    inf = g.info(r, nbl=r.randrange(1, 3), nchan=r.randrange(1, 7), ncorr=r.choice([1, 2]), ntime=r.randrange(1, 10))
    s = {"kind": "interpolate", "window": r.choice([1, 3, 3, 5, 5, 5]) if r.random() < .95 else r.choice([0, 2, 4])}
    bad = r.random() < .3

    def spoil(b):
        if bad:
            for bl in b["d"][0]:
                for c in bl:
                    for k in range(len(c)):
                        if r.random() < .1:
                            c[k] = r.choice([[7777, 1], [3, 7777], [7778, 0], [7777, 7777]])
    stream(r, ev, inf, {"type": "interpolate", "par": [["windowsize", str(s["window"])]]}, s,
           n=0 if s["window"] % 2 == 0 else r.choice([inf["ntime"], inf["ntime"], 0]), tweak=spoil)


def upsample(r, ev):
    n = r.choice([2, 2, 3, 4]) if r.random() < .95 else r.choice([0, 1])
    inf = g.info(r, nchan=r.randrange(1, 3), ncorr=1, nbl=r.randrange(1, 4), ntime=r.randrange(1, 6))
    s = {"kind": "upsample", "n": n, "update": r.random() < .4}
    inf["interval"] = r.choice([1, 2, 5]) * 2000 * max(n, 1)
    if s["update"]:
        # stations turn by quarters of a day
        n = s["n"] = max(n, 2)
        ev[-1]["epoch"] = r.choice([0, 4.32e9])
        inf["ra0"] = 1
        inf["interval"] = 21600000 * n * r.choice([1, 1, 2])
        inf["ntime"] = min(inf["ntime"], 3)
        while inf["interval"] * inf["ntime"] > 8e8:
            inf["interval"] //= 2
        if inf["interval"] // n % 21600000:
            inf["interval"] = 21600000 * n
        inf["t0"] = inf["interval"] // 2 + inf["interval"] // n // 2
        while (inf["t0"] - inf["interval"] // 2 + inf["interval"] // n // 2) % 21600000:
            inf["t0"] += 10800000
    par = [["timestep", str(n)]] + ([["updateuvw", yes(r, s["update"])]] if s["update"] or r.random() < .3 else [])
    step = {"type": "upsample", "par": par}
    if r.random() < .2:
        step["ctor"] = [n, s["update"]]
    if n < 2:
        ev.append({"op": "make", "info": inf, "steps": [step], "step": s})
        return
    shift = [0]
    sub = inf["interval"] // n
    jitter = 0 if s["update"] else sub // 20

    def move(b):
        # a slot may begin before the previous one ended, or after a gap
        b["t"] += shift[0]
        if b["t"] > inf["t0"]:
            k = r.choice([0, 0, 0, 1, 2])
            if k == 1:
                d = -sub * r.randrange(1, n // 2 + 1)
                shift[0] += d
                b["t"] += d
            elif k == 2 and not s["update"]:
                shift[0] += 3 * inf["interval"]
                b["t"] += 3 * inf["interval"]
        b["t"] += r.choice([0, 0, jitter, -jitter])
        if r.random() < .3:
            b["f"] = [[[1 for _ in c] for c in bl] for bl in b["f"]]
    stream(r, ev, inf, step, s, n=r.choice([inf["ntime"]] * 3 + [0]), tweak=move)


def script(ctx, n):
    r = ctx.rng
    ev = []
    for _ in range(n):
        for make in (nullstokes, combine, scale, filt, interpolate, upsample):
            ev.append(g.new(r))
            make(r, ev)
    return ev


def run(ctx):
    b = g.build(ctx, "plain", SRC, DEF)
    ctx.assumptions.append("the channel selection of MsReader, which cannot be built here, is replaced by its documented meaning")
    for _ in range(ctx.n(1, 12)):
        ctx.conform(b, script(ctx, 130), "PlainTrace")
