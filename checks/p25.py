"""P25: sky model text files."""
from vf import chars

SOURCES = ["sky_model/ReadSkyModel.cc", "sky_model/SkyModel.cc", "sky_model/SkyModelFunctions.cc", "sky_model/SkyModelSelection.cc",
           "sky_model/Source.cc", "sky_model/SourceInfo.cc", "sky_model/PatchInfo.cc", "sky_model/Patch.cc",
           "parmdb/ParmValue.cc", "parmdb/Grid.cc", "parmdb/Axis.cc", "parmdb/Box.cc", "base/PointSource.cc", "base/GaussianSource.cc",
           "base/Stokes.cc", "common/ProximityClustering.cc", "common/StringTools.cc", "common/ParameterValue.cc"]
QU = [(0, 0), (0, 3), (2, 0), (-1, 0), (0, -5), (3, 4), (4, 3), (-3, 4), (3, -4), (-4, -3), (5, 12), (12, -5), (6, 8)]


def case(r, s):
    x = r.random()
    return s if x < .6 else s.lower() if x < .75 else s.upper() if x < .9 else "".join(r.choice([c.upper(), c.lower()]) for c in s)


def num(r, lo=-9999, hi=9999, plain=False):
    """A decimal number of at most three decimals."""
    v = r.randrange(lo, hi + 1)
    k = r.random()
    if k < .3:
        return str(v // 100 if v >= 0 else -(-v // 100))
    t = "%s%d.%03d" % ("-" if v < 0 else "", abs(v) // 1000, abs(v) % 1000)
    if plain or k < .8:
        return t.rstrip("0").rstrip(".") if r.random() < .5 else t
    return r.choice(["%de-3" % v, "%de-03" % v, "%.2fe1" % (v // 100 / 10.) if v >= 0 else t, "+" + t if v >= 0 else t])


def whole(r, lo, hi):
    return r.choice(["%d", "%d.", "%d.0", "%de0"]) % r.randrange(lo, hi)


class Place:
    """A position: the same source of texts for whole columns and for parts."""
    def __init__(self, r, grid):
        self.r = r
        self.grid = grid

    def ra(self):
        r = self.r
        if self.grid:
            k = r.randrange(0, 72)
            return r.choice(["%02d:%02d:00", "%dh%dm0", "%d:%d:0.0", "%dh%02dm00s"]) % (k * 20 // 60, k * 20 % 60)
        f = r.randrange(10)
        if f < 5:
            return "%s%02d:%02d:%02d%s" % (r.choice(["", "", "", "-", "+"]), r.randrange(24), r.randrange(60), r.randrange(60),
                                           r.choice(["", ".0", ".5", "."]))
        if f < 7:
            return "%dh%dm%d%s" % (r.randrange(24), r.randrange(60), r.randrange(60), r.choice(["", ".3", "s", ".7s"]))
        if f < 9:
            return "%sdeg" % num(r, 0, 359999, True)
        return "%s%d.%d.%d.%d" % (r.choice(["", "-"]), r.randrange(0, 360), r.randrange(60), r.randrange(60), r.randrange(10))

    def dec(self):
        r = self.r
        if self.grid:
            k = r.randrange(-17, 18) * 5
            return r.choice(["%s%02d.00.00", "%s%d.0.0.0", "%s%ddeg", "%s%dd0m0"]) % ("-" if k < 0 else r.choice(["", "+"]), abs(k))
        f = r.randrange(10)
        sg = r.choice(["", "+", "-", "-"])
        if f < 6:
            return "%s%02d.%02d.%02d%s" % (sg, r.randrange(0, 90) if f else 0, r.randrange(60), r.randrange(60), r.choice(["", ".0", ".5"]))
        if f < 8:
            return "%s%dd%dm%d%s" % (sg, r.randrange(90), r.randrange(60), r.randrange(60), r.choice(["", ".1", "s"]))
        if f < 9:
            return "%sdeg" % num(r, -89999, 89999, True)
        return r.choice(["10:20:30", "95deg", "-96.00.00", "abc", "1.2", "12"])

    def part(self, name):
        r = self.r
        if name in ("rah", "dech"):
            v = r.randrange(0, 24 if name == "rah" else 6)
            return "%s%d" % ("" if name == "rah" else r.choice(["", "-"]), v)
        if name == "rad":
            return r.choice([str(r.randrange(0, 360)), num(r, 0, 359000, True)])
        if name == "decd":
            return r.choice(["-0", "-0", "0", str(r.randrange(-89, 90)), "-%02d" % r.randrange(0, 90)])
        return r.choice([str(r.randrange(60)), num(r, 0, 59999, True)])


def quoted(r, t):
    return r.choice("\"'").join(["", t, ""]) if False else (lambda q: q + t + q)(r.choice("\"'"))


def document(r):
    """A text and, for half of them, a separate format."""
    sep = r.choice([",", ",", ",", ",", " ", " ", ";", "|"])
    cols = ["Name", "Type"]
    if r.random() < .7:
        cols.append("Patch")
    parts = r.random() < .15
    if parts:
        cols += [r.choice(["rah", "rad"])] + r.choice([["ram", "ras"], ["ram"], []])
        cols += [r.choice(["decd", "decd", "dech"])] + r.choice([["decm", "decs"], ["decm"], []])
        if r.random() < .2:
            cols.insert(r.choice([0, len(cols)]), r.choice(["Ra", "dech", "rad", "Dec"]))
    else:
        cols += ["Ra", "Dec"]
        if r.random() < .03:
            cols.pop()
        if r.random() < .03:
            cols.insert(r.choice([0, len(cols)]), r.choice(["rah", "rad", "ram", "ras", "dech", "decd", "decm", "decs"]))
    pol = r.random()
    cols += [c for c in ["I", "Q", "U", "V"] if r.random() < .6]
    spectral = r.random() < .5
    if spectral:
        cols += ["ReferenceFrequency", "SpectralIndex"] + (["LogarithmicSI"] if r.random() < .6 else [])
    elif r.random() < .1:
        cols.append(r.choice(["ReferenceFrequency", "SpectralIndex"]))
    if r.random() < .5:
        cols += [c for c in ["MajorAxis", "MinorAxis", "Orientation", "OrientationIsAbsolute"] if r.random() < .7]
    if pol < .25:
        cols.append("RotationMeasure")
        if pol < .12:
            for c in ("Q", "U"):
                if c not in cols:
                    cols.append(c)
            if r.random() < .7:
                cols.append("ReferenceWavelength")
        else:
            cols = [c for c in cols if c not in ("Q", "U")] + ["PolarizedFraction", "PolarizationAngle"]
    elif pol < .3:
        cols.append(r.choice(["PolarizedFraction", "ReferenceWavelength"]))
    cols += [c for c in ["Category", "RefType", "Foo_1", "_9x", "Shape:a", "PositionAngle", "dummy", "dummy"] if r.random() < .12]
    if r.random() < .03:
        cols.append(r.choice(cols))
    if r.random() < .4:
        r.shuffle(cols)
    place = Place(r, r.random() < .5)
    units = r.choice([5, 10, 20, 40, 50])
    freq = r.choice(["10e6", "100e6", "1000e6", "100000000", "1e8", "1.0E+8", "1e7"])

    rmcol = pol < .12

    def good(c, nr):
        k = c.lower()
        if k == "name":
            return "s%d" % nr + r.choice(["", "", "_a", "-b", ".c"])
        if k == "type":
            return case(r, r.choice(["POINT", "POINT", "GAUSSIAN", "GAUSSIAN", "DISK"] if r.random() < .15 else ["POINT", "GAUSSIAN"]))
        if k == "ra":
            return place.ra()
        if k == "dec":
            return place.dec()
        if k in ("rah", "rad", "ram", "ras", "dech", "decd", "decm", "decs"):
            return place.part(k)
        if k == "i":
            return "%g" % (r.choice([units, units, -units, 2 * units]) / 10.) if rmcol else num(r, -2000, 9999)
        if k in ("q", "u", "v"):
            return num(r) if r.random() < .6 else r.choice(["0", "0.0"])
        if k == "spectralindex":
            n = r.randrange(0, 4)
            t = [whole(r, -1, 2) if rmcol else num(r) for _ in range(n)]
            if n == 1 and r.random() < .4:
                return t[0]
            o = r.choice(["", " "])
            return "[" + o + r.choice([",", ", ", " , "]).join(t) + o + "]"
        if k == "logarithmicsi":
            return r.choice(["true", "false", "T", "F", "1", "0", "yes", "no"])
        if k == "referencefrequency":
            return freq
        if k in ("majoraxis", "minoraxis", "orientation", "foo_1", "_9x", "shape:a", "positionangle"):
            return num(r, 0, 99999)
        if k == "orientationisabsolute":
            return r.choice(["true", "false", "True", "FALSE"])
        if k == "rotationmeasure":
            return str(r.choice([0, 0, 1, -1, 2]))
        if k == "polarizedfraction":
            return num(r, 0, 1000)
        if k == "polarizationangle":
            return num(r, 0, 3141)
        if k == "referencewavelength":
            return r.choice(["0", "1", "2", "0.5", "2.99792458", "2.99792458"]) if rmcol else "0"
        if k == "category":
            return str(r.randrange(0, 9))
        if k == "reftype":
            return r.choice(["J2000", "J2000", "J2000", "B1950", "SUN", "Jupiter", "j2000", "GALACTIC"])
        return "x%d" % r.randrange(9)

    fields = []
    how = {}
    for c in cols:
        f = ""
        how[len(fields)] = "plain"
        if c not in ("Name", "Patch", "Ra", "Dec", "Type", "Q", "U") and r.random() < .15:
            h = r.choice(["default", "default", "fixed"])
            how[len(fields)] = h
            o = r.choice(["", "", " "])
            f = o + "=" + r.choice(["", "", " "]) + (case(r, "fixed") if h == "fixed" else "") + quoted(r, good(c, 0))
        fields.append(case(r, c) + f)
    if r.random() < .04:
        k = r.randrange(len(fields))
        fields[k] = r.choice([fields[k] + "=", fields[k] + "=fixed", fields[k] + "=1.0", "SpectralIndexDegree", fields[k] + "='x"])
    pad = r.choice(["", " ", " "]) if sep != " " else ""
    fmt = (r.choice(["", "", " "]) + sep + pad if sep == " " else sep + pad).join(fields) if sep != " " else " ".join(fields)

    groups = ["grp%d" % k for k in range(r.randrange(1, 4))] if "Patch" in cols else []
    lines = []
    used = {}

    def value(c, k, v):
        if v == "":
            return "''" if sep == " " else ""
        if c not in ("Ra", "Dec") and c.lower()[:3] not in ("rah", "rad", "ram", "ras", "dec") and r.random() < .12:
            return quoted(r, v)
        if sep == " " and " " in v and v[0] != "[":
            return quoted(r, v)
        return v

    def line(vals):
        vs = [value(c, k, vals(c, k)) for k, c in enumerate(cols) if how[k] != "fixed"]
        while vs and vs[-1] in ("", "''") and r.random() < .7:
            vs.pop()
        p = r.choice(["", " ", "  ", "\t"])
        t = (sep if sep == " " else r.choice(["", "", " "]) + sep + p).join(vs)
        if sep == " " and r.random() < .3:
            t = t.replace("] ", "]  ")
        return r.choice(["", "", "", " "]) + t
    nr = 0
    for g in groups:
        if r.random() < .04:
            continue
        bare = r.random() < .5

        def vals(c, k, g=g, bare=bare):
            if c == "Name":
                return ""
            if c == "Patch":
                return g
            if c in ("Q", "U", "RotationMeasure", "PolarizedFraction", "PolarizationAngle", "ReferenceWavelength"):
                return ""
            if bare and c not in ("Ra", "Dec") and how[k] == "plain":
                return ""
            return good(c, 0)
        lines.append(line(vals))
    for _ in range(r.randrange(1, 6)):
        nr += 1
        qu = r.choice(QU)
        g = r.choice(groups + [""]) if groups else ""
        sparse = r.random() < .3
        bad = r.random() < .015

        def vals(c, k, nr=nr, g=g, qu=qu):
            if c == "Patch":
                return g
            if rmcol and c == "Q":
                return "%g" % (qu[0] / 10.)
            if rmcol and c == "U":
                return "%g" % (qu[1] / 10.)
            if sparse and c not in ("Name", "Ra", "Dec", "RotationMeasure", "PolarizedFraction", "PolarizationAngle", "ReferenceFrequency",
                                    "I") and how[k] != "fixed" and r.random() < .5:
                return ""
            if bad and r.random() < .15 and c != "Name":
                return r.choice(["abc", "1.2x", "[1", "2]", "'x", "1e", "--1"])
            return good(c, nr)
        lines.append(line(vals))
    # a missing patch name would make a patch of the source's name: names are unique
    out = []
    eol = r.choice(["\n", "\n", "\n", "\r\n"])
    given = r.random() < .3
    for l in lines:
        while r.random() < .15:
            out.append(r.choice(["", "# a comment, 'unbalanced", "  ", "\t# x"]))
        out.append(l)
    if not given:
        k = r.random()
        if k < .65:
            head = [r.choice(["", " "]) + case(r, "format") + r.choice(["=", " = ", "= ", " ="]) + fmt]
        elif k < .93:
            head = ["#" + r.choice([" ", ""]) + "(" + r.choice(["", " "]) + fmt + ")" + r.choice(["=", " = "]) + case(r, "format") + r.choice(["", " "])]
        else:
            head = []
        while r.random() < .3:
            head.insert(0, r.choice(["# comment", "", "   # format later"]))
        if k < .65 and r.random() < .1:
            # only the first line that is no comment can be the format
            head = out[:1] + head
            out = out[1:]
        out = head + out
    elif r.random() < .2:
        out.insert(r.randrange(len(out) + 1), "FORMAT = Name, Ra, Dec")
    text = eol.join(out) + (eol if r.random() < .8 else "")
    return text, given, fmt


STANDARD = 24


def simple(r):
    """The formats that are not spelled out."""
    place = Place(r, r.random() < .5)
    kind = r.randrange(4)
    n = r.randrange(1, 4)
    if kind == 0:   # no format line: the short default
        rows = [["s%d" % k, r.choice(["POINT", "GAUSSIAN", ""]), place.ra(), place.dec(), num(r), num(r), num(r), num(r),
                 num(r, 0), num(r, 0), num(r, 0)][:r.randrange(4, 12)] for k in range(n)]
        return "\n".join(", ".join(x) for x in rows) + "\n", False, ""
    sep = "," if kind < 3 else ";"
    rows = []
    for k in range(n):
        gauss = r.random() < .5
        x = ["s%d" % k, "GAUSSIAN" if gauss else "POINT", r.choice(["J2000", ""]), place.ra(), place.dec(), num(r), num(r), num(r), num(r),
             "[%s]" % num(r), r.choice(["true", "false"]), "1e8", num(r, 0), num(r, 0), num(r, 0), r.choice(["true", "false"])]
        rows.append(x[:r.choice([5, 9, 12, 16])])
    body = "\n".join((sep + r.choice(["", " "])).join(x) for x in rows) + "\n"
    if kind == 2:
        return "FORMAT =" + r.choice(["", " "]) + "\n" + body, False, ""
    return body, True, "" if sep == "," and r.random() < .5 else r.choice(["", " "]) + sep


def history(r, ev):
    ev.append({"op": "new"})
    for _ in range(r.randrange(1, 3)):
        text, given, fmt = document(r) if r.random() < .85 else simple(r)
        ev.append({"op": "read", "text": chars(text), "given": given, "format": chars(fmt) if given else [], "txt": r.random() < .3})
        names = ["grp0", "grp1", "s1", "s2", "s1_a", "s3.c"]
        pats = ["*", "grp*", "s?", "s*", "?rp1", "*1*", "g*0", "x*", "s1", "s?_?", "*.c", "grp0"]
        for _ in range(r.randrange(1, 5)):
            k = r.random()
            if k < .3:
                ev.append({"op": "find", "pattern": chars(r.choice(pats))})
            elif k < .8:
                how = r.choice(["all", "match", "match", "list"])
                src = names if how == "list" else pats + ["@dir"] * (r.random() < .2)
                ns = r.sample(src, r.randrange(0 if how != "list" else 1, 3))
                if r.random() < .05:
                    ns.append("")
                ev.append({"op": "make", "how": how, "names": [chars(x) for x in ns]})
                if r.random() < .6:
                    lim, cos = r.choice([(7.5, 9914), (12.4, 9767), (22, 9272), (41, 7547), (88, 349), (3, 9986)])
                    ev.append({"op": "cluster", "limit": lim, "cos": cos})
            else:
                ev.append({"op": "again"})


def run(ctx):
    ctx.assumptions.append("casacore (angles, regular expressions, arrays) and aocommon are not installed: the sky model code of /repo is "
                           "compiled, unedited, against the stand-in headers in /verif/shim (see DESIGN.md)")
    b = ctx.build("skyfile", ["skyfile.cc"], SOURCES, shim=True)
    for _ in range(ctx.n(1, 14)):
        ev = []
        for _ in range(500):
            history(ctx.rng, ev)
        ctx.conform(b, ev, "SkyFileTrace")
