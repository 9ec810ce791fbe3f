"""P24: axes, boxes, grids and mappings of parameter domains."""
SOURCES = ["parmdb/Axis.cc", "parmdb/Box.cc", "parmdb/Grid.cc", "parmdb/AxisMapping.cc"]
INF = 999999999


class Gen:
    """Keeps a rough copy of what was made, so that requests are mostly to the point."""

    def __init__(self, r, ev):
        self.r, self.ev = r, ev
        num, den = r.choice([(1, 1), (1, 1), (1, 1), (1000000, 1), (1, 4), (1, 10), (1, 3), (4453401, 1000)])
        self.exact = den in (1, 4) and num in (1, 1000000)
        ev.append({"op": "new", "num": num, "den": den, "exact": int(self.exact)})
        self.base = r.choice([-8, 0, 3, 20]) if self.exact else r.choice([3, 20, 100])
        self.ax, self.bx, self.gr = {}, {}, {}
        self.next = 0

    def op(self, o, **k):
        self.ev.append(dict({"op": o}, **k))

    def id(self):
        self.next += 1
        return self.next

    def cells(self, gaps=None, n=None):
        r = self.r
        gaps = r.random() < .4 if gaps is None else gaps
        same = r.random() < .4
        w = r.randrange(1, 4)
        x = self.base + r.randrange(0, 8)
        out = []
        for _ in range(n or r.choice([1, 1, 2, 2, 3, 4, 5, 6])):
            ww = w if same else r.randrange(1, 4)
            out.append((x, x + ww))
            x += ww + (r.choice([0, 0, w, 1, 2]) if gaps else 0)
        return out

    def new_axis(self, cells=None, ordered=None):
        r = self.r
        i = self.id()
        c = cells or self.cells()
        even = all(b[0] == a[1] and b[1] - b[0] == a[1] - a[0] for a, b in zip(c, c[1:]))
        ordered = ordered if ordered is not None else not even or r.random() < .3
        if not ordered and even:
            ends = r.randrange(2)
            w = c[0][1] - c[0][0]
            self.op("reg", id=i, start=c[0][0], width=c[-1][1] if ends else w, count=len(c), ends=ends)
        elif r.random() < .2:
            self.op("make", id=i, v1=[a for a, _ in c], v2=[b for _, b in c], ends=1)
        elif r.random() < .5 or any((a + b) % 2 for a, b in c):
            self.op("ord", id=i, v1=[a for a, _ in c], v2=[b for _, b in c], ends=1)
        else:
            self.op("ord", id=i, v1=[(a + b) // 2 for a, b in c], v2=[b - a for a, b in c], ends=0)
        self.ax[i] = c
        return i

    def axis(self):
        if not self.ax or self.r.random() < .25:
            return self.new_axis()
        return self.r.choice(list(self.ax))

    def finite_axis(self):
        f = [k for k, c in self.ax.items() if c]
        return self.r.choice(f) if f and self.r.random() < .7 else self.new_axis()

    def point(self, c):
        r = self.r
        if not c or r.random() < .3:
            return self.base + r.randrange(-2 if self.exact else 0, 25)
        return r.choice(r.choice(c)) + (r.choice([-1, 0, 0, 0, 1]) if self.exact else r.choice([0, 0, 1]))

    def axis_op(self):
        r = self.r
        o = r.choice(["find"] * 4 + ["subset"] * 3 + ["part", "compress", "combine", "combine", "combine", "equal", "check", "check",
                                                     "map", "map", "map", "clone", "deflt", "clear", "make"])
        if o == "find":
            a = self.axis()
            self.op(o, a=a, x=self.point(self.ax[a]), right=r.randrange(2), hint=r.choice([0, 0, 1, 2, 3, 5, 9]))
        elif o == "subset":
            a = self.axis()
            x, y = sorted([self.point(self.ax[a]), self.point(self.ax[a])])
            if x == y:
                y += r.randrange(0, 3)
            i = self.id()
            self.op(o, a=a, id=i, **{"from": x, "to": y})
            c = [q for q in self.ax[a] if q[1] > x and q[0] < y] if self.ax[a] else None
            self.ax[i] = c or None
        elif o == "part":
            a = self.finite_axis()
            n = len(self.ax[a])
            x, y = r.randrange(0, n + 1), r.randrange(0, n + 2)
            i = self.id()
            self.op(o, a=a, id=i, **{"from": x, "to": y})
            self.ax[i] = self.ax[a][x:y + 1] or None
        elif o == "compress":
            a = self.finite_axis()
            f = r.randrange(1, 5)
            i = self.id()
            self.op(o, a=a, id=i, factor=f)
            c = self.ax[a]
            self.ax[i] = [(c[k][0], c[min(k + f, len(c)) - 1][1]) for k in range(0, len(c), f)]
        elif o == "combine":
            a = self.finite_axis()
            c = self.ax[a]
            x = r.random()
            if x < .5:
                # a piece of the same cells, with more before or after
                k = r.randrange(0, len(c))
                d = c[k:k + r.randrange(1, len(c) + 1)]
                if r.random() < .5:
                    d = d[:]
                    e = d[-1][1]
                    if e == c[-1][1] or r.random() < .2:
                        for _ in range(r.randrange(1, 3)):
                            g = e + r.choice([0, 0, 1, 2])
                            w = r.choice([c[0][1] - c[0][0], r.randrange(1, 4)])
                            d.append((g, g + w))
                            e = g + w
                    s = d[0][0]
                    if s == c[0][0] and self.exact and r.random() < .5:
                        w = r.choice([c[0][1] - c[0][0], r.randrange(1, 4)])
                        d.insert(0, (s - w, s))
                b = self.new_axis(d)
            elif x < .8:
                e = c[-1][1] + r.choice([0, 0, 1, 2, 3])
                d = [(p + e - c[0][0], q + e - c[0][0]) for p, q in self.cells()]
                m = d[0][0] - e
                d = [(p - m, q - m) for p, q in d]
                b = self.new_axis(d)
            else:
                b = self.finite_axis()
            if r.random() < .5:
                a, b = b, a
            self.op(o, a=a, b=b, id=self.id())
        elif o == "equal":
            a = self.finite_axis()
            if self.exact:
                b = self.new_axis(self.ax[a]) if r.random() < .5 else self.finite_axis()
                self.op(o, a=a, b=b)
        elif o == "check":
            a = self.finite_axis()
            x = r.random()
            if x < .5:
                c = self.ax[a]
                k = r.randrange(0, len(c))
                b = self.new_axis(c[k:k + r.randrange(1, len(c) + 1)])
            else:
                b = self.finite_axis()
            if r.random() < .5:
                a, b = b, a
            self.op(o, a=a, b=b)
        elif o == "map":
            a, b = self.axis(), self.axis()
            if self.ax[a] is None or self.ax[b] is None:
                if r.random() < .7:
                    a, b = self.finite_axis(), self.finite_axis()
            self.op(o, a=a, b=b, cached=r.randrange(2))
        elif o == "clone":
            a = self.axis()
            i = self.id()
            self.op(o, a=a, id=i)
            self.ax[i] = self.ax[a]
        elif o == "deflt":
            i = self.id()
            self.op(o, id=i, ordered=r.randrange(2))
            self.ax[i] = None
        elif o == "clear":
            self.op(o)
        elif o == "make":
            c = self.cells()
            i = self.id()
            self.op(o, id=i, v1=[a for a, _ in c], v2=[b for _, b in c], ends=1)
            self.ax[i] = c

    def new_box(self, v=None):
        r = self.r
        i = self.id()
        how = "points" if v else r.choice(["points", "ends", "vector", "widths", "empty"])
        x = sorted(self.base + r.randrange(0, 12) for _ in range(2))
        y = sorted(self.base + r.randrange(0, 12) for _ in range(2))
        v = v or [x[0], y[0], x[1], y[1]]
        if how == "widths":
            v = [self.base + 6 + r.randrange(6), self.base + 6 + r.randrange(6), r.randrange(0, 6), r.randrange(0, 6)]
        elif how == "vector":
            v = (v + [7])[:r.randrange(6)]
        self.op("box", id=i, how=how, v=v)
        self.bx[i] = v
        return i

    def box(self):
        return self.r.choice(list(self.bx)) if self.bx and self.r.random() < .7 else self.new_box()

    def box_op(self):
        r = self.r
        o = r.choice(["rel", "rel", "meet", "join"])
        a, b = self.box(), self.box()
        if o == "rel":
            self.op(o, a=a, b=b)
        else:
            i = self.id()
            self.op(o, a=a, b=b, id=i, fn=r.randrange(2))
            self.bx[i] = None

    def new_grid(self):
        r = self.r
        i = self.id()
        x = r.random()
        if x < .4:
            a, b = self.finite_axis(), self.finite_axis()
            self.op("gaxes", a=a, b=b, id=i)
            self.gr[i] = (self.ax[a], self.ax[b])
        elif x < .75:
            cx, cy = self.cells(n=r.randrange(1, 4)), self.cells(n=r.randrange(1, 5))
            L = [self.new_box([p[0], q[0], p[1], q[1]]) for q in cy for p in cx]
            sort = r.randrange(2)
            if sort:
                r.shuffle(L)
            if r.random() < .05:
                L = []
            self.op("gboxes", id=i, list=L, sort=sort)
            self.gr[i] = (cx, cy) if L else None
        elif x < .95:
            # a rectangle of grids
            cx, cy = self.cells(n=r.randrange(1, 6)), self.cells(n=r.randrange(1, 6))

            def cut(c):
                out, k = [], 0
                while k < len(c):
                    n = r.randrange(1, 4)
                    out.append(c[k:k + n])
                    k += n
                return out
            px, py = cut(cx), cut(cy)
            o = r.random() < .3
            ix = [(self.new_axis(c, o), c) for c in px]
            iy = [(self.new_axis(c, o), c) for c in py]
            L = []
            for q, cq in iy:
                for p, cp in ix:
                    g = self.id()
                    self.op("gaxes", a=p, b=q, id=g)
                    self.gr[g] = (cp, cq)
                    L.append(g)
            sort = r.randrange(2)
            if sort:
                r.shuffle(L)
            if r.random() < .05:
                L = []
            self.op("ggrids", id=i, list=L, sort=sort)
            self.gr[i] = (cx, cy) if L else None
        else:
            self.op("gdef", id=i)
            self.gr[i] = None
        return i

    def grid(self):
        g = [k for k, c in self.gr.items() if c]
        if g and self.r.random() < .8:
            return self.r.choice(g)
        while True:
            k = self.new_grid()
            if self.gr[k]:
                return k

    def at(self, g):
        cx, cy = self.gr[g]
        return [self.r.randrange(len(cx)), self.r.randrange(len(cy))]

    def window(self, g):
        p, q = self.at(g), self.at(g)
        return [min(p[0], q[0]), min(p[1], q[1])], [max(p[0], q[0]), max(p[1], q[1])]

    def grid_op(self):
        r = self.r
        o = r.choice(["new", "gsubset", "gsubset", "gpart", "gdomains", "gdomains", "gcell", "gbound", "glocate", "glocate", "giter", "gcmp",
                      "gmap", "gmap"])
        if o == "new":
            self.new_grid()
            return
        g = self.grid()
        cx, cy = self.gr[g]
        if o == "gsubset":
            x, y = sorted([self.point(cx), self.point(cx)]), sorted([self.point(cy), self.point(cy)])
            b = self.new_box([x[0], y[0], x[1], y[1]]) if r.random() < .8 else self.box()
            i = self.id()
            self.op(o, a=g, b=b, id=i)
            v = self.bx[b]
            self.gr[i] = None
            if r.random() < .7:
                self.op("gdomains", a=i, before=0)
        elif o == "gpart":
            s, e = self.window(g)
            i = self.id()
            self.op(o, a=g, id=i, **{"from": s, "to": e})
            self.gr[i] = (cx[s[0]:e[0] + 1], cy[s[1]:e[1] + 1])
        elif o == "gdomains":
            self.op(o, a=g, before=r.choice([0, 0, 1, 3]))
        elif o == "gcell":
            self.op(o, a=g, at=self.at(g))
        elif o in ("gbound", "giter"):
            s, e = self.window(g)
            self.op(o, a=g, **{"from": s, "to": e})
        elif o == "glocate":
            self.op(o, a=g, at=[self.point(cx), self.point(cy)], right=r.randrange(2))
        elif o == "gcmp":
            self.op(o, a=g, b=self.grid())
        elif o == "gmap":
            self.op(o, a=g, b=self.grid(), at=self.at(g))


def run(ctx):
    ctx.assumptions.append("casacore is not installed: near() of casacore and the aocommon logger are the stand-ins of /verif/shim")
    b = ctx.build("grid", ["grid.cc"], SOURCES, shim=True)
    ev = []
    for _ in range(ctx.n(400, 8000)):
        g = Gen(ctx.rng, ev)
        for _ in range(ctx.rng.randrange(5, 25)):
            ctx.rng.choice([g.axis_op, g.axis_op, g.grid_op, g.grid_op, g.box_op])()
    ctx.conform(b, ev, "GridsTrace")
