----------------------------- MODULE GridsTrace -----------------------------
EXTENDS Grids, TraceBase
StartSt(ev) == [ax |-> <<>>, bx |-> <<>>, gr |-> <<>>, seen |-> {}, exact |-> ev.exact = 1]
\* stores are functions over the ids used so far
Put(f, id, v) == [k \in DOMAIN f \cup {id} |-> IF k = id THEN v ELSE f[k]]
W(lo, up) == IF lo = -Inf \/ up = Inf THEN Inf ELSE up - lo
C(lo, up) == IF lo = -Inf /\ up = Inf THEN 0 ELSE (lo + up) \div 2
Shows(o, c) ==
  /\ o.same
  /\ o.cells = c
  /\ o.centers = [k \in 1..Len(c) |-> C(c[k][1], c[k][2])]
  /\ o.widths = [k \in 1..Len(c) |-> W(c[k][1], c[k][2])]
  /\ o.range = <<c[1][1], c[Len(c)][2], c[1][1], c[Len(c)][2]>>
\* an ordered axis of the one default cell may call itself regular or not
ShowsAxis(o, a) == Shows(o, a.c) /\ (o.regular = a.reg \/ a.c = DefaultAxis.c)
Finite(b) == \A k \in 1..4 : b[k] < Inf /\ b[k] > -Inf
ShowsBox(o, b) == /\ SubSeq(o, 1, 4) = b /\ SubSeq(o, 7, 10) = b
                  /\ (Finite(b) => o[5] = b[3] - b[1] /\ o[6] = b[4] - b[2])
ShowsGrid(o, g) ==
  LET nx == Len(g.x.c) ny == Len(g.y.c) IN
  /\ ShowsAxis(o.x, g.x) /\ ShowsAxis(o.y, g.y) /\ o.def = g.def
  /\ o.sizes = <<nx, ny, nx, ny, nx * ny>>
  /\ ShowsBox(o.box, Bound(g))
Made(z, ev, a) == <<ValidAxis(a) /\ ShowsAxis(ev.out, a), [z EXCEPT !.ax = Put(z.ax, ev.id, a)]>>
MadeBox(z, ev, b) == <<ShowsBox(ev.out, b), [z EXCEPT !.bx = Put(z.bx, ev.id, b)]>>
MadeGrid(z, ev, g) == <<ShowsGrid(ev.out, g), [z EXCEPT !.gr = Put(z.gr, ev.id, g)]>>
Both(r, more) == <<r[1] /\ more, r[2]>>
Q(x) == 4 * x
OrdCells(ev) ==
  [k \in 1..Len(ev.v1) |-> IF ev.ends = 1 THEN <<Q(ev.v1[k]), Q(ev.v2[k])>>
                           ELSE <<Q(ev.v1[k]) - 2 * ev.v2[k], Q(ev.v1[k]) + 2 * ev.v2[k]>>]
RegWidth(ev) == IF ev.ends = 1 THEN (Q(ev.width) - Q(ev.start)) \div ev.count ELSE Q(ev.width)
Vec(v, k, d) == IF k <= Len(v) THEN Q(v[k]) ELSE d
BoxOf(ev) ==
  LET v == ev.v IN
  CASE ev.how \in {"points", "ends"} -> <<Q(v[1]), Q(v[2]), Q(v[3]), Q(v[4])>>
    [] ev.how = "vector" -> <<Vec(v, 1, -Inf), Vec(v, 2, -Inf), Vec(v, 3, Inf), Vec(v, 4, Inf)>>
    [] ev.how = "widths" -> <<Q(v[1]) - 2 * v[3], Q(v[2]) - 2 * v[4], Q(v[1]) + 2 * v[3], Q(v[2]) + 2 * v[4]>>
    [] OTHER -> <<0, 0, 0, 0>>
Close(x, n, d) == (x * d - 10000 * n <= d /\ 10000 * n - x * d <= d)
JudgeMap(z, ev) ==
  LET f == z.ax[ev.a] t == z.ax[ev.b] m == Mapped(f, t) IN
  <<(/\ ev.out = m /\ ev.at = m
     /\ ev.borders = Borders(m)
     /\ \A k \in 1..Len(m) : LET to == t.c[m[k] + 1] IN
          (to[1] > -Inf /\ to[2] < Inf /\ Centre(f.c[k]) - to[1] < 20000) => Close(ev.centers[k], Centre(f.c[k]) - to[1], Width(to))
     /\ CASE ev.cached = 0 -> ev.grown = 0
          [] ev.grown = 1 -> <<f.c, t.c, ev.a, ev.b>> \notin z.seen
          [] OTHER -> ev.grown = 0 /\ \E s \in z.seen : s[1] = f.c /\ s[2] = t.c),
    [z EXCEPT !.seen = IF ev.cached = 1 THEN @ \cup {<<f.c, t.c, ev.a, ev.b>>} ELSE @]>>
JudgeCombine(z, ev) ==
  LET a == z.ax[ev.a] b == z.ax[ev.b] w == ev.where q == Join(a, b) IN
  IF ~Joinable(a, b) THEN <<w = <<>>, z>>
  ELSE IF Len(w) # 4 THEN <<FALSE, z>>
  ELSE <<(/\ Shows(ev.out, q)
          /\ JoinRegular(a, b, ev.out.regular)
          /\ 0 <= w[1] /\ w[2] <= Len(q) /\ 0 <= w[3] /\ w[4] <= Len(q)
          /\ SubSeq(q, w[1] + 1, w[2]) = a.c /\ SubSeq(q, w[3] + 1, w[4]) = b.c),
         [z EXCEPT !.ax = Put(z.ax, ev.id, [c |-> q, reg |-> ev.out.regular])]>>
JudgeFind(z, ev) ==
  LET r == Find(z.ax[ev.a].c, Q(ev.x), ev.right) IN ev.out = r /\ ev.located = (IF r[2] = 1 THEN r[1] ELSE -1)
JudgeSubset(z, ev) ==
  LET a == z.ax[ev.a] s == Subset(a, Q(ev.from), Q(ev.to)) IN
  Both(Made(z, ev, s), (z.exact => ev.same)
       /\ (Between(a.c, Q(ev.from), Q(ev.to)) # <<>> => ev.index = FirstBetween(a.c, Q(ev.from), Q(ev.to))))
JudgeGSubset(z, ev) ==
  LET g == z.gr[ev.a] b == z.bx[ev.b]
      x == Between(g.x.c, b[1], b[3]) y == Between(g.y.c, b[2], b[4])
  IN Both(MadeGrid(z, ev, [x |-> Subset(g.x, b[1], b[3]), y |-> Subset(g.y, b[2], b[4]), def |-> FALSE]),
          /\ ev.same
          /\ (x # <<>> => ev.index[1] = FirstBetween(g.x.c, b[1], b[3]))
          /\ (y # <<>> => ev.index[2] = FirstBetween(g.y.c, b[2], b[4])))
JudgeRel(z, ev) ==
  LET a == z.bx[ev.a] b == z.bx[ev.b] o == ev.out IN
  /\ o[1] = Meets(a, b) /\ o[2] = Holds(a, b) /\ o[3] = EmptyBox(a)
  /\ (z.exact => o[4] = (a = b) /\ o[5] = (a # b) /\ o[6] = Before(a, b) /\ o[7] = Before(b, a))
JudgeCell(z, ev) ==
  LET g == z.gr[ev.a] ix == ev.at[1] iy == ev.at[2] b == Cell(g, ix, iy) IN
  /\ ev.cell = iy * Len(g.x.c) + ix /\ ev.back = ev.at
  /\ ShowsBox(ev.box, b) /\ ShowsBox(ev.box2, b)
  /\ ev.center = <<C(b[1], b[3]), C(b[2], b[4])>>
JudgeLocate(z, ev) ==
  LET g == z.gr[ev.a] x == Find(g.x.c, Q(ev.at[1]), ev.right) y == Find(g.y.c, Q(ev.at[2]), ev.right) IN
  ev.out = IF x[2] = 1 /\ y[2] = 1 THEN <<x[1], y[1]>> ELSE <<>>
JudgeIter(ev) ==
  LET f == ev.from t == ev.to IN
  ev.out = Cat([y \in 1..(t[2] - f[2] + 1) |-> [x \in 1..(t[1] - f[1] + 1) |-> <<f[1] + x - 1, f[2] + y - 1>>]])
JudgeGMap(z, ev) ==
  LET a == z.gr[ev.a] b == z.gr[ev.b]
      p == <<Mapped(a.x, b.x)[ev.at[1] + 1], Mapped(a.y, b.y)[ev.at[2] + 1]>>
      id == p[2] * Len(b.x.c) + p[1]
  IN <<ev.out = <<p, p>> /\ ev.ids = <<id, id>>,
       \* the cache now may hold these pairs
       [z EXCEPT !.seen = @ \cup {<<a.x.c, b.x.c, -1, -1>>, <<a.y.c, b.y.c, -1, -1>>}]>>
Judge(z, ev) ==
  CASE ev.op = "reg" -> Made(z, ev, [c |-> RegularCells(Q(ev.start), RegWidth(ev), ev.count), reg |-> TRUE])
    [] ev.op = "ord" -> Made(z, ev, [c |-> OrdCells(ev), reg |-> FALSE])
    [] ev.op = "deflt" -> <<Shows(ev.out, DefaultAxis.c), [z EXCEPT !.ax = Put(z.ax, ev.id, [c |-> DefaultAxis.c, reg |-> ev.out.regular])]>>
    [] ev.op = "clone" -> Made(z, ev, z.ax[ev.a])
    [] ev.op = "make" -> Made(z, ev, [c |-> OrdCells(ev), reg |-> Even(OrdCells(ev))])
    [] ev.op = "find" -> <<JudgeFind(z, ev), z>>
    [] ev.op = "subset" -> JudgeSubset(z, ev)
    [] ev.op = "part" -> Made(z, ev, Part(z.ax[ev.a], ev.from, ev.to))
    [] ev.op = "compress" -> Made(z, ev, Compress(z.ax[ev.a], ev.factor))
    [] ev.op = "combine" -> JudgeCombine(z, ev)
    [] ev.op = "equal" -> <<ev.eq = (z.ax[ev.a].c = z.ax[ev.b].c) /\ ev.ne = ~ev.eq, z>>
    [] ev.op = "check" -> <<ev.out = Agree(z.ax[ev.a], z.ax[ev.b]), z>>
    [] ev.op = "map" -> JudgeMap(z, ev)
    [] ev.op = "clear" -> <<TRUE, [z EXCEPT !.seen = {}]>>
    [] ev.op = "box" -> MadeBox(z, ev, BoxOf(ev))
    [] ev.op = "meet" -> MadeBox(z, ev, Meet(z.bx[ev.a], z.bx[ev.b]))
    [] ev.op = "join" -> MadeBox(z, ev, Unite(z.bx[ev.a], z.bx[ev.b]))
    [] ev.op = "rel" -> <<JudgeRel(z, ev), z>>
    [] ev.op = "gaxes" -> MadeGrid(z, ev, [x |-> z.ax[ev.a], y |-> z.ax[ev.b], def |-> FALSE])
    [] ev.op = "gdef" -> MadeGrid(z, ev, DefaultGrid)
    [] ev.op = "gboxes" -> MadeGrid(z, ev, FromBoxes([k \in 1..Len(ev.list) |-> z.bx[ev.list[k]]]))
    [] ev.op = "ggrids" -> MadeGrid(z, ev, FromGrids([k \in 1..Len(ev.list) |-> z.gr[ev.list[k]]]))
    [] ev.op = "gsubset" -> JudgeGSubset(z, ev)
    [] ev.op = "gpart" -> MadeGrid(z, ev, [x |-> Part(z.gr[ev.a].x, ev.from[1], ev.to[1]), y |-> Part(z.gr[ev.a].y, ev.from[2], ev.to[2]), def |-> FALSE])
    [] ev.op = "gdomains" -> LET d == Domains(z.gr[ev.a]) IN
         <<Len(ev.out) = ev.before + Len(d) /\ \A k \in 1..Len(d) : ShowsBox(ev.out[ev.before + k], d[k]), z>>
    [] ev.op = "gcell" -> <<JudgeCell(z, ev), z>>
    [] ev.op = "gbound" -> <<ShowsBox(ev.out, Unite(Cell(z.gr[ev.a], ev.from[1], ev.from[2]), Cell(z.gr[ev.a], ev.to[1], ev.to[2]))), z>>
    [] ev.op = "glocate" -> <<JudgeLocate(z, ev), z>>
    [] ev.op = "giter" -> <<JudgeIter(ev), z>>
    [] ev.op = "gcmp" -> LET a == z.gr[ev.a] b == z.gr[ev.b] IN
         <<(z.exact => ev.out[1] = Before(Bound(a), Bound(b)) /\ ev.out[2] = Before(Bound(b), Bound(a)))
           /\ ev.out[3] = (Agree(a.x, b.x) /\ Agree(a.y, b.y)), z>>
    [] ev.op = "gmap" -> JudgeGMap(z, ev)
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
