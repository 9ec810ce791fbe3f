-------------------------------- MODULE Grids --------------------------------
(* Axes, boxes and grids that divide the domain of parameters into cells.    *)
(* Coordinates are integers (quarters of the unit of a history); a cell is   *)
(* <<lower, upper>>; an axis is [c |-> cells, reg |-> regular]; cells ascend *)
(* and are disjoint, gaps may be present.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Inf == 999999999
DefaultAxis == [c |-> <<<<-Inf, Inf>>>>, reg |-> TRUE]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
\* a set of cells, or of numbers, in ascending order
Sorted(S) == SetToSortSeq(S, Less)
SortedNumbers(S) == LET L(p, q) == p < q IN SetToSortSeq(S, L)
SortedAxes(S) == LET L(p, q) == p.c[1][1] < q.c[1][1] IN SetToSortSeq(S, L)

Start(a) == a.c[1][1]
End(a) == a.c[Len(a.c)][2]
Centre(cell) == (cell[1] + cell[2]) \div 2
Width(cell) == cell[2] - cell[1]
\* equal widths without gaps
Even(c) == \A k \in 2..Len(c) : c[k][1] = c[k - 1][2] /\ Width(c[k]) = Width(c[1])
ValidAxis(a) ==
  /\ Len(a.c) > 0
  /\ \A k \in 1..Len(a.c) : Width(a.c[k]) > 0
  /\ \A k \in 2..Len(a.c) : a.c[k - 1][2] <= a.c[k][1]
  /\ (a.reg => Even(a.c))
RegularCells(s, w, n) == [k \in 1..n |-> <<s + (k - 1) * w, s + k * w>>]

\* the (zero-based) cell that holds x, or the next higher one if none does
In(cell, x, right) == IF right = 1 THEN cell[1] <= x /\ x < cell[2] ELSE cell[1] < x /\ x <= cell[2]
Above(cell, x, right) == IF right = 1 THEN cell[1] > x ELSE cell[1] >= x
Find(c, x, right) ==
  LET F == {k \in 1..Len(c) : In(c[k], x, right)}
      H == {k \in 1..Len(c) : Above(c[k], x, right)}
  IN IF F # {} THEN <<(CHOOSE k \in F : TRUE) - 1, 1>>
     ELSE IF H # {} THEN <<(CHOOSE k \in H : \A m \in H : k <= m) - 1, 0>>
     ELSE <<Len(c), 0>>

\* the cells that have a part between from and to
Between(c, from, to) == LET K(cell) == cell[2] > from /\ cell[1] < to IN SelectSeq(c, K)
Subset(a, from, to) ==
  LET q == Between(a.c, from, to) IN IF q = <<>> THEN DefaultAxis ELSE [c |-> q, reg |-> a.reg]
FirstBetween(c, from, to) ==
  LET F == {k \in 1..Len(c) : c[k][2] > from /\ c[k][1] < to} IN (CHOOSE k \in F : \A m \in F : k <= m) - 1
Part(a, from, to) ==
  LET t == Min2(to, Len(a.c) - 1) IN
  IF from > t THEN DefaultAxis ELSE [c |-> SubSeq(a.c, from + 1, t + 1), reg |-> a.reg]
Compress(a, f) ==
  LET n == Len(a.c) m == (n + f - 1) \div f IN
  [c |-> [k \in 1..m |-> <<a.c[(k - 1) * f + 1][1], a.c[Min2(k * f, n)][2]>>], reg |-> a.reg /\ n % f = 0]

\* the same cells where the axes overlap
Agree(a, b) == Between(a.c, Start(b), End(b)) = Between(b.c, Start(a), End(a))
Disjoint(a, b) == End(a) <= Start(b) \/ End(b) <= Start(a)
\* joining fills the hole between disjoint axes with one cell
Join(a, b) ==
  IF Disjoint(a, b)
  THEN LET l == IF End(a) <= Start(b) THEN a ELSE b
           h == IF End(a) <= Start(b) THEN b ELSE a
       IN l.c \o (IF End(l) = Start(h) THEN <<>> ELSE <<<<End(l), Start(h)>>>>) \o h.c
  ELSE Sorted({a.c[k] : k \in 1..Len(a.c)} \cup {b.c[k] : k \in 1..Len(b.c)})
Joinable(a, b) == Disjoint(a, b) \/ Agree(a, b)
\* an axis that already holds all cells is returned as it is
JoinRegular(a, b, r) == LET q == Join(a, b) IN (~Disjoint(a, b) /\ ((q = a.c /\ r = a.reg) \/ (q = b.c /\ r = b.reg))) \/ r = Even(q)

Mapped(from, to) ==
  [k \in 1..Len(from.c) |-> Min2(Find(to.c, Centre(from.c[k]), 1)[1], Len(to.c) - 1)]
Borders(m) == SortedNumbers({k \in 1..Len(m) - 1 : m[k] # m[k + 1]} \cup {Len(m)})

\* boxes are <<x1, y1, x2, y2>>
Meets(a, b) == b[1] < a[3] /\ b[3] > a[1] /\ b[2] < a[4] /\ b[4] > a[2]
Holds(a, b) == b[1] >= a[1] /\ b[3] <= a[3] /\ b[2] >= a[2] /\ b[4] <= a[4]
EmptyBox(a) == a[1] = a[3] \/ a[2] = a[4]
Meet(a, b) ==
  LET m == <<Max2(a[1], b[1]), Max2(a[2], b[2]), Min2(a[3], b[3]), Min2(a[4], b[4])>> IN
  IF m[1] < m[3] /\ m[2] < m[4] THEN m ELSE <<0, 0, 0, 0>>
Unite(a, b) == <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[3], b[3]), Max2(a[4], b[4])>>
Before(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])

\* grids are [x |-> axis, y |-> axis, def |-> default]
Bound(g) == <<Start(g.x), Start(g.y), End(g.x), End(g.y)>>
Cell(g, ix, iy) == <<g.x.c[ix + 1][1], g.y.c[iy + 1][1], g.x.c[ix + 1][2], g.y.c[iy + 1][2]>>
Domains(g) == Cat([iy \in 1..Len(g.y.c) |-> [ix \in 1..Len(g.x.c) |-> Cell(g, ix - 1, iy - 1)]])
DefaultGrid == [x |-> DefaultAxis, y |-> DefaultAxis, def |-> TRUE]
FromBoxes(L) ==
  IF L = <<>> THEN DefaultGrid
  ELSE LET x == Sorted({<<L[k][1], L[k][3]>> : k \in 1..Len(L)})
           y == Sorted({<<L[k][2], L[k][4]>> : k \in 1..Len(L)})
       IN [x |-> [c |-> x, reg |-> Even(x)], y |-> [c |-> y, reg |-> Even(y)], def |-> FALSE]
\* axes one after the other
RECURSIVE Fold(_)
Fold(L) ==
  IF Len(L) = 1 THEN L[1]
  ELSE LET r == Fold(SubSeq(L, 1, Len(L) - 1)) n == L[Len(L)] IN
       [c |-> r.c \o n.c, reg |-> r.reg /\ n.reg /\ End(r) = Start(n) /\ Width(r.c[1]) = Width(n.c[1])]
FromGrids(L) ==
  IF L = <<>> THEN DefaultGrid
  ELSE IF Len(L) = 1 THEN L[1]
  ELSE LET x == SortedAxes({L[k].x : k \in 1..Len(L)})
           y == SortedAxes({L[k].y : k \in 1..Len(L)})
       IN [x |-> Fold(x), y |-> Fold(y), def |-> FALSE]
=============================================================================
