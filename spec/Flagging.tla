----------------------------- MODULE Flagging -----------------------------
(* Flagging by selection: which visibilities a flagging step selects, what  *)
(* it does with their flags, and what it reports afterwards.                *)
(*                                                                          *)
(* Units: uvw and positions in metres; bounds on them in half metres; times *)
(* in ms since an epoch whose time of day is known; angles in ms of a day   *)
(* (a circle is a day); frequencies in the unit of the data set.            *)
EXTENDS Integers, Sequences, FiniteSets

Inf == 40000                 \* beyond every bound that occurs
Day == 86400000
Rg(q) == {q[k] : k \in 1..Len(q)}

(* uvw flags *)
\* a length whose square is dd lies strictly within <<lo, hi>> (halves)
LenIn(dd, lo, hi) == (lo < 0 \/ 4 * dd > lo * lo) /\ (hi > 0 /\ 4 * dd < hi * hi)
ValIn(x, lo, hi) == 2 * x > lo /\ 2 * x < hi
\* in wavelengths: f2 is twice the frequency, bounds in quarters
LenInL(dd, f2, lo, hi) == (lo < 0 \/ 4 * dd * f2 * f2 > lo * lo) /\ (hi > 0 /\ 4 * dd * f2 * f2 < hi * hi)
ValInL(x, f2, lo, hi) == 2 * x * f2 > lo /\ 2 * x * f2 < hi

UvwSel(m, l, uvw, f2) ==
  LET dd == uvw[1] * uvw[1] + uvw[2] * uvw[2] IN
  \/ \E r \in Rg(m.uv) : LenIn(dd, r[1], r[2])
  \/ \E r \in Rg(m.u) : ValIn(uvw[1], r[1], r[2])
  \/ \E r \in Rg(m.v) : ValIn(uvw[2], r[1], r[2])
  \/ \E r \in Rg(m.w) : ValIn(uvw[3], r[1], r[2])
  \/ \E r \in Rg(l.uv) : LenInL(dd, f2, r[1], r[2])
  \/ \E r \in Rg(l.u) : ValInL(uvw[1], f2, r[1], r[2])
  \/ \E r \in Rg(l.v) : ValInL(uvw[2], f2, r[1], r[2])
  \/ \E r \in Rg(l.w) : ValInL(uvw[3], f2, r[1], r[2])

\* uvw towards another centre: the antennas turn with the earth (q quarters of
\* a day since midnight), the centre is at l quarters of a circle, height b.
Cos4(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 2 -> 0 - 1 [] OTHER -> 0
Sin4(q) == CASE q % 4 = 1 -> 1 [] q % 4 = 3 -> 0 - 1 [] OTHER -> 0
Towards(p1, p2, q, l, b) ==
  LET x == p2[1] - p1[1]  y == p2[2] - p1[2]  zz == p2[3] - p1[3]
      X == Cos4(q) * x - Sin4(q) * y
      Y == Sin4(q) * x + Cos4(q) * y
      ca == Cos4(l)  sa == Sin4(l)
      cd == IF b = 0 THEN 1 ELSE 0
      sd == b
  IN <<0 - sa * X + ca * Y, 0 - sd * ca * X - sd * sa * Y + cd * zz, cd * ca * X + cd * sa * Y + sd * zz>>

(* selection criteria *)
\* baselines: antenna numbers a, b (from 0)
TermHas(t, a, b) ==
  LET A == Rg(t.a)  B == Rg(t.b)
      both == (a \in A /\ b \in B) \/ (b \in A /\ a \in B) IN
  CASE t.k = "one" -> a \in A \/ b \in A
    [] t.k = "two" -> both
    [] t.k = "cross" -> a # b /\ both
    [] t.k = "all" -> both
    [] t.k = "auto" -> a = b /\ both
LenSq(p, a, b) == (p[b + 1][1] - p[a + 1][1]) * (p[b + 1][1] - p[a + 1][1]) + (p[b + 1][2] - p[a + 1][2]) * (p[b + 1][2] - p[a + 1][2])
                  + (p[b + 1][3] - p[a + 1][3]) * (p[b + 1][3] - p[a + 1][3])
BlSel(s, inf, a, b) ==
  /\ s.blon = 1 => \E t \in Rg(s.bl) : TermHas(t, a, b)
  /\ CASE s.corr = "auto" -> a = b [] s.corr = "cross" -> a # b [] OTHER -> TRUE
  /\ Len(s.len) > 0 => \E r \in Rg(s.len) : LET dd == 4 * LenSq(inf.pos, a, b)
                                             IN (r[1] <= 0 \/ dd >= r[1] * r[1]) /\ dd <= r[2] * r[2]

\* a range of the day (or circle) may run past midnight
InDay(x, r) == IF r[1] < r[2] THEN r[1] < x /\ x < r[2] ELSE x < r[2] \/ r[1] < x
InSpan(x, r) == r[1] < x /\ x < r[2]

TimeOn(s) == Len(s.abs) + Len(s.rel) + Len(s.tod) + Len(s.lst) + Len(s.slot) > 0
TimeSel(s, inf, tod0, t, slot) ==
  /\ Len(s.abs) > 0 => \E r \in Rg(s.abs) : InSpan(t, r)
  /\ Len(s.rel) > 0 => \E r \in Rg(s.rel) : InSpan(t - (inf.t0 - inf.interval \div 2), r)
  /\ Len(s.tod) > 0 => \E r \in Rg(s.tod) : InDay((tod0 + t) % Day, r)
  /\ Len(s.lst) > 0 => \E r \in Rg(s.lst) : InDay((tod0 + t + Day \div 4) % Day, r)
  /\ Len(s.slot) > 0 => slot \in Rg(s.slot)

AzEl(s, inf, tod0, t, a) ==
  /\ Len(s.az) > 0 => \E r \in Rg(s.az) : InDay((tod0 + t + 100000 * inf.pos[a + 1][1]) % Day, r)
  /\ Len(s.el) > 0 => \E r \in Rg(s.el) : InDay((100000 * inf.pos[a + 1][2]) % Day, r)

UvSel(s, uvw) ==
  LET dd == 4 * (uvw[1] * uvw[1] + uvw[2] * uvw[2]) IN
  \/ s.uvmin > 0 /\ dd < s.uvmin * s.uvmin
  \/ s.uvmax > 0 /\ dd > s.uvmax * s.uvmax

ChanSel(s, inf, c) ==
  /\ s.chon = 1 => \E r \in Rg(s.chan) : r[1] <= c /\ c <= r[2]
  /\ s.fron = 1 => \E r \in Rg(s.freq) : r[1] < 2 * inf.freqs[c + 1] /\ 2 * inf.freqs[c + 1] < r[2]

\* angle of a complex number in (-pi, pi], by exact comparison
Half(v) == IF v[2] > 0 \/ (v[2] = 0 /\ v[1] < 0) THEN 1 ELSE IF v[2] = 0 THEN 0 ELSE 0 - 1
Turn(v) == IF v[1] = 0 /\ v[2] = 0 THEN <<1, 0>> ELSE v
AngLess(v, w) == \/ Half(v) < Half(w)
                 \/ /\ Half(v) = Half(w) /\ Half(v) # 0
                    /\ ~ (Half(v) = 1 /\ v[2] = 0)
                    /\ (Half(w) = 1 /\ w[2] = 0) \/ v[1] * w[2] - v[2] * w[1] > 0
None(v) == v[1] = 0 /\ v[2] = 0

\* v: the correlations of one visibility
ValueSel(s, v) ==
  /\ s.amon = 1 => \E p \in DOMAIN v : LET dd == 4 * (v[p][1] * v[p][1] + v[p][2] * v[p][2]) IN
                     \/ (s.amin[p] > 0 /\ dd < s.amin[p] * s.amin[p])
                     \/ (s.amax[p] < 0 \/ dd > s.amax[p] * s.amax[p])
  /\ s.reon = 1 => \E p \in DOMAIN v : 2 * v[p][1] < s.rmin[p] \/ 2 * v[p][1] > s.rmax[p]
  /\ s.imon = 1 => \E p \in DOMAIN v : 2 * v[p][2] < s.imin[p] \/ 2 * v[p][2] > s.imax[p]
  /\ s.phon = 1 => \E p \in DOMAIN v : LET w == Turn(v[p]) IN
                     \/ (~ None(s.pmin[p]) /\ AngLess(w, s.pmin[p]))
                     \/ (~ None(s.pmax[p]) /\ AngLess(s.pmax[p], w))

BlOn(s) == s.blon = 1 \/ s.corr # "" \/ Len(s.len) > 0
UvOn(s) == s.uvmin > 0 \/ s.uvmax > 0
AzElOn(s) == Len(s.az) + Len(s.el) > 0
AnyOn(s) == \/ BlOn(s) \/ UvOn(s) \/ AzElOn(s) \/ TimeOn(s) \/ s.chon = 1 \/ s.fron = 1
            \/ s.amon = 1 \/ s.reon = 1 \/ s.imon = 1 \/ s.phon = 1 \/ s.expr.op # "none"

\* A visibility is selected if it meets every criterion given; a set without
\* criteria selects nothing.
RECURSIVE Sel(_, _, _, _, _, _, _), Expr(_, _, _, _, _, _, _, _)
Sel(s, inf, tod0, slot, ev, b, c) ==
  LET a1 == inf.ant1[b]  a2 == inf.ant2[b] IN
  /\ AnyOn(s)
  /\ TimeOn(s) => TimeSel(s, inf, tod0, ev.t, slot)
  /\ BlOn(s) => BlSel(s, inf, a1, a2)
  /\ UvOn(s) => UvSel(s, ev.uvw[b])
  /\ AzElOn(s) => AzEl(s, inf, tod0, ev.t, a1) /\ AzEl(s, inf, tod0, ev.t, a2)
  /\ ChanSel(s, inf, c - 1)
  /\ ValueSel(s, ev.d[1][b][c])
  /\ s.expr.op # "none" => Expr(s.expr, s, inf, tod0, slot, ev, b, c)
Expr(e, s, inf, tod0, slot, ev, b, c) ==
  CASE e.op = "set" -> Sel(s.subs[e.k], inf, tod0, slot, ev, b, c)
    [] e.op = "not" -> ~ Expr(e.x, s, inf, tod0, slot, ev, b, c)
    [] e.op = "and" -> Expr(e.l, s, inf, tod0, slot, ev, b, c) /\ Expr(e.r, s, inf, tod0, slot, ev, b, c)
    [] e.op = "or" -> Expr(e.l, s, inf, tod0, slot, ev, b, c) \/ Expr(e.r, s, inf, tod0, slot, ev, b, c)

\* What becomes of a flag.  Clearing keeps the flag of invalid data; whether it
\* also flags invalid data that was not flagged is left open.
NewFlags(mode, sel, old, invalid) ==
  CASE mode = "set" -> {old \/ sel}
    [] mode = "setcomplement" -> {old \/ ~ sel}
    [] mode = "clear" -> IF sel THEN (IF invalid THEN {old, TRUE} ELSE {FALSE}) ELSE {old}
    [] mode = "clearcomplement" -> IF ~ sel THEN (IF invalid THEN {old, TRUE} ELSE {FALSE}) ELSE {old}

(* reports *)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Perc(n, d) == (200 * n + d) \div (2 * d)
Perc3(n, d) == (200000 * n + d) \div (2 * d)

\* z.blc, z.chc: counts per baseline and channel; nt: time slots seen
Used(inf) == {inf.ant1[b] : b \in DOMAIN inf.ant1} \cup {inf.ant2[b] : b \in DOMAIN inf.ant2}
BlOf(inf, a, c) == {b \in DOMAIN inf.ant1 : {inf.ant1[b], inf.ant2[b]} = {a, c}}
BlWith(inf, a) == {b \in DOMAIN inf.ant1 : inf.ant1[b] = a \/ inf.ant2[b] = a}
Cells(inf, blc, np) ==
  UNION {LET S == BlOf(inf, p[1], p[2]) IN
         IF S = {} THEN {} ELSE {<<p[1], p[2], Perc(SumOver(blc, S), Cardinality(S) * np)>>}
         : p \in Used(inf) \X Used(inf)}
AntPerc(inf, blc, np) == {<<a, Perc(SumOver(blc, BlWith(inf, a)), Cardinality(BlWith(inf, a)) * np)>> : a \in Used(inf)}
Full(inf, blc, np) ==
  {p \in {<<a, c>> \in Used(inf) \X Used(inf) : a <= c} :
     LET S == BlOf(inf, p[1], p[2]) IN S # {} /\ SumOver(blc, S) = Cardinality(S) * np}
NoteAnt(inf, blc, np, warn) ==
  {a \in Used(inf) : 100 * SumOver(blc, BlWith(inf, a)) >= warn * Cardinality(BlWith(inf, a)) * np}
=============================================================================
