------------------------------- MODULE DataInfo -------------------------------
(* The description of a data set, as steps change it.                       *)
(* Times in ms, frequencies in units; both relative to the history's origin.*)
(* fr, wi, re, eb hold one list of channels, or one per baseline.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))
Range(s) == {s[k] : k \in 1..Len(s)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Blank(n, ncorr, set) ==
  [ncorr |-> ncorr, orig |-> n, nchan |-> n, start |-> 0, ca |-> 1, ta |-> <<1>>, t0 |-> 0, t1 |-> 0, int |-> 1000,
   nt |-> 1, fr |-> <<<<>>>>, wi |-> <<<<>>>>, re |-> <<<<>>>>, eb |-> <<<<>>>>, bw |-> 0, ref |-> 0, names |-> <<>>, diam |-> <<>>,
   pos |-> <<>>, a1 |-> <<>>, a2 |-> <<>>, meta |-> FALSE, timed |-> FALSE, set |-> set,
   phase |-> <<0, 0>>, orig_phase |-> <<0, 0>>, delay |-> <<0, 0>>, tile |-> <<0, 0>>]
NBl(d) == Len(d.a1)

(* ---- channels ----------------------------------------------------------- *)
Or(x, y) == IF x = <<>> THEN y ELSE x
Middle(f) == f[(Len(f) - 1) \div 2 + 1] + f[Len(f) \div 2 + 1]      \* doubled
ChanOk(f, w, r, e) == Len(w) = Len(f) /\ Len(r) = Len(f) /\ Len(e) = Len(f)
SetChan(d, f, w, r, e, ref) ==
  [d EXCEPT !.fr = <<f>>, !.wi = <<w>>, !.re = <<Or(r, w)>>, !.eb = <<Or(e, w)>>, !.nchan = Len(f),
            !.bw = Sum(Or(e, w)), !.ref = IF ref = 0 THEN Middle(f) \div 2 ELSE ref]
BdaOk(d, f, w, r, e) ==
  /\ Len(f) = NBl(d) /\ Len(w) = NBl(d) /\ Len(r) = NBl(d) /\ Len(e) = NBl(d)
  /\ \A b \in 1..NBl(d) : ChanOk(f[b], w[b], r[b], e[b])
  /\ \A b \in 1..NBl(d) : Sum(e[b]) = Sum(e[1])
SetBda(d, f, w, r, e, ref) ==
  LET best == CHOOSE b \in 1..Len(f) : (\A c \in 1..Len(f) : Len(f[c]) <= Len(f[b]))
                                       /\ (\A c \in 1..(b - 1) : Len(f[c]) < Len(f[b]))
  IN [d EXCEPT !.fr = f, !.wi = w, !.re = Or(r, w), !.eb = Or(e, w), !.nchan = Len(f[best]),
               !.bw = Sum(Or(e, w)[1]), !.ref = IF ref = 0 THEN Middle(f[best]) \div 2 ELSE ref]
\* regular: all baselines alike, evenly spaced and equally wide to within 1 kHz
\* (khz units; the frequencies are on a finer scale); nothing but the first list is looked at for the spacing
Regular(d, khz, scale) ==
  /\ \A b \in 2..Len(d.fr) : d.fr[b] = d.fr[1] /\ d.wi[b] = d.wi[1] /\ d.re[b] = d.re[1] /\ d.eb[b] = d.eb[1]
  /\ LET f == d.fr[1] w == d.wi[1] IN
       \A k \in 2..Len(f) : AbsI(f[k] - f[k - 1] - (f[2] - f[1])) < scale * khz /\ AbsI(w[k] - w[1]) < khz
Sel(s, start, n) == SubSeq(s, start + 1, start + n)
SelectCh(d, start, n) ==
  [d EXCEPT !.fr = <<Sel(@[1], start, n)>>, !.wi = <<Sel(@[1], start, n)>>, !.re = <<Sel(@[1], start, n)>>,
            !.eb = <<Sel(@[1], start, n)>>, !.bw = Sum(Sel(d.eb[1], start, n)), !.start = @ + start, !.nchan = n]

(* ---- averaging ----------------------------------------------------------- *)
Group(s, c) == [k \in 1..(Len(s) \div c) |-> Sum(SubSeq(s, (k - 1) * c + 1, k * c))]
\* the middle of a group of channels, doubled so as to stay whole: fr holds
\* doubled frequencies
GroupF(s, c) == [k \in 1..(Len(s) \div c) |-> (s[(k - 1) * c + 1] + s[k * c]) \div 2]
Average(d, ca, ta) ==
  LET nt == CeilDiv(d.nt, ta)
      first == d.t0 + ((ta - 1) * d.int) \div 2
  IN [d EXCEPT !.ca = @ * ca, !.nchan = @ \div ca, !.ta = <<@[1] * ta>> \o Tail(@), !.nt = nt,
               !.t0 = first, !.int = @ * ta, !.t1 = first + (nt - 1) * d.int * ta,
               !.fr = <<GroupF(@[1], ca)>>, !.wi = <<Group(@[1], ca)>>, !.re = <<Group(@[1], ca)>>,
               !.eb = <<Group(@[1], ca)>>, !.bw = Sum(d.eb[1])]

(* ---- antennas ------------------------------------------------------------ *)
UsedSet(d) == Range(d.a1) \cup Range(d.a2)                     \* numbered from 0
Rank(S, x) == Cardinality({y \in S : y < x})
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
Map(d) == [k \in 1..Len(d.names) |-> IF (k - 1) \in UsedSet(d) THEN Rank(UsedSet(d), k - 1) ELSE -1]
Pick(s, idx) == [k \in 1..Len(idx) |-> s[idx[k] + 1]]
DropUnused(d) ==
  LET u == SortSet(UsedSet(d)) m == Map(d)
  IN IF Len(u) = Len(d.names) THEN d
     ELSE [d EXCEPT !.names = Pick(@, u), !.diam = Pick(@, u), !.pos = Pick(@, u),
                    !.a1 = [k \in 1..Len(@) |-> m[@[k] + 1]], !.a2 = [k \in 1..Len(@) |-> m[@[k] + 1]], !.meta = TRUE]
AutoIndex(d) ==
  [k \in 1..(1 + MaxOf(UsedSet(d))) |->
     LET S == {b \in 1..NBl(d) : d.a1[b] = k - 1 /\ d.a2[b] = k - 1} IN IF S = {} THEN -1 ELSE MaxOf(S) - 1]
Dist2(d, b) == LET p == d.pos[d.a1[b] + 1] q == d.pos[d.a2[b] + 1]
               IN (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
\* l (in sixteenths) is the root of n to within rounding
IsRoot(l, n) == l >= 0 /\ (2 * l - 1 <= 0 \/ (2 * l - 1) * (2 * l - 1) <= 1024 * n) /\ 1024 * n <= (2 * l + 1) * (2 * l + 1)
=============================================================================
