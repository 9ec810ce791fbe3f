------------------------------- MODULE Gains -------------------------------
(* Gain calibration: the visibilities a solver works on, how they are       *)
(* weighted and assigned to channel blocks and solution intervals, the      *)
(* buffer that collects baseline-dependent rows per solution interval, and  *)
(* what a solver owes its caller.                                           *)
(*                                                                          *)
(* Numbers: data are integers over div, model values integers, weights      *)
(* squares (integers in linear mode), solutions 1/10000.                    *)
EXTENDS Complex, FiniteSets
NaNMark == 7777
Finite(x) == x[1] # NaNMark /\ x[2] # NaNMark
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
Root(w) == CHOOSE r \in 0..100 : r * r = w
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
RECURSIVE SumI(_)
SumI(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumI(Tail(q))
Pick(q, Ok(_)) == LET RECURSIVE F(_)
                      F(n) == IF n > Len(q) THEN <<>> ELSE (IF Ok(q[n]) THEN <<q[n]>> ELSE <<>>) \o F(n + 1) IN F(1)
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A k \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[k]}) = Cardinality({j \in DOMAIN b : b[j] = a[k]})

(* Weighting: one correlation that is flagged or not finite, in the data or *)
(* in any model, removes the whole visibility.                              *)
Usable(d, f, ms) == /\ \A p \in DOMAIN d : f[p] = 0 /\ Finite(d[p])
                    /\ \A n \in DOMAIN ms : \A p \in DOMAIN d : Finite(ms[n][p])
Factor(w, linear) == IF linear THEN w ELSE Root(w)
Weighed(x, w, use, linear) == [p \in DOMAIN x |-> IF use THEN CScale(Factor(w[p], linear), x[p]) ELSE CZero]
Raw(x) == [p \in DOMAIN x |-> IF Finite(x[p]) THEN x[p] ELSE <<>>]

(* A visibility as a solver of a kind sees it: all four correlations, the   *)
(* two parallel ones, or their sum (twice the mean; so everything is twice) *)
See(kind, m) == CASE kind = "full" -> [p \in 1..4 |-> CScale(2, m[p])]
                  [] kind = "duo"  -> <<CScale(2, m[1]), CScale(2, m[4])>>
                  [] kind = "uni"  -> <<CAdd(m[1], m[4])>>

InBlock(c, k, nch, nb) == /\ (k * nch) \div nb <= c
                          /\ c < ((k + 1) * nch) \div nb
RECURSIVE Before(_, _)
Before(ns, d) == IF d = 1 THEN 0 ELSE ns[d - 1] + Before(ns, d - 1)

(* A case: [kind, nb, ns, linear] and rows [a, d, m, w, f, at], at giving   *)
(* the offset of the solution for n solutions.                              *)
VisOf(case, r, c) ==     \* c from 0
  LET ms  == [n \in DOMAIN r.m |-> r.m[n][c + 1]]
      use == Usable(r.d[c + 1], r.f[c + 1], ms)
      lin == case.linear /\ ~ case.bda IN     \* rows are always weighted by the root
  [a |-> r.a, v |-> See(case.kind, Weighed(r.d[c + 1], r.w[c + 1], use, lin)),
   m |-> [n \in DOMAIN ms |-> See(case.kind, Weighed(ms[n], r.w[c + 1], use, lin))],
   s |-> [n \in DOMAIN ms |-> Before(case.ns, n) + r.at[n]],
   w |-> IF ~ case.linear THEN <<>> ELSE IF case.bda THEN <<1, 1, 1, 1>> ELSE r.w[c + 1]]
BlockOf(case, k) ==
  Cat([n \in DOMAIN case.rows |->
         LET r == case.rows[n]  nch == Len(r.d)
             cs == Pick([c \in 1..nch |-> c - 1], LAMBDA c : InBlock(c, k, nch, case.nb)) IN
         [q \in DOMAIN cs |-> VisOf(case, r, cs[q])]])
CountAnt(vis, a) == Cardinality({n \in DOMAIN vis : vis[n].a[1] = a \/ vis[n].a[2] = a})
IAbs(z) == CHOOSE r \in 0..(CAbs1(z)) : r * r = CNorm(z)
Strength(m) == SumI([p \in DOMAIN m |-> IAbs(m[p])])
\* solution weight (twice): the sum of the model's amplitudes
SolWeight(case, k, s, a) ==
  LET vis == BlockOf(case, k) IN
  SumI([n \in DOMAIN vis |-> IF vis[n].a[1] # a /\ vis[n].a[2] # a THEN 0
         ELSE SumI([q \in DOMAIN vis[n].s |-> IF vis[n].s[q] = s THEN Strength(vis[n].m[q]) ELSE 0])])

(* ---- collecting baseline-dependent rows ---- *)
Rel(b, t) == ((t - b.start) \div b.interval) - b.cur
NewBda(start, interval, nbl) == [start |-> start, interval |-> interval, cur |-> 0, last |-> [k \in 1..nbl |-> -1],
                                 bufs |-> <<>>, done |-> <<>>, rows |-> <<>>]
\* rows: all rows of the active buffers by time order of arrival; a row knows its buffer through bufs
Full(b) == \A k \in DOMAIN b.last : b.last[k] >= 0
Current(b) == Pick(b.rows, LAMBDA r : Rel(b, r.t) = 0)
AddRow(b, r) == LET s == Rel(b, r.t - r.int \div 2) IN
                [b EXCEPT !.rows = Append(@, r), !.last[r.bl + 1] = s - 1]
RowFits(b, r) == Rel(b, r.t - r.int \div 2) >= b.last[r.bl + 1]
RECURSIVE Fits(_, _)
Fits(b, rs) == IF rs = <<>> THEN TRUE ELSE RowFits(b, Head(rs)) /\ Fits(AddRow(b, Head(rs)), Tail(rs))
RECURSIVE AddAll(_, _)
AddAll(b, rs) == IF rs = <<>> THEN b ELSE AddAll(AddRow(b, Head(rs)), Tail(rs))
Names(rs) == [n \in DOMAIN rs |-> <<rs[n].bl, rs[n].t>>]
AppendBuf(b, rs) == [AddAll(b, rs) EXCEPT !.bufs = Append(@, Names(rs))]
Advanced(b) == LET c == [b EXCEPT !.cur = @ + 1, !.last = [k \in DOMAIN @ |-> @[k] - 1]] IN
               LET r == Pick(c.rows, LAMBDA x : Rel(c, x.t) >= 0)
                   RECURSIVE G(_)
                   G(x) == IF x.bufs = <<>> THEN x
                           ELSE IF \E n \in DOMAIN Head(x.bufs) : Rel(x, Head(x.bufs)[n][2]) >= 0 THEN x
                           ELSE G([x EXCEPT !.done = Append(x.done, Head(x.bufs)), !.bufs = Tail(x.bufs)]) IN
               G([c EXCEPT !.rows = r])
Cleared(b) == [b EXCEPT !.rows = <<>>, !.bufs = <<>>, !.done = <<>>]

(* ---- solutions ---- *)
\* a solution as a matrix, scale 1000 (from 1/10000)
Tenth(z) == <<(z[1] + 5) \div 10, (z[2] + 5) \div 10>>
Jones(g) == CASE Len(g) = 1 -> <<Tenth(g[1]), CZero, CZero, Tenth(g[1])>>
              [] Len(g) = 2 -> <<Tenth(g[1]), CZero, CZero, Tenth(g[2])>>
              [] Len(g) = 4 -> [p \in 1..4 |-> Tenth(g[p])]
Known(g) == \A p \in DOMAIN g : g[p] # <<>>
\* what is seen, as a matrix
AsMatrix(v) == CASE Len(v) = 1 -> <<v[1], CZero, CZero, CZero>>
                 [] Len(v) = 2 -> <<v[1], CZero, CZero, v[2]>>
                 [] Len(v) = 4 -> v
CDiv(n, z) == <<(z[1] + n \div 2) \div n, (z[2] + n \div 2) \div n>>
MDiv(n, A) == [p \in 1..4 |-> CDiv(n, A[p])]
\* g1 m g2^H at scale 1000 (m whole numbers, doubled)
Predict(g1, m, g2) == MDiv(100, MMul(MDiv(10, MMul(g1, m)), MHerm(g2)))
=============================================================================
