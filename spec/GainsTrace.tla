---------------------------- MODULE GainsTrace ----------------------------
EXTENDS Gains, TraceBase

StartSt(ev) == [bda |-> <<>>, last |-> <<>>, threads |-> IF "threads" \in DOMAIN ev THEN ev.threads ELSE 1]

RegularRows(ev) ==
  LET nt == Len(ev.bufs)
      cross == Pick([b \in DOMAIN ev.a1 |-> b], LAMBDA b : ev.a1[b] # ev.a2[b]) IN
  Cat([t \in 1..nt |-> [q \in DOMAIN cross |->
        LET b == cross[q]  u == ev.bufs[t] IN
        [a |-> <<ev.a1[b], ev.a2[b]>>, d |-> u.d[b], w |-> u.w[b], f |-> u.f[b], m |-> [n \in DOMAIN u.m |-> u.m[n][b]],
         at |-> [n \in DOMAIN ev.nsols |-> ((t - 1) * MinOf(ev.nsols[n], nt)) \div nt]]]])
BdaRows(b, ev) ==
  LET cur == Current(b)
      cross == Pick(cur, LAMBDA r : ev.a1[r.bl + 1] # ev.a2[r.bl + 1])
      lim == Len(cur)
      at(r, n) == MinOf(n - 1, ((r.t - b.start - b.cur * b.interval) * n) \div b.interval) IN
  [q \in DOMAIN cross |-> LET r == cross[q] IN
     [a |-> <<ev.a1[r.bl + 1], ev.a2[r.bl + 1]>>, d |-> r.d, w |-> r.w, f |-> r.f, m |-> r.m,
      at |-> [n \in DOMAIN ev.nsols |-> at(r, MinOf(ev.nsols[n], lim))]]]
IsBda(ev) == "bufs" \notin DOMAIN ev
Limit(z, ev) == IF IsBda(ev) THEN Len(Current(z.bda)) ELSE Len(ev.bufs)
CaseOf(z, ev) == [kind |-> ev.kind, nb |-> ev.blocks, linear |-> ev.linear = 1, bda |-> IsBda(ev),
                  ns |-> [n \in DOMAIN ev.nsols |-> MinOf(ev.nsols[n], Limit(z, ev))],
                  rows |-> IF IsBda(ev) THEN BdaRows(z.bda, ev) ELSE RegularRows(ev)]

\* ---- weighting ----
JWeigh(ev) ==
  /\ ev.res = "ok" /\ Len(ev.out) = Len(ev.bufs)
  /\ \A t \in DOMAIN ev.bufs :
       LET u == ev.bufs[t]  o == ev.out[t]
           lin == ev.linear = 1
           nc == Len(u.d[1])  np == Len(u.d[1][1])
           use(b, c) == Usable(u.d[b][c], u.f[b][c], [n \in DOMAIN u.m |-> u.m[n][b][c]])
       IN /\ o.d = [b \in DOMAIN u.d |-> [c \in DOMAIN u.d[b] |-> Weighed(u.d[b][c], u.w[b][c], use(b, c), lin)]]
          /\ o.m = [n \in DOMAIN u.m |-> [b \in DOMAIN u.d |-> [c \in DOMAIN u.d[b] |-> Weighed(u.m[n][b][c], u.w[b][c], use(b, c), lin)]]]
          /\ o.u = [b \in DOMAIN u.d |-> [c \in DOMAIN u.d[b] |-> Raw(u.d[b][c])]]
          /\ o.um = IF ev.keep = 1 THEN [n \in DOMAIN u.m |-> [b \in DOMAIN u.d |-> [c \in DOMAIN u.d[b] |-> Raw(u.m[n][b][c])]]] ELSE <<>>
          /\ IF lin THEN o.w = Cat([b \in DOMAIN u.w |-> Cat([c \in DOMAIN u.w[b] |-> u.w[b][c]])]) ELSE o.w = <<>>

\* ---- solve data ----
Plain(x) == [a |-> x.a, v |-> x.v, m |-> x.m, s |-> x.s, w |-> IF "w" \in DOMAIN x THEN x.w ELSE <<>>]
JData(z, ev) ==
  LET case == CaseOf(z, ev)
      tot == SumI(case.ns) IN
  /\ ev.res = "ok" /\ Len(ev.blocks_out) = ev.blocks
  /\ \A k \in 1..ev.blocks :
       LET o == ev.blocks_out[k]  vis == BlockOf(case, k - 1)
           cnt(d, s) == Cardinality({n \in DOMAIN vis : vis[n].s[d] = s}) IN
       /\ o.nd = Len(case.ns) /\ o.ns = case.ns /\ o.total = tot
       /\ SameBag(vis, [n \in DOMAIN o.vis |-> Plain(o.vis[n])])
       /\ o.cnt = [a \in 1..ev.nant |-> CountAnt(vis, a - 1)]
       /\ o.scnt = Cat([d \in DOMAIN case.ns |-> [s \in 1..case.ns[d] |-> cnt(d, Before(case.ns, d) + s - 1)]])
  /\ ev.sw = [s \in 1..tot |-> Cat([a \in 1..ev.nant |-> [k \in 1..ev.blocks |-> SolWeight(case, k - 1, s - 1, a - 1)]])]

\* ---- the buffer of rows ----
RowIs(o, r) ==
  LET use(c) == Usable(r.d[c], r.f[c], [n \in DOMAIN r.m |-> r.m[n][c]]) IN
  /\ o.t = r.t /\ o.bl = r.bl /\ o.nch = Len(r.d) /\ o.nc = 4
  /\ o.u = [c \in DOMAIN r.d |-> Raw(r.d[c])]
  /\ o.d = [c \in DOMAIN r.d |-> Weighed(r.d[c], r.w[c], use(c), FALSE)]
  /\ o.m = [n \in DOMAIN r.m |-> [c \in DOMAIN r.d |-> Weighed(r.m[n][c], r.w[c], use(c), FALSE)]]
  /\ o.w = r.w /\ o.f = r.f
  /\ Len(o.um) = Len(r.um)
  /\ \A n \in DOMAIN r.um : \A c \in DOMAIN r.um[n] : \A p \in 1..4 :
       IF \A q \in 1..4 : Finite(r.m[n][c][q])
       THEN o.um[n][c][p] # <<>> /\ CAbs1(CSub(o.um[n][c][p], r.um[n][c][p])) <= 4 + CAbs1(r.um[n][c][p]) \div 100000
       ELSE TRUE
Shows(b, ev) ==
  LET cur == Current(b) IN
  /\ ev.cnt = Len(b.bufs) /\ ev.cur = b.cur /\ ev.full = (IF Full(b) THEN 1 ELSE 0)
  /\ ev.t0 = b.start + b.cur * b.interval /\ ev.dur = b.interval
  /\ Len(ev.irows) = Len(cur) /\ \A n \in DOMAIN cur : RowIs(ev.irows[n], cur[n])
NewRow(ev, r) == [t |-> r.t, int |-> r.int, bl |-> r.bl, d |-> r.d, w |-> r.w, f |-> r.f, m |-> r.m,
                  um |-> IF ev.keep = 0 THEN <<>>
                         ELSE [n \in DOMAIN r.m |-> [c \in DOMAIN r.d |-> [p \in 1..4 |-> IF Finite(r.m[n][c][p]) THEN CScale(10000, r.m[n][c][p]) ELSE CZero]]]]
JAppend(z, ev) ==
  LET rs == [n \in DOMAIN ev.rows |-> NewRow(ev, ev.rows[n])] IN
  IF Fits(z.bda, rs) THEN LET nb == AppendBuf(z.bda, rs) IN <<ev.res = "ok" /\ Shows(nb, ev), [z EXCEPT !.bda = nb]>>
  ELSE <<ev.res = "err", [z EXCEPT !.bda = <<>>]>>
\* applying solutions (tenths) to the unweighted models of the current interval
SolAt(ev, k, a, d, nd) == LET s == ev.sol[k]  n == (a * nd + d - 1) * ev.np IN
                          CASE ev.np = 1 -> <<s[n + 1], CZero, CZero, s[n + 1]>>
                            [] ev.np = 2 -> <<s[n + 1], CZero, CZero, s[n + 2]>>
                            [] ev.np = 4 -> [p \in 1..4 |-> s[n + p]]
BlockOfFreq(ev, f) == CHOOSE k \in 1..(Len(ev.starts) - 1) : ev.starts[k] < f /\ f <= ev.starts[k + 1]
AppliedRow(ev, r) ==
  [r EXCEPT !.um = [n \in DOMAIN @ |-> [c \in DOMAIN r.d |->
     LET k == BlockOfFreq(ev, ev.freqs[r.bl + 1][c])
         m == [p \in 1..4 |-> CDiv(100, r.um[n][c][p])] IN
     MMul(MMul(SolAt(ev, k, ev.a1[r.bl + 1], n, Len(r.um)), m), MHerm(SolAt(ev, k, ev.a2[r.bl + 1], n, Len(r.um))))]]]
Applied(b, ev) == [b EXCEPT !.rows = [n \in DOMAIN @ |-> IF Rel(b, @[n].t) = 0 THEN AppliedRow(ev, @[n]) ELSE @[n]]]

\* ---- solutions ----
Get(ev, k, a, s) == ev.sol[k][a + 1][s + 1]
Start(ev, k, a, s) == ev.init[k][a + 1][s + 1]
NSub(ev) == SumI(ev.nsols)
\* a solution exists exactly for antennas with data that count
Alive(vis, a, s) == \E n \in DOMAIN vis : /\ a \in {vis[n].a[1], vis[n].a[2]}
                                          /\ \E q \in DOMAIN vis[n].s : vis[n].s[q] = s /\ \E p \in DOMAIN vis[n].m[q] : vis[n].m[q][p] # CZero
Existence(ev, case) ==
  \A k \in 1..ev.blocks : LET vis == BlockOf(case, k - 1) IN
    \A a \in 0..(ev.nant - 1) : \A s \in 0..(NSub(ev) - 1) :
      \/ ev.pin # <<>> /\ ev.pin[1] = a
      \/ IF Alive(vis, a, s) THEN Known(Get(ev, k, a, s)) ELSE ~ Known(Get(ev, k, a, s))
\* what remains of the data after subtracting every direction, scale 1000 (doubled)
Whole(x) == CScale(1000, x)
Remain(ev, k, x) ==
  LET RECURSIVE Sub(_)
      Sub(q) == IF q = 0 THEN [p \in 1..4 |-> LET y == CScale(1000, AsMatrix(x.v)[p]) IN <<y[1] \div ev.div, y[2] \div ev.div>>]
                ELSE MSub(Sub(q - 1), Predict(Jones(Get(ev, k, x.a[1], x.s[q])), AsMatrix(x.m[q]), Jones(Get(ev, k, x.a[2], x.s[q]))))
  IN Sub(Len(x.m))
Seen(v) == CASE Len(v) = 1 -> {1}
             [] Len(v) = 2 -> {1, 4}
             [] Len(v) = 4 -> 1..4
SizeM(A) == CAbs1(A[1]) + CAbs1(A[2]) + CAbs1(A[3]) + CAbs1(A[4])
Used(ev, k, x) == /\ \E p \in DOMAIN x.v : x.v[p] # CZero \/ \E q \in DOMAIN x.m : x.m[q][p] # CZero
                  /\ \A q \in DOMAIN x.s : Known(Get(ev, k, x.a[1], x.s[q])) /\ Known(Get(ev, k, x.a[2], x.s[q]))
\* noise-free data are reproduced (tolerance in thousandths of the data)
Fitted(ev, case, tol) ==
  \A k \in 1..ev.blocks : LET vis == BlockOf(case, k - 1) IN
    \A n \in DOMAIN vis : Used(ev, k, vis[n]) =>
      LET R == Remain(ev, k, vis[n]) IN
      \A p \in Seen(vis[n].v) : CAbs1(R[p]) <= 60 + (tol * SizeM(AsMatrix(vis[n].v))) \div ev.div
                                 + tol * SumI([q \in DOMAIN vis[n].m |-> SizeM(AsMatrix(vis[n].m[q]))])
\* at a converged solution no gain can be changed to reduce what remains:
\* its derivative vanishes (for phases: the derivative along the circle)
Lit(ev, k, x, q, a) ==      \* remaining times conjugate of what the gain multiplies, scale 100 * 100
  LET R == MDiv(10, Remain(ev, k, x))
      M == AsMatrix(x.m[q]) IN
  IF x.a[1] = a THEN MMul(R, MHerm(MDiv(10, MMul(M, MHerm(Jones(Get(ev, k, x.a[2], x.s[q])))))))
  ELSE MMul(MHerm(R), MDiv(10, MMul(Jones(Get(ev, k, x.a[1], x.s[q])), M)))
Weight2(ev, k, x, q, a) ==  \* and the size of that, scale 100
  LET M == AsMatrix(x.m[q]) IN
  IF x.a[1] = a THEN SizeM(MDiv(10, MMul(M, MHerm(Jones(Get(ev, k, x.a[2], x.s[q]))))))
  ELSE SizeM(MDiv(10, MMul(Jones(Get(ev, k, x.a[1], x.s[q])), M)))
Parts(np, A) == CASE np = 1 -> <<CAdd(A[1], A[4])>>
                  [] np = 2 -> <<A[1], A[4]>>
                  [] np = 4 -> A
\* the full derivative at scale 10000 (doubled squared), only for real changes
Slope(ev, k, vis, a, s, np) ==
  LET RECURSIVE S(_)
      S(n) == IF n = 0 THEN [p \in 1..np |-> CZero]
              ELSE LET x == vis[n]
                       add == IF (x.a[1] = a \/ x.a[2] = a) /\ (\E q \in DOMAIN x.s : x.s[q] = s) /\ Used(ev, k, x)
                              THEN LET q == CHOOSE j \in DOMAIN x.s : x.s[j] = s IN Parts(np, Lit(ev, k, x, q, a))
                              ELSE [p \in 1..np |-> CZero]
                       old == S(n - 1) IN
                   [p \in 1..np |-> CAdd(old[p], CDiv(100, add[p]))]
  IN S(Len(vis))
Scale2(ev, k, vis, a, s) ==
  SumI([n \in DOMAIN vis |-> LET x == vis[n] IN
         IF (x.a[1] = a \/ x.a[2] = a) /\ (\E q \in DOMAIN x.s : x.s[q] = s) /\ Used(ev, k, x)
         THEN LET q == CHOOSE j \in DOMAIN x.s : x.s[j] = s
                  h == Weight2(ev, k, x, q, a) \div 10 IN (h * h) \div 100 + h
         ELSE 0])
Stationary(ev, case, tol) ==
  \A k \in 1..ev.blocks : LET vis == BlockOf(case, k - 1) IN
    \A a \in 0..(ev.nant - 1) : \A s \in 0..(NSub(ev) - 1) :
      (Known(Get(ev, k, a, s)) /\ (ev.pin = <<>> \/ ev.pin[1] # a)) =>
        LET g == Slope(ev, k, vis, a, s, ev.npol)
            sc == Scale2(ev, k, vis, a, s) IN
        \A p \in 1..ev.npol :
          IF ev.cfg.phase = 1
          THEN LET u == Tenth(Get(ev, k, a, s)[p])
                   im == (u[1] * (g[p][2] \div 10) - u[2] * (g[p][1] \div 10)) \div 100 IN Abs(im) <= (tol * sc) \div 10 + 20
          ELSE CAbs1(g[p]) <= (tol * sc) \div 10 + 20
\* unusable start values are replaced by the mean amplitude of the others, per
\* polarization, and by one if there are no others
Mean(ev, k, p, np) ==   \* in thousandths; start values are tenths with whole amplitudes
  LET all == Cat([a \in 1..ev.nant |-> [s \in 1..NSub(ev) |-> ev.init[k][a][s]]])
      fin == Pick(all, LAMBDA g : \A r \in 1..np : g[r] # <<>>)
      amp == SumI([n \in DOMAIN fin |-> IAbs(fin[n][p])]) IN
  IF fin = <<>> THEN (IF np = 4 /\ p \in {2, 3} THEN 0 ELSE 10000) ELSE (1000 * amp) \div Len(fin)
Repaired(ev) ==
  LET np == ev.npol IN
  \A k \in 1..ev.blocks : \A a \in 0..(ev.nant - 1) : \A s \in 0..(NSub(ev) - 1) :
    LET st0 == Start(ev, k, a, s)
        g == Get(ev, k, a, s)
        want(p) == IF \A r \in 1..np : st0[r] # <<>> THEN CScale(1000, st0[p]) ELSE <<Mean(ev, k, p, np), 0>> IN
    \A p \in 1..np : g[p] # <<>> /\ CAbs1(CSub(g[p], want(p))) <= 6
\* a step of half the size goes half the way (for phases: along the circle)
Halfway(ev, full) ==
  \A k \in 1..ev.blocks : \A a \in 0..(ev.nant - 1) : \A s \in 0..(NSub(ev) - 1) : \A p \in 1..ev.npol :
    LET h == Get(ev, k, a, s)[p]  f == full.sol[k][a + 1][s + 1][p]  s0 == Start(ev, k, a, s)[p] IN
    (h # <<>> /\ f # <<>>) =>
       IF ev.cfg.phase = 1
       THEN LET x == CAdd(CScale(10, s0), CDiv(100, f))      \* hundredths; both on the unit circle
                y == CDiv(10, h) IN                          \* thousandths
            CAbs1(x) < 50 \/ (/\ Abs(x[1] * y[2] - x[2] * y[1]) <= 3000
                              /\ x[1] * y[1] + x[2] * y[2] > 0)
       ELSE CAbs1(CSub(CScale(2, h), CAdd(CScale(1000, s0), f))) <= 8
Unit(ev) == \A k \in 1..ev.blocks : \A a \in 1..ev.nant : \A s \in 1..NSub(ev) : \A p \in 1..ev.npol :
              LET g == ev.sol[k][a][s][p] IN g # <<>> => (IF ev.npol = 4 /\ p \in {2, 3} THEN TRUE ELSE Abs(CNorm(CDiv(10, g)) - 1000000) <= 3000)
Pinned(ev) == ev.pin = <<>> \/ \A k \in 1..ev.blocks : \A s \in 1..NSub(ev) : \A p \in 1..ev.npol :
                ev.sol[k][ev.pin[1] + 1][s][p] = IF ev.npol = 4 /\ p \in {2, 3} THEN <<0, 0>> ELSE <<10000, 0>>

\* iterations and constraints: one preparation, then one per iteration
RoundOk(calls, from, n, maxit) ==
  /\ calls[from] = <<0, 0, 0>>
  /\ \A q \in 1..n : /\ calls[from + q][2] = q - 1
                     /\ calls[from + q][3] = (IF q >= maxit THEN 1 ELSE 0)
                     /\ q > 1 => calls[from + q][1] >= calls[from + q - 1][1]
  /\ n > 0 => calls[from + 1][1] = 0
Counted(ev) ==
  LET n == Len(ev.calls) - 1
      top == MaxOf(ev.cfg.maxit, ev.cfg.minit) IN
  IF ev.pin = <<>> THEN /\ ev.it <= top + 1 /\ ev.cit = 0 /\ ev.nres = 0
                        /\ ev.it >= ev.cfg.minit
  ELSE /\ n >= 1 /\ n <= MaxOf(top, 1) /\ n >= ev.cfg.minit
       /\ RoundOk(ev.calls, 1, n, ev.cfg.maxit)
       /\ ev.it \in {n, n + 1} /\ ev.nres = 1
       /\ ev.cit = (IF n > ev.pin[2] THEN 0 ELSE n + 1)
       /\ n <= ev.pin[2] => ev.it = n + 1
       /\ (n < top /\ ev.cfg.stall = 0) => ev.it = n
Converged(ev) == ev.it <= ev.cfg.maxit /\ ev.cit = 0
\* several solvers, one after the other, within the total
RECURSIVE Stages(_, _, _)
Stages(calls, from, k) ==    \* positions where the preparations are
  IF from > Len(calls) THEN <<>>
  ELSE IF calls[from] = <<0, 0, 0>> /\ from < Len(calls) /\ calls[from + 1][2] = 0 /\ calls[from + 1][1] = 0
       THEN LET RECURSIVE E(_)
                E(p) == IF p > Len(calls) THEN p ELSE IF calls[p][2] = p - from - 1 THEN E(p + 1) ELSE p
                e == E(from + 1) IN <<e - from - 1>> \o Stages(calls, e, k + 1)
       ELSE <<-1>>
RECURSIVE Within(_, _, _, _)
Within(ns, hmax, avail, out) ==     \* out: the last one did not converge, so it used all it had
  IF ns = <<>> THEN TRUE
  ELSE LET own == MaxOf(1, MinOf(Head(hmax), avail)) IN
       /\ Head(ns) >= 1 /\ Head(ns) <= own
       /\ (Len(ns) = 1 /\ out) => Head(ns) = own
       /\ Within(Tail(ns), Tail(hmax), MaxOf(0, avail - Head(ns)), out)
Hybrid(ev) == LET ns == Stages(ev.calls, 1, 1) IN
              /\ \A q \in DOMAIN ns : ns[q] # -1
              /\ Len(ns) <= Len(ev.cfg.hmax) /\ (ev.cfg.hstop = 0 => Len(ns) = Len(ev.cfg.hmax))
              /\ Within(ns, ev.cfg.hmax, ev.cfg.maxit, ev.it = ev.cfg.maxit + 1)
              /\ ev.it = ev.cfg.maxit + 1 \/ ev.it = SumI(ns) \/ ev.it <= SumI(ns) + Len(ns)
Shape(ev) == /\ Len(ev.sol) = ev.blocks
             /\ \A k \in DOMAIN ev.sol : Len(ev.sol[k]) = ev.nant /\ \A a \in DOMAIN ev.sol[k] : Len(ev.sol[k][a]) = NSub(ev)
\* what was found before; with several threads, sums may be rounded differently
Same(z, ev) ==
  \/ ev.sol = z.last.sol /\ ev.it = z.last.it
  \/ /\ z.threads > 1 /\ ev.it - z.last.it \in -3..3 /\ Len(ev.sol) = Len(z.last.sol)
     /\ \A k \in DOMAIN ev.sol : /\ Len(ev.sol[k]) = Len(z.last.sol[k])
          /\ \A a \in DOMAIN ev.sol[k] : /\ Len(ev.sol[k][a]) = Len(z.last.sol[k][a])
               /\ \A s \in DOMAIN ev.sol[k][a] : \A p \in DOMAIN ev.sol[k][a][s] :
                    LET u == ev.sol[k][a][s][p]  v == z.last.sol[k][a][s][p] IN
                    /\ Len(u) = Len(v)
                    /\ \A q \in DOMAIN u : u[q] - v[q] \in -5..5
JSolve(z, ev) ==
  LET case == CaseOf(z, ev) IN
  <<IF ev.refuse = 1 THEN ev.res = "err"
    ELSE /\ ev.res = "ok" /\ Shape(ev) /\ Pinned(ev)
         /\ (ev.cfg.phase = 1) => Unit(ev)
         /\ IF ev.cfg.hmax = <<>> THEN Counted(ev) ELSE Hybrid(ev)
         /\ \A n \in DOMAIN ev.want :
              CASE ev.want[n] = "exist" -> Existence(ev, case)
                [] ev.want[n] = "converge" -> Converged(ev)
                [] ev.want[n] = "fit" -> Fitted(ev, case, ev.tol)
                [] ev.want[n] = "still" -> Converged(ev) => Stationary(ev, case, ev.tol)
                [] ev.want[n] = "repair" -> Repaired(ev)
                [] ev.want[n] = "half" -> Halfway(ev, z.last)
                [] ev.want[n] = "same" -> Same(z, ev),
    IF ev.res = "ok" THEN [z EXCEPT !.last = [sol |-> ev.sol, it |-> ev.it]] ELSE z>>

Judge(z, ev) ==
  CASE ev.op = "weigh" -> <<JWeigh(ev), z>>
    [] ev.op = "data" -> <<JData(z, ev), z>>
    [] ev.op = "solve" -> JSolve(z, ev)
    [] ev.op = "bnew" -> LET b == NewBda(ev.start, ev.interval, ev.nbl) IN <<ev.res = "ok" /\ Shows(b, ev), [z EXCEPT !.bda = b]>>
    [] ev.op = "bapp" -> JAppend(z, ev)
    [] ev.op = "badv" -> LET b == Advanced(z.bda) IN <<ev.res = "ok" /\ Shows(b, ev), [z EXCEPT !.bda = b]>>
    [] ev.op = "bclr" -> LET b == Cleared(z.bda) IN <<ev.res = "ok" /\ Shows(b, ev), [z EXCEPT !.bda = b]>>
    [] ev.op = "bapply" -> LET b == Applied(z.bda, ev) IN <<ev.res = "ok" /\ Shows(b, ev), [z EXCEPT !.bda = b]>>
    [] ev.op = "bdone" -> <<ev.res = "ok" /\ ev.done = z.bda.done /\ Shows(z.bda, ev), [z EXCEPT !.bda.done = <<>>]>>

TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
