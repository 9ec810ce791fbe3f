---------------------------- MODULE PhaseFitTrace ----------------------------
EXTENDS PhaseFit, TraceBase
StartSt(ev) == [cfg |-> <<>>, w |-> <<>>, freqs |-> <<>>, fw |-> <<>>]
NS(cf) == Sum(cf.sols)
N(cf) == Len(cf.freqs)
\* the antenna the others are referred to: the first with more than a fifth of
\* its channels in the first direction; the first if there is none
Enough(cf, in, a) == 5 * Cardinality({c \in 1..N(cf) : in[a][1][c] # Nan}) > N(cf)
RefAnt(cf, in) ==
  LET G == {a \in 1..cf.nant : Enough(cf, in, a)} IN IF G = {} THEN 1 ELSE SetMin(G)
Referred(cf, in) ==
  IF cf.ref = 0 THEN in
  ELSE LET r == RefAnt(cf, in) IN
       [a \in 1..cf.nant |-> [s \in 1..NS(cf) |-> [c \in 1..N(cf) |->
          IF a = r THEN 0 ELSE IF in[a][s][c] = Nan \/ in[r][s][c] = Nan THEN Nan ELSE Wrap(in[a][s][c] - in[r][s][c])]]]
\* the model that the input of antenna a, (sub)solution s was made from
Truth(cf, ev, a, s) ==
  LET m == ev.model[a][s] IN
  IF cf.ref = 0 THEN m ELSE LET r == ev.model[RefAnt(cf, ev.in)][s] IN <<m[1] - r[1], m[2] - r[2], m[3] - r[3]>>
Weight(z, cf, a, c) == IF z.w = <<>> THEN 1 ELSE z.w[(a - 1) * N(cf) + c]
Names(cf) ==
  IF cf.type = "delay" THEN IF cf.phase = 1 THEN <<"tec", "phase", "delay">> ELSE <<"tec", "delay">>
  ELSE IF cf.phase = 1 THEN <<"tec", "phase", "error">> ELSE <<"tec", "error">>
\* a search over a grid of a and c, half a turn over the band apart, finds the
\* model m for sure if at some point of the grid what is left of m does not wrap
\* (a free offset makes a wrap of all channels together harmless)
GridFine(phase, f, K, w, m) ==
  LET lo == f[1] hi == f[Len(f)]
      stepA == (1800 * lo * hi) \div (hi - lo)
      stepC == 1800000 \div (hi - lo)
      left(da, dc, k) == (m[1] - da * stepA) \div f[k] + m[2] + ((m[3] - dc * stepC) * f[k]) \div 1000
      first == SetMin(K)
  IN \E da \in -(2 * w)..(2 * w), dc \in -(2 * w)..(2 * w) :
       LET r == left(da, dc, first)
           shift == IF phase = 1 THEN Wrap(r) - r ELSE 0
       IN \A k \in K : left(da, dc, k) + shift \in -1700..1700
OkFull(z, cf, ev) ==
  LET in == Referred(cf, ev.in)
      names == Names(cf)
      val(a, s, q) == ev.results[q].vals[(a - 1) * NS(cf) + s]
      K(a, s) == {c \in 1..N(cf) : in[a][s][c] # Nan /\ Weight(z, cf, a, c) > 0}
      found(a, s) == <<val(a, s, 1), IF cf.phase = 1 THEN val(a, s, 2) ELSE 0, IF cf.type = "delay" THEN val(a, s, Len(names)) ELSE 0>>
      one(a, s) ==
        LET o == ev.out[a][s] t == Truth(cf, ev, a, s) IN
        /\ \A q \in 1..Len(names) :
             ev.results[q].weights[(a - 1) * NS(cf) + s] =
               Sum([c \in 1..N(cf) |-> IF in[a][s][c] # Nan THEN Weight(z, cf, a, c) ELSE 0])
        \* the solutions are what the reported parameters stand for
        /\ Follows(o, found(a, s), cf.freqs, 1..N(cf), 4)
        \* and these are the ones the data were made with
        /\ (ev.exact[a][s] = 1 /\ Determined(cf.freqs, K(a, s), IF cf.type = "delay" THEN 6 ELSE cf.need, cf.span)
             /\ (cf.type # "delay" \/ GridFine(cf.phase, cf.freqs, K(a, s), cf.wraps, t)) =>
              /\ Follows(o, t, cf.freqs, 1..N(cf), 8)
              /\ (cf.type # "delay" => val(a, s, Len(names)) <= 400))
  IN /\ Len(ev.results) = Len(names)
     /\ \A q \in 1..Len(names) : /\ ev.results[q].name = names[q] /\ ev.results[q].axes = "ant,dir,freq"
                                 /\ ev.results[q].dims = <<cf.nant, NS(cf), 1>>
                                 /\ Len(ev.results[q].vals) = cf.nant * NS(cf)
     /\ ev.unit
     /\ \A a \in 1..cf.nant, s \in 1..NS(cf) : one(a, s)
\* the approximating stage follows the data piece by piece
OkPieces(z, cf, ev) ==
  LET in == Referred(cf, ev.in) IN
  /\ ev.results = <<>> /\ ev.unit
  /\ \A a \in 1..cf.nant, s \in 1..NS(cf) :
       /\ \A c \in 1..N(cf) : ev.out[a][s][c] # Nan
       /\ (ev.exact[a][s] = 1 /\ cf.smooth = 1 /\ (\A c \in 1..N(cf) : in[a][s][c] # Nan /\ Weight(z, cf, a, c) > 0)
             => \A c \in 1..N(cf) : Dist(ev.out[a][s][c], in[a][s][c]) <= 8)
Finished(cf, ev) == ev.precise = 1 \/ ev.final = 1 \/ ev.iter >= cf.iters
ApplyOk(z, cf, ev) ==
  IF cf.type = "approx"
  THEN /\ ev.satisfied = Finished(cf, ev)
       /\ IF Finished(cf, ev) THEN OkFull(z, cf, ev) ELSE OkPieces(z, cf, ev)
  ELSE ev.satisfied /\ OkFull(z, cf, ev)
Pos(w) == {k \in 1..Len(w) : w[k] > 0}
Fit(z, ev) ==
  LET f == z.freqs w == IF ev.w = <<>> THEN z.fw ELSE ev.w m == ev.model IN
  /\ Determined(f, Pos(w), 8, 50) => (Follows(ev.out, m, f, 1..Len(f), 3) /\ ev.cost <= 100)
  /\ Follows(ev.out, <<ev.alpha, ev.beta, 0>>, f, 1..Len(f), 3)
  /\ Abs(ev.tec - ev.alpha) <= 1
Cost(ev, f, b) ==
  LET w == ev.w T == Sum(w) IN
  10 * Sum([k \in 1..Len(w) |-> w[k] * Dist(Model(ev.a, b, 0, f[k]), ev.set[k])])
CostIs(c, ev, f, b) == IF Sum(ev.w) = 0 THEN c = 0 ELSE Abs(c * Sum(ev.w) - Cost(ev, f, b)) <= 21 * Sum(ev.w)
\* every window holds two values with weight; cutting the band at a break makes
\* windows of any length
LinesDetermined(ev) ==
  LET n == Len(ev.in) m == IF ev.chunk < n THEN ev.chunk ELSE n IN
  \/ ev.kind \in {"piece", "slide"} \/ m < 2
  \/ IF ev.kind = "break" THEN Pos(ev.w) = 1..n
     ELSE \A k \in 1..(n - m + 1) : Cardinality(Pos(ev.w) \cap k..(k + m - 1)) >= 2
\* data that do not follow one line: in every window the best line
Bent(ev) ==
  LET n == Len(ev.in)
      c == IF ev.chunk < n THEN ev.chunk ELSE n
      w == IF ev.kind \in {"piece", "slide"} THEN [k \in 1..n |-> 1] ELSE ev.w
      y == [k \in 1..n |-> Wrap(ev.in[k] - ev.mid)]
      best(k) == LET a == IF ev.kind \in {"piece", "wpiece"} THEN PieceWindow(k, n, c) ELSE SlideWindow(k, n, c)
                     K == a[1]..a[2]
                     x == SubSeq(ev.freqs, a[1], a[2])
                     v == SubSeq(w, a[1], a[2])
                 IN IF Cardinality(Pos(v)) < 2 \/ (\A j \in ((c \div 4) + 1)..((c * 3) \div 4) : v[j] = 0) THEN Nan ELSE LineAt(x, SubSeq(y, a[1], a[2]), v, ev.freqs[k])
  IN \A k \in 1..n : IF c < 2 THEN ev.out[k] = ev.in[k]
                      ELSE best(k) = Nan \/ Dist(ev.out[k], best(k) + ev.mid) <= 2
Line(ev) ==
  LET n == Len(ev.in) IN
  IF "mid" \in DOMAIN ev THEN Len(ev.out) = n /\ Bent(ev) ELSE
  /\ Len(ev.out) = n
  /\ \A k \in 1..n : ev.out[k] # Nan
  /\ LinesDetermined(ev) => \A k \in 1..n : Dist(ev.out[k], ev.in[k]) <= 2
Grid(ev) ==
  IF "noise" \in DOMAIN ev THEN /\ \A k \in 1..Len(ev.out) : Dist(ev.meant[k], ev.out[k]) <= 1
                                /\ (ev.mises = 0 \/ ev.how = "line") => Stationary(ev.res, ev.w, ev.freqs, ev.phase, 2)
                                /\ (ev.mises = 1 /\ ev.how # "line") => Stationary(ev.sine, ev.w, ev.freqs, ev.phase, 20)
  ELSE
  /\ ev.range
  /\ \A k \in 1..Len(ev.out) : Dist(ev.meant[k], ev.out[k]) <= 1
  /\ (ev.phase = 0 => ev.b = 0)
  /\ Determined(ev.freqs, Pos(ev.w), 6, 40) /\ ("strict" \in DOMAIN ev \/ GridFine(ev.phase, ev.freqs, Pos(ev.w), ev.wraps, ev.model)) => \A k \in 1..Len(ev.in) : (ev.w[k] > 0) => Dist(ev.out[k], ev.in[k]) <= 8
Judge(z, ev) ==
  CASE ev.op = "make" -> <<TRUE, [z EXCEPT !.cfg = <<ev>>, !.w = <<>>]>>
    [] ev.op = "weights" -> <<TRUE, [z EXCEPT !.w = ev.w]>>
    [] ev.op = "apply" -> <<ApplyOk(z, z.cfg[1], ev), z>>
    [] ev.op = "init" -> <<TRUE, [z EXCEPT !.freqs = ev.freqs, !.fw = [k \in 1..Len(ev.freqs) |-> 2]]>>
    [] ev.op \in {"fit1", "fit2"} -> <<Fit(z, ev), IF ev.w = <<>> THEN z ELSE [z EXCEPT !.fw = ev.w]>>
    [] ev.op = "cost" -> <<CostIs(ev.cost1, ev, z.freqs, 0) /\ CostIs(ev.cost2, ev, z.freqs, ev.b), [z EXCEPT !.fw = ev.w]>>
    [] ev.op = "line" -> <<Line(ev), z>>
    [] ev.op = "grid" -> <<Grid(ev), z>>
    [] ev.op = "median" -> <<IsMedian(ev.v, ev.out), z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
