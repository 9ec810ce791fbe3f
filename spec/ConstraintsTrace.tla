--------------------------- MODULE ConstraintsTrace ---------------------------
EXTENDS Constraints, TraceBase
StartSt(ev) == [cfg |-> <<>>, w |-> <<>>, sub |-> <<>>, rw |-> <<>>]
Seq0(n, v) == [k \in 1..n |-> v]
NS(cf) == Sum(cf.sols)
NC(cf) == Len(cf.freqs)
Size(cf) == cf.nant * NS(cf) * NC(cf)
Index(cf, a, s, c) == ((a - 1) * NS(cf) + (s - 1)) * NC(cf) + c      \* from 1
\* invalid configurations are refused
Allowed(ev) ==
  CASE ev.type = "antint" ->
         /\ Len(ev.factors) = ev.nant /\ \A k \in 1..Len(ev.factors) : ev.factors[k] > 0
         /\ \A k \in 1..Len(ev.factors) : \E d \in 1..Len(ev.sols) : ev.factors[k] <= ev.sols[d]
    [] ev.type = "smooth" -> ev.dd = <<>> \/ Len(ev.dd) = Sum(ev.sols)
    [] OTHER -> TRUE
All(cf, P(_, _, _)) == \A c \in 1..NC(cf), a \in 1..cf.nant, s \in 1..NS(cf) : P(c, a, s)
InSet(cf, k) == {x + 1 : x \in {cf.sets[k][q] : q \in 1..Len(cf.sets[k])}}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o ToSeq(S \ {m})
\* the (sub)solutions averaged together with s for averaging factor f
RECURSIVE DirOf(_, _, _)
DirOf(sols, s, d) == IF s <= sols[d] THEN <<d, s>> ELSE DirOf(sols, s - sols[d], d + 1)
Mates(cf, a, s) ==
  LET ds == DirOf(cf.sols, s, 1)
      f == cf.factors[a]
      first == ((ds[2] - 1) \div f) * f + 1
      last == IF first + f - 1 > cf.sols[ds[1]] THEN cf.sols[ds[1]] ELSE first + f - 1
  IN [k \in 1..(last - first + 1) |-> s - ds[2] + first + k - 1]
OkAntSet(cf, in, o) ==
  LET P(c, a, s) == \A p \in 1..cf.npol :
        LET K == {k \in 1..Len(cf.sets) : a \in InSet(cf, k)} IN
        IF K = {} THEN Same(o[c][a][s][p], in[c][a][s][p], 1000)
        ELSE LET m == ToSeq(InSet(cf, CHOOSE k \in K : TRUE))
             IN IsMean(o[c][a][s][p], [q \in 1..Len(m) |-> in[c][m[q]][s][p]], 1000)
  IN All(cf, P)
OkAntInt(cf, in, o) ==
  LET P(c, a, s) == \A p \in 1..cf.npol :
        LET m == Mates(cf, a, s) IN IsMean(o[c][a][s][p], [q \in 1..Len(m) |-> in[c][a][m[q]][p]], 1000)
  IN All(cf, P)
OkAmp(cf, in, o) ==
  LET P(c, a, s) == \A p \in 1..cf.npol :
        LET v == in[c][a][s][p] w == o[c][a][s][p] IN
        IF Finite(v) THEN Finite(w) /\ w[2] = 0 /\ IsRoot(w[1], 1000000 * (v[1] * v[1] + v[2] * v[2])) ELSE w = <<>>
  IN All(cf, P)
OkLeak(cf, in, o) ==
  LET P(c, a, s) == /\ o[c][a][s][1] = <<1000, 0>> /\ o[c][a][s][4] = <<1000, 0>>
                    /\ Same(o[c][a][s][2], in[c][a][s][2], 1000) /\ Same(o[c][a][s][3], in[c][a][s][3], 1000)
  IN All(cf, P)
\* one result has these axes and dimensions; wanted: its weights
Result(cf, r, name, npol, wanted) ==
  /\ r.name = name
  /\ r.axes = (IF npol = 2 THEN "ant,dir,freq,pol" ELSE "ant,dir,freq")
  /\ r.dims = <<cf.nant, NS(cf), NC(cf)>> \o (IF npol = 2 THEN <<2>> ELSE <<>>)
  /\ Len(r.vals) = Size(cf) * npol
  /\ (wanted # <<>> => r.weights = wanted)
Spread(cf, w, npol) ==
  [k \in 1..(Size(cf) * npol) |->
     LET j == (k - 1) \div npol c == j % NC(cf) a == j \div (NC(cf) * NS(cf)) IN w[a * NC(cf) + c + 1]]
OkRot(z, cf, in, o, res) ==
  LET bad(c, a, s) == \E p \in 1..4 : in[c][a][s][p] = <<>>
      P(c, a, s) ==
        IF bad(c, a, s) THEN \A p \in 1..4 : o[c][a][s][p] = <<>>
        ELSE /\ RotationOf(o[c][a][s], in[c][a][s])
             /\ Near(res[1].vals[Index(cf, a, s, c)], o[c][a][s][1][1], o[c][a][s][3][1], 1)
  IN /\ Len(res) = 1 /\ Result(cf, res[1], "rotation", 1, IF z.w = <<>> THEN <<>> ELSE Spread(cf, z.w, 1))
     /\ All(cf, P)
OkSmooth(z, cf, in, o) ==
  LET n == NC(cf)
      P(c, a, s) ==
        LET f == cf.freqs
            fc == IF cf.reff = 0 THEN 1 ELSE f[c]
            rf == IF cf.reff = 0 THEN 1 ELSE cf.reff
            af == cf.af[a]
            dd == IF cf.dd = <<>> THEN <<1, 1>> ELSE cf.dd[s]
            up == CASE cf.exponent = 0 -> <<1, 1>> [] cf.exponent = 1 -> <<fc, rf>> [] OTHER -> <<rf, fc>>
            K == [j \in 1..n |-> Kernel("gauss", Abs(f[c] - f[j]) * up[1] * af[2] * dd[2], cf.bw * up[2] * af[1] * dd[1], cf.trunc)]
            must == IF cf.trunc = 0 THEN 1..n ELSE {j \in 1..n : 2 * Abs(f[c] - f[j]) * rf < cf.bw * fc}
            wt == [j \in 1..n |-> IF z.sub = <<>> THEN z.w[(a - 1) * n + j] ELSE z.sub[s][(a - 1) * n + j]]
        IN \A p \in 1..cf.npol :
             \E q \in Windows(n, c, must) : Smoothed(o[c][a][s][p], [j \in 1..n |-> in[j][a][s][p]], wt, K, q[1], q[2], 4)
  IN All(cf, P)
\* ---- rotation and diagonal
Sgn(k) == IF Cos(k) > 0 THEN {1} ELSE IF Cos(k) < 0 THEN {-1} ELSE {1, -1}
OkRotDiag(z, cf, ev, nrw) ==
  LET in == ev.dr o == ev.out res == ev.results mode == cf.mode np == NPol(mode)
      valid(c, a, s) == in[c][a][s].a # <<>>
      first(c, s) == CHOOSE a \in 1..cf.nant : valid(c, a, s) /\ \A b \in 1..(a - 1) : ~valid(c, b, s)
      N(c, s) == {a \in 1..cf.nant : valid(c, a, s)}
      size(c, s, x) == SetSum(N(c, s), [a \in N(c, s) |-> Mod(in[c][a][s][x])])
      \* amplitude x of antenna a is within a factor 5 of the mean
      within(c, a, s, x) == LET m == Mod(in[c][a][s][x]) * Cardinality(N(c, s)) IN m <= 5 * size(c, s, x) /\ 5 * m >= size(c, s, x)
      rest(c, a, s) ==
        LET v == in[c][a][s]
            r == res[1].vals[Index(cf, a, s, c)]          \* cos, sin of the reported angle, 1e-3
            k == IF cf.ref = 1 THEN v.phi - in[c][first(c, s)][s].phi ELSE v.phi
            m == o[c][a][s]
            d0 == <<(m[1][1] * r[1] - m[2][1] * r[2]) \div 1000, (m[1][2] * r[1] - m[2][2] * r[2]) \div 1000>>
            d1 == <<(m[4][1] * r[1] + m[3][1] * r[2]) \div 1000, (m[4][2] * r[1] + m[3][2] * r[2]) \div 1000>>
            part(x, d, t) == \A q \in 1..2 : Abs(x[q] - (d[q] * t) \div 1000) <= 60
        IN /\ Finite(r) /\ \A p \in 1..4 : Finite(m[p])
           /\ Abs(Abs((Cos(k) * r[1] + Sin(k) * r[2]) \div 1000) - 10000) <= 60
           /\ r[1] >= -1
           /\ (cf.ref = 1 /\ a = first(c, s) => r = <<1000, 0>>)
           /\ part(m[1], d0, r[1]) /\ part(m[2], d0, -r[2]) /\ part(m[3], d1, r[2]) /\ part(m[4], d1, r[1])
           /\ \E g \in Sgn(v.phi) :
                /\ Diag(mode, d0, Scale(g, v.a), Scale(g, v.b))
                /\ Diag(mode, d1, IF np = 2 THEN Scale(g, v.b) ELSE Scale(g, v.a), IF np = 2 THEN Scale(g, v.a) ELSE Scale(g, v.b))
           /\ \A q \in 1..Len(Names(mode)), p \in 1..np :
                LET y == res[q + 1].vals[(Index(cf, a, s, c) - 1) * np + p]
                    d == IF p = 1 THEN d0 ELSE d1 IN
                IF Names(mode)[q] = "amplitude"
                THEN y[2] = 0 /\ Abs((y[1] \div 10) * (y[1] \div 10) - ((d[1] \div 10) * (d[1] \div 10) + (d[2] \div 10) * (d[2] \div 10)))
                                  <= (12 * y[1]) \div 10 + 200
                ELSE /\ Abs((y[1] * (d[2] \div 10) - y[2] * (d[1] \div 10)) \div 100) <= (Abs(d[1]) + Abs(d[2])) \div 50 + 20
                     /\ y[1] * (d[1] \div 10) + y[2] * (d[2] \div 10) > 0
      P(c, a, s) == (valid(c, a, s) /\ within(c, a, s, "a") /\ within(c, a, s, "b")) => rest(c, a, s)
      \* the weights of channel c of (sub)solution s
      W(c, s) == \A a \in 1..cf.nant :
        LET idx == Index(cf, a, s, c)
            keep(q) == IF q = 1 THEN res[q].weights[idx] = z.rw[q][idx]
                       ELSE \A p \in 1..np : res[q].weights[(idx - 1) * np + p] = z.rw[q][(idx - 1) * np + p]
            gone(q) == IF q = 1 THEN res[q].weights[idx] = -1
                       ELSE \A p \in 1..np : res[q].weights[(idx - 1) * np + p] = -1
            diverged == \E b \in N(c, s), x \in {"a", "b"} : ~within(c, b, s, x)
        IN \A q \in 1..Len(res) : IF diverged \/ ~valid(c, a, s) THEN gone(q) ELSE keep(q)
  IN /\ Len(res) = 1 + Len(Names(mode))
     /\ Result(cf, res[1], "rotation", 1, <<>>)
     /\ \A q \in 1..Len(Names(mode)) : Result(cf, res[q + 1], Names(mode)[q], np, <<>>)
     /\ \A c \in 1..NC(cf), s \in 1..NS(cf) : W(c, s)
     /\ All(cf, P)
OkKernel(ev) ==
  LET n == Len(ev.freqs)
      K(c) == [j \in 1..n |-> Kernel(ev.kernel, Abs(ev.freqs[c] - ev.freqs[j]) * ev.num, ev.bw * ev.den, ev.trunc)]
      must(c) == IF ev.trunc = 0 THEN 1..n ELSE {j \in 1..n : 2 * Abs(ev.freqs[c] - ev.freqs[j]) < ev.bw}
  IN \A y \in 1..Len(ev.d), c \in 1..n :
       \E q \in Windows(n, c, must(c)) : Smoothed(ev.out[y][c], ev.d[y], ev.w, K(c), q[1], q[2], 2)
Judge(z, ev) ==
  CASE ev.op = "kernel" -> <<ev.res = "ok" /\ OkKernel(ev), z>>
    [] ev.op = "make" ->
         IF ~Allowed(ev) THEN <<ev.res = "err", [z EXCEPT !.cfg = <<>>]>>
         ELSE <<ev.res = "ok", [cfg |-> <<ev>>, w |-> <<>>, sub |-> <<>>, rw |-> <<>>]>>
    [] ev.op = "weights" ->
         LET cf == z.cfg[1] IN
         <<ev.res = "ok",
           IF ev.sub # <<>> THEN [z EXCEPT !.sub = ev.sub]
           ELSE [z EXCEPT !.w = ev.w,
                          !.rw = IF cf.type = "rotdiag"
                                 THEN <<Spread(cf, ev.w, 1)>> \o [k \in 1..Len(Names(cf.mode)) |-> Spread(cf, ev.w, NPol(cf.mode))]
                                 ELSE <<>>]>>
    [] ev.op = "apply" ->
         LET cf == z.cfg[1]
             good == CASE cf.type = "antset" -> OkAntSet(cf, ev.sol, ev.out)
                       [] cf.type = "antint" -> OkAntInt(cf, ev.sol, ev.out)
                       [] cf.type = "amp" -> OkAmp(cf, ev.sol, ev.out)
                       [] cf.type = "leak" -> OkLeak(cf, ev.sol, ev.out)
                       [] cf.type = "rot" -> OkRot(z, cf, ev.sol, ev.out, ev.results)
                       [] cf.type = "smooth" -> OkSmooth(z, cf, ev.sol, ev.out)
                       [] cf.type = "rotdiag" -> OkRotDiag(z, cf, ev, 0)
             next == IF cf.type = "rotdiag" THEN [z EXCEPT !.rw = [q \in 1..Len(ev.results) |-> ev.results[q].weights]] ELSE z
         IN <<ev.res = "ok" /\ good, next>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
