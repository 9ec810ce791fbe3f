------------------------------ MODULE Antennas ------------------------------
(* Flagging antennas and stations whose statistics stand out (P33).  Values  *)
(* are whole or in units of 1/1000 or 1/100000, as noted.  A verdict is "y", *)
(* "n", or "u" where rounding could decide.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
AbsA(x) == IF x < 0 THEN -x ELSE x
MaxA(a, b) == IF a > b THEN a ELSE b
INF == 1000000000
\* special values of data
IsNan(v) == v = 7777
IsInf(v) == v = 7778
RECURSIVE SumA(_)
SumA(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumA(Tail(q))
RECURSIVE RootA(_, _, _)
RootA(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN RootA(n, m, hi) ELSE RootA(n, lo, m)
Isqrt(n) == RootA(n, 0, 46341)
LnTab == <<
  0, 1550, 3077, 4581, 6062, 7522, 8961, 10380, 11778, 13158, 14518, 15861, 17185, 18492, 19783, 21056,
  22314, 23557, 24784, 25996, 27193, 28377, 29546, 30703, 31845, 32975, 34093, 35198, 36291, 37372, 38441,
  39499, 40547, 41583, 42608, 43624, 44629, 45624, 46609, 47585, 48551, 49508, 50456, 51395, 52325, 53246,
  54160, 55065, 55962, 56850, 57732, 58605, 59471, 60329, 61180, 62024, 62861, 63691, 64514, 65330, 66140,
  66943, 67740, 68530, 69315 >>
AtanTab == <<
  0, 1562, 3124, 4684, 6242, 7797, 9348, 10894, 12435, 13971, 15500, 17021, 18535, 20040, 21536, 23022,
  24498, 25963, 27417, 28859, 30288, 31706, 33110, 34500, 35877, 37240, 38588, 39922, 41241, 42545, 43834,
  45107, 46365, 47607, 48833, 50044, 51239, 52418, 53581, 54728, 55860, 56976, 58076, 59160, 60229, 61282,
  62320, 63343, 64350, 65343, 66320, 67283, 68232, 69166, 70085, 70991, 71883, 72761, 73626, 74477, 75315,
  76140, 76953, 77752, 78540 >>
\* logarithm of a whole number, in 1/100000
RECURSIVE Up(_, _)
Up(u, e) == IF u >= 65536 THEN <<u, e>> ELSE Up(2 * u, e - 1)
RECURSIVE Down(_, _)
Down(u, e) == IF u < 131072 THEN <<u, e>> ELSE Down(u \div 2, e + 1)
Ln(n) == LET w == IF n < 65536 THEN Up(n, 16) ELSE Down(n, 16)
             k == (w[1] - 65536) \div 1024
             r == (w[1] - 65536) % 1024
         IN w[2] * 69315 + LnTab[k + 1] + (r * (LnTab[k + 2] - LnTab[k + 1])) \div 1024
\* angle of (a, b), a and b not negative and below 30000
Atan1(b, a) == LET t == (b * 65536) \div a
                   k == t \div 1024
                   r == t % 1024
               IN IF k >= 64 THEN 78540 ELSE AtanTab[k + 1] + (r * (AtanTab[k + 2] - AtanTab[k + 1])) \div 1024
AngleA(a, b) == IF b = 0 THEN 0 ELSE IF b <= a THEN Atan1(b, a) ELSE 157080 - Atan1(a, b)

\* ------------------------------------------------------------- outliers
RankedA(q, k) == CHOOSE v \in {q[j] : j \in DOMAIN q} :
  /\ Cardinality({j \in DOMAIN q : q[j] < v}) < k
  /\ Cardinality({j \in DOMAIN q : q[j] <= v}) >= k
Med2(q) == LET n == Len(q) IN IF n % 2 = 1 THEN 2 * RankedA(q, (n + 1) \div 2) ELSE RankedA(q, n \div 2) + RankedA(q, n \div 2 + 1)
Div(x, d) == IF x < 0 THEN -((-x + d \div 2) \div d) ELSE (x + d \div 2) \div d
RECURSIVE MaxIn(_)
MaxIn(q) == IF q = <<>> THEN 0 ELSE MaxA(AbsA(Head(q)), MaxIn(Tail(q)))
\* d: deviations from the median; f: verdicts so far; d is 0 where flagged
RECURSIVE Rounds(_, _, _, _, _)
Rounds(d, f, s10, iters, err) ==
  IF iters = 0 THEN f
  ELSE LET n == Len(d)
           m == MaxIn(d)
           unit == 1 + (n * (m \div 1000)) \div 40 + (n * (m % 1000)) \div 40000
           e == TLCEval([j \in DOMAIN d |-> Div(d[j], unit)])
           tol == 2 + err \div unit
           total == SumA(e)
           dev == Isqrt(MaxA(0, n * SumA([j \in DOMAIN e |-> e[j] * e[j]]) - total * total))
           margin == 10 * n * tol + s10 * (n * tol + 1)
           v == TLCEval([j \in DOMAIN d |-> IF f[j] = "y" THEN "y"
                   ELSE LET x == 10 * n * AbsA(e[j]) - s10 * dev IN IF x > margin THEN "y" ELSE IF x < -margin THEN "n" ELSE "u"])
       IN IF err = 0 /\ m = 0 THEN f
          ELSE IF \E j \in DOMAIN v : v[j] = "u" THEN [j \in DOMAIN v |-> IF f[j] = "y" THEN "y" ELSE "u"]
          ELSE IF v = f THEN f
          ELSE Rounds(TLCEval([j \in DOMAIN d |-> IF v[j] = "y" THEN 0 ELSE d[j]]), v, s10, iters - 1, err)
Outliers(q0, s10, iters, err) ==
  LET q == TLCEval(q0)
      fin == SelectSeq(q, LAMBDA v : v # INF)
  IN IF fin = <<>> THEN [j \in DOMAIN q |-> "y"]
     ELSE LET m == Med2(fin) IN
          Rounds(TLCEval([j \in DOMAIN q |-> IF q[j] = INF THEN 0 ELSE 2 * q[j] - m]), TLCEval([j \in DOMAIN q |-> IF q[j] = INF THEN "y" ELSE "n"]),
                 s10, iters, IF Len(q) = 1 THEN 0 ELSE err)
Or(x, y) == IF x = "y" \/ y = "y" THEN "y" ELSE IF x = "n" /\ y = "n" THEN "n" ELSE "u"
And(x, y) == IF x = "n" \/ y = "n" THEN "n" ELSE IF x = "y" /\ y = "y" THEN "y" ELSE "u"
OrAll(q) == [j \in DOMAIN q[1] |-> IF \E k \in DOMAIN q : q[k][j] = "y" THEN "y" ELSE IF \A k \in DOMAIN q : q[k][j] = "n" THEN "n" ELSE "u"]
AndAll(q) == [j \in DOMAIN q[1] |-> IF \E k \in DOMAIN q : q[k][j] = "n" THEN "n" ELSE IF \A k \in DOMAIN q : q[k][j] = "y" THEN "y" ELSE "u"]

\* ----------------------------------------------------------- statistics
\* d: [baseline][channel][correlation] -> <<re, im>>; parts of one baseline
Part(d, b, p, x) == TLCEval([c \in DOMAIN d[b] |-> d[b][c][p][x]])
Odd(q) == \E c \in DOMAIN q : IsNan(q[c]) \/ IsInf(q[c])
\* standard deviation, in 1/1000
Deviation(q) == LET n == Len(q)
                    s == SumA(q)
                    v == n * SumA([c \in DOMAIN q |-> q[c] * q[c]]) - s * s
                    r == IF v < 2000 THEN 2 * Isqrt(v * 1000000) ELSE IF v < 200000 THEN 20 * Isqrt(v * 10000) ELSE 200 * Isqrt(v * 100)
                IN (r + n) \div (2 * n)
Square(q) == SumA([c \in DOMAIN q |-> q[c] * q[c]])
\* <<known, re, im>> of one baseline: of the deviation or the sum of squares
Stat(kind, d, b, p) ==
  LET re == Part(d, b, p, 1)
      im == Part(d, b, p, 2)
      nan == \E q \in {re, im} : \E c \in DOMAIN q : IsNan(q[c])
      inf == Odd(re) \/ Odd(im)
  IN IF kind = "dev" THEN IF inf THEN <<FALSE, 0, 0>> ELSE <<TRUE, Deviation(re), Deviation(im)>>
     ELSE IF nan THEN <<FALSE, 0, 0>> ELSE IF inf THEN <<TRUE, INF, INF>> ELSE <<TRUE, Square(re), Square(im)>>
Index(order, a, b, n) ==
  LET lo == IF a < b THEN a ELSE b
      hi == IF a < b THEN b ELSE a
  IN 1 + (IF order = "col" THEN (hi * (hi + 1)) \div 2 + lo ELSE lo * n - (lo * (lo - 1)) \div 2 + hi - lo)
\* sum over the baselines of an antenna, of one part (2 or 3)
Total(stats, order, a, n, x) ==
  LET q == TLCEval([k \in 1..n |-> LET s == stats[Index(order, a, k - 1, n)] IN IF s[1] THEN s[x] ELSE 0])
  IN IF \E k \in DOMAIN q : q[k] = INF THEN INF ELSE SumA(q)
\* verdicts about the antennas of a data set
Logs(re, im, one) ==
  IF re = INF \/ im = INF THEN <<INF, IF re = im THEN 78540 ELSE IF re = INF THEN 0 ELSE 157080, 0>>
  ELSE LET a == one + re
           unit == 1 + MaxA(a, im) \div 30000
           aa == Div(a, unit)
           bb == Div(im, unit)
       IN <<Ln(unit) + (Ln(MaxA(1, aa * aa + bb * bb)) + 1) \div 2, AngleA(aa, bb), 1>>
BadAntennas(d, order, nst, nap, np, s10, iters) ==
  LET n == nst * nap
      Kind(kind) ==
        [p \in 1..np |->
          LET stats == TLCEval([b \in DOMAIN d |-> Stat(kind, d, b, p)])
              one == IF kind = "dev" THEN 1000 * nap ELSE nap
              tot == TLCEval([a \in 1..n |-> <<Total(stats, order, a - 1, n, 2), Total(stats, order, a - 1, n, 3)>>])
              lg == TLCEval([a \in 1..n |-> Logs(tot[a][1], tot[a][2], one)])
              err(a) == IF tot[a][1] = INF THEN 20 ELSE 20 + (IF kind = "dev" THEN 2 * ((n * 100000) \div (one + MaxA(tot[a][1], tot[a][2]))) ELSE 0)
              St(s, x) == Outliers([k \in 1..nap |-> lg[(s - 1) * nap + k][x]], s10, iters,
                            IF x = 2 /\ \A k \in 1..nap : tot[(s - 1) * nap + k][2] = 0 THEN 0
                            ELSE MaxIn([k \in 1..nap |-> err((s - 1) * nap + k)]))
          IN [s \in 1..nst |-> OrAll(TLCEval(<<St(s, 1), St(s, 2)>>))]]
      dev == TLCEval(Kind("dev"))
      sq == TLCEval(Kind("sq"))
      AnyOf(k, s) == OrAll([p \in 1..np |-> k[p][s]])
  IN [a \in 1..n |-> LET s == 1 + ((a - 1) \div nap)
                         k == 1 + ((a - 1) % nap)
                     IN And(AnyOf(dev, s)[k], AnyOf(sq, s)[k])]
\* verdicts about stations, from XX and, if there are four, YY
MedianI(q) == IF \E k \in DOMAIN q : q[k] = INF THEN
                 LET n == Len(q)
                     lo == RankedA(q, (n + 1) \div 2)
                     hi == RankedA(q, n \div 2 + 1)
                 IN IF hi = INF \/ lo = INF THEN INF ELSE lo + hi
              ELSE Med2(q)
BadStations(d, order, nst, nap, np, s10, iters) ==
  LET n == nst * nap
      cors == IF np = 4 THEN <<1, 4>> ELSE <<1>>
      Kind(kind) ==
        [i \in DOMAIN cors |->
          LET stats == TLCEval([b \in DOMAIN d |-> Stat(kind, d, b, cors[i])])
              tot(x) == TLCEval([a \in 1..n |-> Total(stats, order, a - 1, n, x)])
              V(x) == LET t == TLCEval(tot(x))
                          all == MedianI(t)
                      IN IF all = 0 \/ all = INF THEN [s \in 1..nst |-> "u"]
                         ELSE Outliers([s \in 1..nst |-> MedianI([k \in 1..nap |-> t[(s - 1) * nap + k]])], s10, iters, IF kind = "dev" THEN 4 * n + 2 ELSE 2)
          IN OrAll(TLCEval(<<V(2), V(3)>>))]
      dev == TLCEval(Kind("dev"))
      sq == TLCEval(Kind("sq"))
      st == TLCEval(AndAll([i \in DOMAIN cors |-> [s \in 1..nst |-> And(dev[i][s], sq[i][s])]]))
  IN [a \in 1..n |-> st[1 + (a - 1) \div nap]]
Agrees(v0, f) == LET v == TLCEval(v0) IN \A a \in DOMAIN v : v[a] = "u" \/ f[a] = (IF v[a] = "y" THEN 1 ELSE 0)

\* ----------------------------------------------------------------- a step
Ordered(inf, order, n) ==
  /\ Len(inf.ant1) = (n * (n + 1)) \div 2
  /\ \A k \in DOMAIN inf.ant1 : inf.ant1[k] <= inf.ant2[k] /\ Index(order, inf.ant1[k], inf.ant2[k], n) = k
=============================================================================
