----------------------------- MODULE Constraints -----------------------------
(* What calibration constraints do to solutions.  A solution value is        *)
(* <<re, im>>, or <<>> where the solver found no finite value; sol[c][a][s]  *)
(* holds the polarisations of channel c, antenna a, (sub)solution s.         *)
EXTENDS Integers, Sequences, FiniteSets
Abs(n) == IF n < 0 THEN -n ELSE n
Max2(x, y) == IF x > y THEN x ELSE y
RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)
Sum(q) == SumTo(q, Len(q))
RECURSIVE SetSum(_, _)
SetSum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SetSum(S \ {x}, f)
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], -a[2]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Scale(k, a) == <<k * a[1], k * a[2]>>
Finite(v) == v # <<>>
Near(v, re, im, tol) == Finite(v) /\ Abs(v[1] - re) <= tol /\ Abs(v[2] - im) <= tol
\* v (times scale) is the mean of the finite members of vals
IsMean(v, vals, scale) ==
  LET F == {k \in 1..Len(vals) : Finite(vals[k])}
      n == Cardinality(F)
  IN IF n = 0 THEN v = <<>>
     ELSE Near(<<IF Finite(v) THEN v[1] * n ELSE 0, IF Finite(v) THEN v[2] * n ELSE 0>>,
               scale * SetSum(F, [k \in F |-> vals[k][1]]), scale * SetSum(F, [k \in F |-> vals[k][2]]), n)
          /\ Finite(v)
Same(v, w, scale) == IF Finite(w) THEN Near(v, scale * w[1], scale * w[2], 1) ELSE v = <<>>
\* n = m * m to within the rounding of m
IsRoot(m, n) == m >= 0 /\ Abs(m * m - n) <= 2 * m + 2
Mod(v) == CHOOSE m \in 0..200 : m * m = v[1] * v[1] + v[2] * v[2]

(* ---- smoothing: a weighted mean over nearby channels --------------------- *)
Gauss == <<
  10000, 9990, 9961, 9912, 9845, 9759, 9655, 9533, 9394, 9239, 9070, 8886, 8688, 8479, 8258, 8027,
  7788, 7541, 7288, 7029, 6766, 6501, 6233, 5965, 5698, 5432, 5168, 4907, 4650, 4399, 4152, 3912,
  3679, 3453, 3234, 3023, 2821, 2627, 2441, 2264, 2096, 1937, 1786, 1644, 1510, 1384, 1266, 1156,
  1054, 959, 870, 789, 713, 644, 580, 521, 468, 419, 374, 334, 297, 264, 234, 207, 183, 161, 142, 125,
  109, 96, 84, 73, 63, 55, 48, 41, 36, 31, 26, 23, 19, 16, 14, 12, 10, 9, 7, 6, 5, 4, 4, 3, 3, 2, 2,
  1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
\* kernel at distance num/den times the bandwidth, in 1e-4
Kernel(k, num, den, trunc) ==
  IF k = "rect" THEN IF num <= den THEN 5000 ELSE 0
  ELSE IF k = "tri" THEN IF num <= den THEN (10000 * (den - num)) \div den ELSE 0
  ELSE IF k = "epan" THEN IF num <= den THEN (7500 * (den * den - num * num)) \div (den * den) ELSE 0
  ELSE IF (trunc = 1 /\ num > den) \/ 96 * num >= 120 * den THEN 0
  ELSE LET p == (96 * num) \div den r == 96 * num - p * den
       IN Gauss[p + 1] - ((Gauss[p + 1] - Gauss[p + 2]) * r) \div den
\* in: values, w: weights, K: kernel values for output channel c, tol: error in
\* a kernel value.  The channels lo..hi take part.
Smoothed(v, in, w, K, lo, hi, tol) ==
  LET J == {j \in lo..hi : Finite(in[j]) /\ w[j] > 0 /\ K[j] > 0}
      wk == [j \in J |-> K[j] * w[j]]
      W == SetSum(J, wk)
      slack == W + 20000 * tol * SetSum(J, [j \in J |-> w[j]])
  IN IF W = 0 THEN v = <<>> \/ \E j \in lo..hi : Finite(in[j]) /\ w[j] > 0 /\ K[j] = 0
     ELSE \/ W <= 100
          \/ /\ Finite(v)
             /\ \A x \in 1..2 : Abs(v[x] * W - 500 * SetSum(J, [j \in J |-> wk[j] * in[j][x]])) <= slack
\* without truncation all channels count; with it, those beyond half of the
\* (local) bandwidth may be left out, but only from the outside
Windows(n, c, must) == {q \in (1..n) \X (1..n) : q[1] <= c /\ q[2] >= c /\ \A j \in must : j >= q[1] /\ j <= q[2]}

(* ---- rotations ------------------------------------------------------------ *)
Cos5 == <<10000, 9962, 9848, 9659, 9397, 9063, 8660, 8192, 7660, 7071, 6428, 5736, 5000, 4226, 3420, 2588, 1736, 872, 0>>
RECURSIVE Cos(_)
Cos(k) == IF k < 0 THEN Cos(-k)
          ELSE LET q == k % 72 IN
               IF q <= 18 THEN Cos5[q + 1] ELSE IF q <= 36 THEN -Cos5[36 - q + 1] ELSE Cos(72 - q)
Sin(k) == Cos(18 - k)
\* m: 2 x 2 matrix as four values; the direction of twice its rotation angle
Twice(m) ==
  LET s == Add(m[1], m[4])
      d == <<m[3][1] - m[2][1], m[3][2] - m[2][2]>>
      id == <<-d[2], d[1]>>
  IN Mul(Add(s, id), Conj(<<s[1] - id[1], s[2] - id[2]>>))
IsRotation(o) ==                                                 \* o in 1e-3
  /\ \A p \in 1..4 : Finite(o[p]) /\ o[p][2] = 0
  /\ o[1] = o[4] /\ o[2][1] = -o[3][1]
  /\ Abs(o[1][1] * o[1][1] + o[3][1] * o[3][1] - 1000000) <= 2200
RotationOf(o, m) ==
  LET P == Twice(m) c == o[1][1] s == o[3][1]
      c2 == (c * c - s * s) \div 25 s2 == (2 * c * s) \div 25
  IN /\ IsRotation(o)
     /\ (Abs(P[1]) + Abs(P[2]) > 0 => /\ Abs(c2 * P[2] - s2 * P[1]) <= 160 * (Abs(P[1]) + Abs(P[2]))
                                      /\ c2 * P[1] + s2 * P[2] > 0)

(* ---- a diagonal matrix times a rotation ----------------------------------- *)
\* The diagonal mode allows these values (d in 1e-3, a and b whole) for the
\* first diagonal element
Diag(mode, d, a, b) ==
  LET h == Add(a, b) IN                                             \* doubled mean
  CASE mode = "diagonal" -> Near(d, 1000 * a[1], 1000 * a[2], 40)
    [] mode = "diagonalamplitude" -> Near(d, 1000 * Mod(a), 0, 40)
    [] mode = "diagonalphase" ->
         Near(d, (1000 * a[1]) \div Mod(a), (1000 * a[2]) \div Mod(a), 5)
    [] mode = "scalar" -> Near(d, 500 * h[1], 500 * h[2], 40)
    [] mode = "scalaramplitude" ->
         d[1] >= 0 /\ Abs(d[2]) <= 40 /\ Abs((d[1] \div 10) * (d[1] \div 10) - 2500 * (h[1] * h[1] + h[2] * h[2])) <= 10 * d[1] + 100
    [] mode = "scalarphase" ->
         /\ Abs(d[1] * h[2] - d[2] * h[1]) <= 6 * (Abs(h[1]) + Abs(h[2])) /\ d[1] * h[1] + d[2] * h[2] > 0
         /\ Abs(d[1] * d[1] + d[2] * d[2] - 1000000) <= 8000
NPol(mode) == IF mode \in {"diagonal", "diagonalamplitude", "diagonalphase"} THEN 2 ELSE 1
Names(mode) ==
  CASE mode \in {"diagonal", "scalar"} -> <<"amplitude", "phase">>
    [] mode \in {"diagonalamplitude", "scalaramplitude"} -> <<"amplitude">>
    [] OTHER -> <<"phase">>
=============================================================================
