------------------------------ MODULE PhaseFit ------------------------------
(* Fitting phase models to phases.  Phases are in tenths of a degree and     *)
(* only known up to whole turns; frequencies in MHz.                         *)
EXTENDS Integers, Sequences, FiniteSets
Nan == 99999
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)
Sum(q) == SumTo(q, Len(q))
Wrap(p) == ((p + 1800) % 3600) - 1800
Dist(p, q) == Abs(Wrap(p - q))
\* c is in thousandths per MHz
Model(a, b, c, nu) == a \div nu + b + (c * nu) \div 1000
\* phases p follow the model, to within tol, at the frequencies in K
Follows(p, m, f, K, tol) == \A k \in K : p[k] # Nan /\ Dist(p[k], Model(m[1], m[2], m[3], f[k])) <= tol
\* a model is determined by the channels in K if there are enough of them, and
\* spread enough, to tell apart models that differ by turns
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Determined(f, K, n, span) == Cardinality(K) >= n /\ f[SetMax(K)] - f[SetMin(K)] >= span
\* a fit cannot be improved by a small change of its parameters: what is left
\* (v, its sine, for the von Mises distribution) has no part along any of them
Balanced(v, w, g, tol) == Abs(Sum([k \in 1..Len(v) |-> w[k] * ((v[k] * g[k]) \div 1000)])) <= tol * (1 + Sum(w))
Stationary(v, w, f, phase, tol) ==
  /\ Balanced(v, w, [k \in 1..Len(f) |-> (1000 * f[1]) \div f[k]], tol)
  /\ Balanced(v, w, [k \in 1..Len(f) |-> (1000 * f[k]) \div f[1]], tol)
  /\ (phase = 1 => Balanced(v, w, [k \in 1..Len(f) |-> 1000], tol))
\* the straight line that fits values y at x with weights w best, at position p
LineAt(x, y, w, p) ==
  LET z == [k \in 1..Len(x) |-> x[k] - x[1]]
      W == Sum(w)
      sx == Sum([k \in 1..Len(x) |-> w[k] * z[k]])
      sy == Sum([k \in 1..Len(x) |-> w[k] * y[k]])
      D == W * Sum([k \in 1..Len(x) |-> w[k] * z[k] * z[k]]) - sx * sx
      S == W * Sum([k \in 1..Len(x) |-> w[k] * z[k] * y[k]]) - sx * sy
  IN (sy + ((W * (p - x[1]) - sx) * S) \div D) \div W
\* the window (first, last) for channel k of n
PieceWindow(k, n, c) == LET s == ((k - 1) \div c) * c + 1 IN
                        IF k >= n - c + 1 THEN <<n - c + 1, n>> ELSE <<s, s + c - 1>>
SlideWindow(k, n, c) == LET s == k - c \div 2 IN IF s < 1 THEN <<1, c>> ELSE IF s > n - c + 1 THEN <<n - c + 1, n>> ELSE <<s, s + c - 1>>
\* the (doubled) weighted median splits the weight in two
Below(v, x) == Sum([k \in 1..Len(v) |-> IF v[k][1] < x THEN v[k][2] ELSE 0])
Above(v, x) == Sum([k \in 1..Len(v) |-> IF v[k][1] > x THEN v[k][2] ELSE 0])
Total(v) == Sum([k \in 1..Len(v) |-> v[k][2]])
IsMedian(v, x) == IF v = <<>> THEN x = 0
                  ELSE (\E k \in 1..Len(v) : v[k][1] = x) /\ 2 * Below(v, x) <= Total(v) /\ 2 * Above(v, x) <= Total(v)
=============================================================================
