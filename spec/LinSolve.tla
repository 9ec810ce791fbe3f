------------------------------ MODULE LinSolve ------------------------------
(* Linear least squares: x minimises |b - A x| iff the residual is           *)
(* orthogonal to every column of A.  All data are Gaussian integers; the     *)
(* reported x is rounded to 1/Scale, so each of its parts is off by at most  *)
(* half a unit plus the arithmetic error of the code (Slack units).          *)
EXTENDS Complex, TLC
Scale == 1000
\* column-major matrix with leading dimension ld; r, c from 1
At(M, ld, r, c) == M[(c - 1) * ld + r]
\* G = A^H A, entry (i, j)
Gram(A, m, i, j) == CSum([k \in 1..m |-> CMul(Conj(At(A, m, k, i)), At(A, m, k, j))])
Proj(A, m, b, i) == CSum([k \in 1..m |-> CMul(Conj(At(A, m, k, i)), b[k])])
Slack == 3
Orthogonal(A, m, n, b, x) ==
  \A i \in 1..n :
    LET g == [j \in 1..n |-> Gram(A, m, i, j)]
        d == CSub(CScale(Scale, Proj(A, m, b, i)), CSum([j \in 1..n |-> CMul(g[j], x[j])]))
        t == Slack * (LET s[j \in 0..n] == IF j = 0 THEN 1 ELSE s[j - 1] + CAbs1(g[j]) IN s[n])
    IN Abs(d[1]) <= t /\ Abs(d[2]) <= t

HasZeroColumn(A, m, n) == \E j \in 1..n : \A k \in 1..m : At(A, m, k, j) = CZero
=============================================================================
