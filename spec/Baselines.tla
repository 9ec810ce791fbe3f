------------------------------ MODULE Baselines ------------------------------
(* Numbering of the antenna pairs (a, b), a <= b, of n antennas.  The number *)
(* of a pair is its position in the enumeration of the pairs.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NBaselines(n) == (n * (n + 1)) \div 2

\* how many pairs come before (a, b): whole rows (or columns) first, then the
\* pairs before it in its own row (column).  Defined by counting.
RECURSIVE Tri(_)                   \* 1 + 2 + ... + k, defined by counting
Tri(k) == IF k = 0 THEN 0 ELSE k + Tri(k - 1)
TriN(k) == (k * (k + 1)) \div 2

Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a

\* order "row": (0,0) (0,1) .. (0,n-1) (1,1) ..      rows have n, n-1, .. pairs
\* order "col": (0,0) (0,1) (1,1) (0,2) ..           columns have 1, 2, .. pairs
Number(a, b, n, order) ==
  IF order = "row" THEN (TriN(n) - TriN(n - Lo(a, b))) + (Hi(a, b) - Lo(a, b))
  ELSE TriN(Hi(a, b)) + Lo(a, b)
=============================================================================
