----------------------------- MODULE BaselinesMC -----------------------------
(* Enumerate the pairs one by one in the documented order; the k-th pair has *)
(* number k, so Number is a bijection onto 0 .. NBaselines - 1.              *)
EXTENDS Baselines
CONSTANT MaxN
VARIABLES n, order, a, b, k
Init == n \in 1..MaxN /\ order \in {"row", "col"} /\ a = 0 /\ b = 0 /\ k = 0
Next == /\ k + 1 < Tri(n)
        /\ k' = k + 1
        /\ UNCHANGED <<n, order>>
        /\ IF order = "row"
           THEN IF b + 1 < n THEN a' = a /\ b' = b + 1 ELSE a' = a + 1 /\ b' = a + 1
           ELSE IF a < b THEN a' = a + 1 /\ b' = b ELSE a' = 0 /\ b' = b + 1
Position == Number(a, b, n, order) = k /\ Number(b, a, n, order) = k
InRange == a <= b /\ b < n /\ k < NBaselines(n) /\ TriN(n) = Tri(n)
Ends == (~ENABLED Next) => k + 1 = NBaselines(n)
=============================================================================
