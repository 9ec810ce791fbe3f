------------------------------ MODULE Complex ------------------------------
(* Gaussian integers <<re, im>> and 2x2 matrices of them <<a, b, c, d>>.    *)
EXTENDS Naturals, Integers, Sequences
CZero == <<0, 0>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Conj(x)    == <<x[1], 0 - x[2]>>
CScale(s, x) == <<s * x[1], s * x[2]>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
CAbs1(x) == Abs(x[1]) + Abs(x[2])
CNorm(x) == x[1] * x[1] + x[2] * x[2]
RECURSIVE CSum(_)
CSum(q) == IF q = <<>> THEN CZero ELSE CAdd(Head(q), CSum(Tail(q)))

MMul(A, B) == << CAdd(CMul(A[1], B[1]), CMul(A[2], B[3])), CAdd(CMul(A[1], B[2]), CMul(A[2], B[4])),
                 CAdd(CMul(A[3], B[1]), CMul(A[4], B[3])), CAdd(CMul(A[3], B[2]), CMul(A[4], B[4])) >>
MHerm(A) == <<Conj(A[1]), Conj(A[3]), Conj(A[2]), Conj(A[4])>>
MAdd(A, B) == [k \in 1..4 |-> CAdd(A[k], B[k])]
MSub(A, B) == [k \in 1..4 |-> CSub(A[k], B[k])]
=============================================================================
