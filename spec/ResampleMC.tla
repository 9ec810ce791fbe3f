----------------------------- MODULE ResampleMC -----------------------------
(* For all small configurations: every sub step is covered by exactly one    *)
(* solution of its direction, every solution is used, for N/n sub steps.     *)
EXTENDS Resample
CONSTANT MaxInt, MaxDir
VARIABLES nsol, solint
Divisors(m) == {d \in 1..m : m % d = 0}
Init == /\ solint \in 1..MaxInt
        /\ \E k \in 1..MaxDir : nsol \in [1..k -> Divisors(solint)]
Next == FALSE /\ UNCHANGED <<nsol, solint>>
Unique == \A d \in 1..Len(nsol), s \in 0..(NSub(nsol, solint) - 1) :
            Cardinality({j \in 0..(nsol[d] - 1) : Covers(j, nsol[d], s, NSub(nsol, solint))}) = 1
Share == \A d \in 1..Len(nsol) : \A j \in 0..(nsol[d] - 1) :
            Cardinality({s \in 0..(NSub(nsol, solint) - 1) : SubOf(nsol[d], s, NSub(nsol, solint)) = j})
              * nsol[d] = NSub(nsol, solint)
Divides == solint % NSub(nsol, solint) = 0
=============================================================================
