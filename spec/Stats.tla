-------------------------------- MODULE Stats --------------------------------
(* Median of a list; stopwatch; human-readable quantities.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Count(q, P(_)) == Cardinality({k \in 1..Len(q) : P(q[k])})
\* m2 is twice the median: the mean of the lower and the upper middle value,
\* each defined by how many elements lie below and above it.
IsNth(q, v, k) ==   \* v is the k-th smallest (1-based)
  /\ \E j \in 1..Len(q) : q[j] = v
  /\ Count(q, LAMBDA x : x < v) < k
  /\ Count(q, LAMBDA x : x <= v) >= k
Nth(q, k) == CHOOSE v \in {q[j] : j \in 1..Len(q)} : IsNth(q, v, k)
Median2(q) == IF q = <<>> THEN 0
              ELSE Nth(q, (Len(q) + 1) \div 2) + Nth(q, Len(q) \div 2 + 1)
SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A v \in {p[k] : k \in 1..Len(p)} :
                      Count(p, LAMBDA x : x = v) = Count(q, LAMBDA x : x = v)
=============================================================================
