------------------------------ MODULE Resample ------------------------------
(* Directions may have several solutions per solution interval.  Upsampling  *)
(* brings all directions to a common number of sub steps: the value of sub   *)
(* step s of a direction is the one solution whose time span contains it.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

MaxOf(q) == CHOOSE m \in {q[k] : k \in 1..Len(q)} : \A k \in 1..Len(q) : q[k] <= m

NSub(nsol, solint) == IF \A d \in 1..Len(nsol) : MaxOf(nsol) % nsol[d] = 0
                      THEN MaxOf(nsol) ELSE solint

RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)
Total(nsol) == SumTo(nsol, Len(nsol))

\* sub solution j (0-based) of a direction with n solutions spans
\* [j/n, (j+1)/n) of the interval; sub step s of N spans [s/N, (s+1)/N).
Covers(j, n, s, N) == j * N <= s * n /\ (s + 1) * n <= (j + 1) * N
SubOf(n, s, N) == CHOOSE j \in 0..(n - 1) : Covers(j, n, s, N)

\* position of the original value: antenna slowest, then all the solutions of
\* all directions, then polarization
Origin(nsol, solint, t, ant, dir, pol, npol) ==
  LET N == NSub(nsol, solint)
  IN <<t \div N,
       (ant * Total(nsol) + SumTo(nsol, dir) + SubOf(nsol[dir + 1], t % N, N)) * npol + pol>>
=============================================================================
