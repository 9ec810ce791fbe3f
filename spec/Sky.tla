--------------------------------- MODULE Sky ---------------------------------
(* Sky model components: what a component looks like at a frequency, what is *)
(* extracted from it, and the direction of a patch of components.            *)
(* Angles are whole multiples of 5 degrees, so that sines come from a table; *)
(* sines and unit vectors are in units of 1e-4.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sin5 == <<0, 872, 1736, 2588, 3420, 4226, 5000, 5736, 6428, 7071, 7660, 8192,
          8660, 9063, 9397, 9659, 9848, 9962, 10000>>
\* sine of 5 k degrees for any integer k
RECURSIVE Sin(_)
Sin(k) == IF k < 0 THEN -Sin(-k)
          ELSE LET q == k % 72 IN
               IF q <= 18 THEN Sin5[q + 1]
               ELSE IF q <= 36 THEN Sin5[36 - q + 1]
               ELSE -Sin(q - 36)
Cos(k) == Sin(k + 18)
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

\* unit vector of (ra, dec), 1e-4
Unit(ra, dec) == << (Cos(ra) * Cos(dec)) \div 10000, (Sin(ra) * Cos(dec)) \div 10000, Sin(dec) >>
Total(dirs) == << SumSeq([k \in 1..Len(dirs) |-> Unit(dirs[k][1], dirs[k][2])[1]]),
                  SumSeq([k \in 1..Len(dirs) |-> Unit(dirs[k][1], dirs[k][2])[2]]),
                  SumSeq([k \in 1..Len(dirs) |-> Unit(dirs[k][1], dirs[k][2])[3]]) >>
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Size1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3])

\* d (unit, 1e-4) points along the mean of the directions
PatchDirection(dirs, d) ==
  LET m == Total(dirs)
      c == Cross(m, d)
  IN IF Size1(m) < 4000 THEN TRUE       \* directions cancel: no direction
     ELSE /\ Dot(m, d) > 0
          /\ \A k \in 1..3 : Abs(c[k]) <= 2 * Size1(m) + 40000 + 30000 * Len(dirs)

(* A component: stokes <<I,Q,U,V>>, optional spectral terms (logarithmic or  *)
(* ordinary), optional rotation measure <<fraction%, angle, rm>>.            *)
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
RECURSIVE Horner(_, _)
Horner(terms, x) == IF terms = <<>> THEN 0 ELSE Head(terms) + x * Horner(Tail(terms), x)

\* Flux in 1e-6 at frequency ratio x: ordinary polynomial (terms c1, c2, ..):
\*   I + x (c1 + x (c2 + ..)),  x = f/f0 - 1 = xn / xd with xd a power of two
\* times exactly representable integers.  The driver reports flux * xd^n.
RECURSIVE PowI(_, _)
PowI(b, n) == IF n = 0 THEN 1 ELSE b * PowI(b, n - 1)
\* (I + sum_k c_k x^k) * xd^n   for n terms
PolyFlux(I, terms, xn, xd) ==
  LET n == Len(terms)
  IN I * PowI(xd, n) + SumSeq([k \in 1..n |-> terms[k] * PowI(xn, k) * PowI(xd, n - k)])
\* logarithmic: I * 10^(l (c1 + l c2 + ..)), l = log10(f/f0) integer
LogExp(terms, l) == l * Horner(terms, l)
=============================================================================
