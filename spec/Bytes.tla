-------------------------------- MODULE Bytes --------------------------------
(* Byte order conversion and packing of booleans into bits.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
\* reverse the bytes of each of the first n values of w bytes
Swapped(b, w, n) == [k \in 1..Len(b) |->
   IF k > w * n THEN b[k]
   ELSE LET q == (k - 1) \div w  r == (k - 1) % w IN b[q * w + (w - 1 - r) + 1]]

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* bit j (from 0, least significant first) of a byte buffer
Bit(b, j) == (b[(j \div 8) + 1] \div Pow2(j % 8)) % 2
BytesUsed(n, start) == IF n = 0 THEN 0 ELSE (n + (start % 8) + 7) \div 8
=============================================================================
