-------------------------------- MODULE Jones --------------------------------
(* Visibilities of a set of baselines, in strided buffers.  A visibility is  *)
(* a 2x2 matrix V[bl][ch].  Stations corrupt it: V' = Jp V Jq^H.  Mixed      *)
(* subtraction: V' = V - w o M.  Auto-correlations are left alone, as is     *)
(* every element of the buffer that belongs to no visibility.                *)
EXTENDS Complex, FiniteSets, TLC

\* 0-based offset of correlation c, channel ch, baseline bl; s = strides
Off(s, c, ch, bl) == c * s[1] + ch * s[2] + bl * s[3]
Where(s, nc, nb, k) == \* the <<c, ch, bl>> stored at offset k, if any
  {x \in (0..3) \X (0..(nc - 1)) \X (0..(nb - 1)) : Off(s, x[1], x[2], x[3]) = k}
VisAt(buf, s, ch, bl) == [c \in 1..4 |-> buf[Off(s, c - 1, ch, bl) + 1]]
Coef(co, cs, st) == [e \in 1..4 |-> <<co[st * cs[2] + (2 * e - 2) * cs[1] + 1],
                                      co[st * cs[2] + (2 * e - 1) * cs[1] + 1]>>]
Applied(co, cs, p, q, V) == MMul(MMul(Coef(co, cs, p), V), MHerm(Coef(co, cs, q)))
=============================================================================
