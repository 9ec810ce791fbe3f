------------------------------ MODULE Averager ------------------------------
(* Averaging of visibilities in time and frequency.                         *)
(*                                                                          *)
(* State: the configuration in force and the time slots received since the  *)
(* last averaged slot went out.  A slot is a record                         *)
(*   t, d[1][bl][ch][corr] = <<re, im>>, w[bl][ch][corr], f[bl][ch][corr],     *)
(*   uvw[bl] = <<u, v, w>>                                                  *)
(* with integer values.  Results are exact rationals: an observed number q  *)
(* (in units of 1/Scale) stands for the rational n/m iff |q m - Scale n| is *)
(* at most m (single precision rounding of the code included).              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Scale == 4096
AbsI(x) == IF x < 0 THEN -x ELSE x
Is(q, n, m) == m > 0 /\ AbsI(q * m - Scale * n) <= m
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
Sum(s) == SumSeq(s, Len(s))
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

(* ---- metadata: what averaging by (ca, ta) makes of a description -------- *)
ChanOf(i, ca) == ((i - 1) * ca + 1)..(i * ca)
SumOver(s, lo, hi) == Sum(SubSeq(s, lo, hi))
Groups(s, ca) == [i \in 1..(Len(s) \div ca) |-> SumOver(s, (i - 1) * ca + 1, i * ca)]

(* ---- one averaged sample ------------------------------------------------ *)
\* the input samples of an output sample, as a sequence of <<re, im, w, flag>>
Samples(slots, b, c, p, ca) ==
  LET nch == Len(slots[1].w[b])
      lo == (c - 1) * ca
      n == MinI(ca, nch - lo)
  IN [k \in 1..(n * Len(slots)) |->
        LET s == slots[(k - 1) \div n + 1]
            ch == lo + ((k - 1) % n) + 1
        IN <<s.d[1][b][ch][p][1], s.d[1][b][ch][p][2], s.w[b][ch][p], s.f[b][ch][p]>>]
Unflagged(s) == SelectSeq(s, LAMBDA x : x[4] = 0)
Weight(s) == Sum([k \in 1..Len(s) |-> s[k][3]])
WRe(s) == Sum([k \in 1..Len(s) |-> s[k][3] * s[k][1]])
WIm(s) == Sum([k \in 1..Len(s) |-> s[k][3] * s[k][2]])

\* an output sample is flagged iff too little of its input is usable
OutFlagged(s, minpoints, minperc) ==
  LET u == Unflagged(s)
  IN \/ Weight(u) = 0
     \/ Len(u) < minpoints
     \/ 100 * Len(u) < Len(s) * minperc
SampleOk(s, minpoints, minperc, d, w, f) ==
  LET fl == OutFlagged(s, minpoints, minperc)
      src == IF fl THEN s ELSE Unflagged(s)
      ww == Weight(src)
  IN /\ f = (IF fl THEN 1 ELSE 0)
     /\ Is(w, ww, 1)
     /\ IF ww = 0 THEN d = <<0, 0>>
        ELSE Is(d[1], WRe(src), ww) /\ Is(d[2], WIm(src), ww)

\* one averaged time slot
SlotOk(slots, ca, cfg, o) ==
  LET nb == Len(slots[1].w)
      nci == Len(slots[1].w[1])
      nco == CeilDiv(nci, ca)
      np == Len(slots[1].w[1][1])
      T == Len(slots)
  IN /\ Len(o.d[1]) = nb /\ Len(o.w) = nb /\ Len(o.f) = nb /\ Len(o.uvw) = nb
     /\ \A b \in 1..nb :
          /\ Len(o.w[b]) = nco /\ Len(o.d[1][b]) = nco /\ Len(o.f[b]) = nco
          /\ \A c \in 1..nco : \A p \in 1..np :
               SampleOk(Samples(slots, b, c, p, ca), cfg.minpoints, cfg.minperc,
                        o.d[1][b][c][p], o.w[b][c][p], o.f[b][c][p])
          /\ \A x \in 1..3 : Is(o.uvw[b][x], Sum([k \in 1..T |-> slots[k].uvw[b][x]]), T)
=============================================================================
