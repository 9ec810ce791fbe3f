--------------------------------- MODULE Bda ---------------------------------
(* Baseline-dependent averaging and its inverse.                            *)
(*                                                                          *)
(* Averaging state: per baseline the slots received since its last row.     *)
(* After `factor' slots (or at the end, with what there is) the baseline's  *)
(* row goes out.  Rows leave in the order in which they were completed, in  *)
(* buffers of bounded size.                                                 *)
EXTENDS Averager

Floor(a, b) == a \div b
Length2(inf, b) ==
  LET p == inf.pos[inf.ant1[b] + 1]
      q == inf.pos[inf.ant2[b] + 1]
  IN (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])
\* whole lengths only (the generator sees to that); in units of 1/20 m so that
\* the shortest length counted, 0.1 m, is whole too
Root(n) == CHOOSE k \in 0..400 : k * k = n
Length(inf, b) == MaxI(20 * Root(Length2(inf, b)), 2)

\* cfg: timebase4 (in quarter metres), freqbase, maxinterval (ms), minchannels
TimeFactor(cfg, inf, b) ==
  LET f == Floor(5 * cfg.timebase4, Length(inf, b))
      g == IF cfg.maxinterval > 0 /\ f * inf.interval > cfg.maxinterval
           THEN Floor(cfg.maxinterval, inf.interval) ELSE f
  IN MaxI(g, 1)
NChan(cfg, inf, b) ==
  LET n == Len(inf.freqs)
      c == CeilDiv(Root(Length2(inf, b)) * n, cfg.freqbase)
  IN IF cfg.freqbase = 0 THEN n
     ELSE MinI(n, MaxI(MaxI(1, cfg.minchannels), c))

\* first and last input channel of output channel c of m, n channels in
Lo(c, m, n) == ((c - 1) * n) \div m + 1
Hi(c, m, n) == (c * n) \div m

\* description after averaging
Facs(cfg, inf) == [b \in 1..Len(inf.ant1) |-> TimeFactor(cfg, inf, b)]
Chans(cfg, inf) == [b \in 1..Len(inf.ant1) |-> NChan(cfg, inf, b)]
OutFreqs(inf, m) == [c \in 1..m |-> 8 * (inf.freqs[Lo(c, m, Len(inf.freqs))] + inf.freqs[Hi(c, m, Len(inf.freqs))])]
OutWidths(inf, m) == [c \in 1..m |-> 16 * SumOver(inf.widths, Lo(c, m, Len(inf.freqs)), Hi(c, m, Len(inf.freqs)))]

\* ---- one row: slots of baseline b averaged into m channels ---------------
BSamples(slots, nm, b, c, p, m) ==
  LET n == Len(slots[1].w[b])
      lo == Lo(c, m, n)
      k0 == Hi(c, m, n) - lo + 1
  IN [k \in 1..(k0 * Len(slots)) |->
        LET s == slots[(k - 1) \div k0 + 1]
            ch == lo + ((k - 1) % k0)
        IN <<s.d[nm][b][ch][p][1], s.d[nm][b][ch][p][2], s.w[b][ch][p], s.f[b][ch][p]>>]
\* without weights every sample counts once
Use(s, weighted) == IF weighted THEN Unflagged(s) ELSE [k \in 1..Len(s) |-> <<s[k][1], s[k][2], 1, 0>>]
RowOk(slots, b, m, weighted, int, nr, o) ==
  LET np == Len(slots[1].w[1][1])
      T == Len(slots)
      nn == Len(slots[1].d)
  IN /\ o.bl = b /\ o.nr = nr /\ o.nch = m /\ o.nc = np
     /\ o.int = T * int
     /\ o.t = slots[1].t - (int \div 2) + ((T * int) \div 2)
     /\ o.exp = Sum([k \in 1..T |-> slots[k].exp])
     /\ \A x \in 1..3 : Is(o.uvw[x], Sum([k \in 1..T |-> slots[k].uvw[b][x]]), T)
     /\ Len(o.d) = nn
     /\ \A c \in 1..m : \A p \in 1..np :
          /\ o.f[c][p] = 0
          /\ \A nm \in 1..nn :
               LET u == Use(BSamples(slots, nm, b, c, p, m), weighted)
                   ww == Weight(u)
               IN /\ Is(o.w[c][p], ww, 1)
                  /\ IF ww = 0 THEN o.d[nm][c][p] = <<0, 0>>
                     ELSE Is(o.d[nm][c][p][1], WRe(u), ww) /\ Is(o.d[nm][c][p][2], WIm(u), ww)
Size(z, b) == z.m[b] * z.nc
MaxSize(z) == LET S == {Size(z, b) : b \in 1..Len(z.m)} IN CHOOSE x \in S : \A y \in S : y <= x
=============================================================================
