--------------------------- MODULE AntennasTrace ----------------------------
EXTENDS Antennas, TraceBase
Scale == 4096
StartSt(ev) == [on |-> FALSE, n |-> 0]
Num(x) == IF IsNan(x) \/ IsInf(x) THEN 1000000000 ELSE Scale * x
Kept(in, o) ==
  /\ o.t = in.t /\ o.exp = in.exp /\ o.names = in.names
  /\ o.w = [b \in DOMAIN in.w |-> [c \in DOMAIN in.w[b] |-> [p \in DOMAIN in.w[b][c] |-> Scale * in.w[b][c][p]]]]
  /\ o.uvw = [b \in DOMAIN in.uvw |-> [x \in 1..3 |-> Scale * in.uvw[b][x]]]
  /\ o.d = [k \in DOMAIN in.d |-> [b \in DOMAIN in.d[k] |-> [c \in DOMAIN in.d[k][b] |-> [p \in DOMAIN in.d[k][b][c] |->
                 <<Num(in.d[k][b][c][p][1]), Num(in.d[k][b][c][p][2])>>]]]]
Nap(inf) == IF inf.a12 THEN 48 ELSE 1
\* a baseline is flagged fully if one of its antennas is; else it keeps its flags
Flags(z, in, f) ==
  LET n == Len(z.inf.pos)
      nap == Nap(z.inf)
      d == in.d[1]
      va == TLCEval(BadAntennas(d, z.order, n \div nap, nap, z.inf.ncorr, z.s.as, z.s.ai))
      vs == TLCEval(BadStations(d, z.order, n \div nap, nap, z.inf.ncorr, z.s.ss, z.s.si))
      v == [a \in 1..n |-> Or(va[a], vs[a])]
      all == [c \in DOMAIN z.inf.freqs |-> [p \in 1..z.inf.ncorr |-> 1]]
  IN \A b \in DOMAIN f :
       LET w == Or(v[z.inf.ant1[b] + 1], v[z.inf.ant2[b] + 1])
       IN CASE w = "y" -> f[b] = all [] w = "n" -> f[b] = in.f[b] [] OTHER -> f[b] \in {all, in.f[b]}
Judge(z, ev) ==
  CASE ev.op = "afnew" -> <<TRUE, [on |-> TRUE, n |-> ev.nst * ev.nap, c |-> ev]>>
    [] ev.op = "af" ->
         <<Agrees(BadAntennas(ev.d, ev.order, z.c.nst, z.c.nap, z.c.ncorr, ev.as, ev.ai), ev.a)
           /\ Agrees(BadStations(ev.d, ev.order, z.c.nst, z.c.nap, z.c.ncorr, ev.ss, ev.si), ev.s), z>>
    [] ev.op = "make" ->
         LET n == Len(ev.info.pos)
             order == IF Ordered(ev.info, "col", n) THEN "col" ELSE IF Ordered(ev.info, "row", n) THEN "row" ELSE "none"
         IN IF order = "none" \/ n % Nap(ev.info) # 0 THEN <<ev.res = "err", [on |-> FALSE, n |-> 0]>>
            ELSE <<ev.res = "ok" /\ ev.out.nchan = Len(ev.info.freqs) /\ ev.out.ant1 = ev.info.ant1 /\ ev.out.ant2 = ev.info.ant2,
                   [on |-> TRUE, n |-> n, s |-> ev.step, inf |-> ev.info, order |-> order]>>
    [] ev.op = "buf" ->
         IF ~z.on THEN <<ev.out = <<>>, z>>
         ELSE <<ev.res = "ok" /\ ev.fin = 0 /\ Len(ev.out) = 1 /\ Kept(ev, ev.out[1]) /\ Flags(z, ev, ev.out[1].f), z>>
    [] ev.op = "finish" -> <<ev.out = <<>> /\ (z.on => ev.res = "ok" /\ ev.fin = 1), z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
