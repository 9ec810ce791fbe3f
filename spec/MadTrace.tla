------------------------------ MODULE MadTrace ------------------------------
EXTENDS Mad, TraceBase
Scale == 4096
StartSt(ev) == [on |-> FALSE]
HasAuto(inf) == \E b \in DOMAIN inf.ant1 : inf.ant1[b] = inf.ant2[b]
Same(in, o) ==
  /\ o.t = in.t /\ o.exp = in.exp /\ o.names = in.names
  /\ o.w = [b \in DOMAIN in.w |-> [c \in DOMAIN in.w[b] |-> [p \in DOMAIN in.w[b][c] |-> Scale * in.w[b][c][p]]]]
  /\ o.uvw = [b \in DOMAIN in.uvw |-> [x \in 1..3 |-> Scale * in.uvw[b][x]]]
  /\ o.d = [k \in DOMAIN in.d |-> [b \in DOMAIN in.d[k] |-> [c \in DOMAIN in.d[k][b] |-> [p \in DOMAIN in.d[k][b][c] |->
                 <<Scale * in.d[k][b][c][p][1], Scale * in.d[k][b][c][p][2]>>]]]]
Amps(in) == [b \in DOMAIN in.m |-> [c \in DOMAIN in.m[b] |-> [p \in DOMAIN in.m[b][c] |-> in.m[b][c][p]]]]
AllOk(s, inf, in, out) ==
  LET amp == [t \in DOMAIN in |-> in[t].m]
  IN /\ Len(out) = Len(in)
     /\ \A t \in DOMAIN in : Same(in[t], out[t])
     /\ Fits(s, inf, Len(in)) => \A t \in DOMAIN in : FlagsOk(in, amp, s, inf, t, out[t].f)
Judge(z, ev) ==
  CASE ev.op = "make" ->
         IF ev.step.auto /\ ~HasAuto(ev.info) THEN <<ev.res = "err", [on |-> FALSE]>>
         ELSE <<ev.res = "ok" /\ ev.out.nchan = Len(ev.info.freqs) /\ ev.out.ntime = ev.info.ntime,
                [on |-> TRUE, s |-> ev.step, inf |-> ev.info, in |-> <<>>, got |-> <<>>]>>
    [] ev.op = "buf" ->
         IF ~z.on THEN <<ev.out = <<>>, z>>
         ELSE <<ev.res = "ok" /\ ev.fin = 0, [z EXCEPT !.in = Append(@, ev), !.got = @ \o ev.out]>>
    [] ev.op = "finish" ->
         IF ~z.on THEN <<ev.out = <<>>, z>>
         ELSE <<ev.res = "ok" /\ ev.fin = 1 /\ AllOk(z.s, z.inf, z.in, z.got \o ev.out), z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
