--------------------------- MODULE AveragerTrace ---------------------------
EXTENDS Averager, TraceBase
\* state: phase "idle" | "on" | "pass" (no averaging) | "done"; cfg; pending slots
StartSt(ev) == [ph |-> "idle", buf |-> <<>>]

Cfg(s, info) ==
  LET \* an averaging factor asked for as a resolution is the nearest whole
      \* number of channels or slots, at least one (half goes up)
      Near(res, unit) == MaxI(1, (2 * res + unit) \div (2 * unit))
      c0 == IF s.freqres > 0 THEN Near(s.freqres, info.widths[1]) ELSE MaxI(1, s.freqstep)
      t0 == IF s.timeres > 0 THEN Near(s.timeres, info.interval) ELSE MaxI(1, s.timestep)
  IN [pass |-> c0 = 1 /\ t0 = 1,
      ca |-> MinI(c0, Len(info.freqs)), ta |-> MinI(t0, info.ntime),
      minpoints |-> s.minpoints, minperc |-> s.minperc]

InfoOk(inf, c, o) ==
  LET n == Len(inf.freqs)
      ebw == Groups(IF "ebw" \in DOMAIN inf THEN inf.ebw ELSE inf.widths, c.ca)
      res == Groups(IF "res" \in DOMAIN inf THEN inf.res ELSE inf.widths, c.ca)
      wid == Groups(inf.widths, c.ca)
      S(s) == [k \in 1..Len(s) |-> 16 * s[k]]
      nt == CeilDiv(inf.ntime, c.ta)
      first == inf.t0 + ((c.ta - 1) * inf.interval) \div 2
  IN /\ o.nchan = n \div c.ca
     /\ o.freqs = <<[k \in 1..(n \div c.ca) |-> 8 * (inf.freqs[(k - 1) * c.ca + 1] + inf.freqs[k * c.ca])]>>
     /\ o.widths = <<S(wid)>> /\ o.res = <<S(res)>> /\ o.ebw = <<S(ebw)>>
     /\ o.bw = 16 * Sum(ebw)
     /\ o.ntime = nt /\ o.int = c.ta * inf.interval
     /\ o.t0 = first /\ o.t1 = first + (nt - 1) * c.ta * inf.interval
     /\ 2 * o.start = 2 * inf.t0 - inf.interval          \* the observation starts where it did
     /\ o.nchanavg = c.ca /\ o.ntimeavgs = <<c.ta>>
     /\ o.orignchan = n /\ o.startchan = 0 /\ o.ncorr = inf.ncorr
     /\ o.ant1 = inf.ant1 /\ o.ant2 = inf.ant2
     /\ o.meta

Flush(z) == /\ Len(z.buf) > 0
Emit(z, slots, o) ==
  /\ o.t = slots[1].t + ((z.cfg.ta - 1) * z.int) \div 2
  /\ o.exp = z.cfg.ta * z.int
  /\ o.k = "reg"
  /\ SlotOk(slots, z.cfg.ca, z.cfg, o)

\* without averaging a slot passes unchanged
Same(ev, o) ==
  /\ o.t = ev.t /\ o.exp = ev.exp /\ o.f = ev.f
  /\ \A b \in DOMAIN ev.w : \A c \in DOMAIN ev.w[b] : \A p \in DOMAIN ev.w[b][c] :
        /\ o.w[b][c][p] = Scale * ev.w[b][c][p]
        /\ \A x \in 1..2 : o.d[1][b][c][p][x] = Scale * ev.d[1][b][c][p][x]
  /\ \A b \in DOMAIN ev.uvw : \A x \in 1..3 : o.uvw[b][x] = Scale * ev.uvw[b][x]

Judge(z, ev) ==
  CASE ev.op = "make" ->
         LET c == Cfg(ev.step, ev.info)
             bad == Len(ev.info.freqs) % c.ca # 0
         IN IF bad THEN <<ev.res = "err", [ph |-> "idle", buf |-> <<>>]>>
            ELSE <<ev.res = "ok" /\ InfoOk(ev.info, c, ev.out),
                   [ph |-> IF c.pass THEN "pass" ELSE "on", buf |-> <<>>, cfg |-> c, int |-> ev.info.interval]>>
    [] ev.op = "buf" /\ z.ph = "pass" ->
         <<ev.res = "ok" /\ Len(ev.out) = 1 /\ Same(ev, ev.out[1]) /\ ev.fin = 0, z>>
    [] ev.op = "buf" /\ z.ph = "on" ->
         LET slots == Append(z.buf, ev)
         IN IF Len(slots) < z.cfg.ta
            THEN <<ev.res = "ok" /\ ev.out = <<>> /\ ev.fin = 0, [z EXCEPT !.buf = slots]>>
            ELSE <<ev.res = "ok" /\ Len(ev.out) = 1 /\ ev.fin = 0 /\ Emit(z, slots, ev.out[1]), [z EXCEPT !.buf = <<>>]>>
    [] ev.op = "finish" /\ z.ph \in {"on", "pass"} ->
         <<ev.res = "ok" /\ ev.fin = 1 /\
           (IF Flush(z) THEN Len(ev.out) = 1 /\ Emit(z, z.buf, ev.out[1]) ELSE ev.out = <<>>),
           [z EXCEPT !.ph = "done", !.buf = <<>>]>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
