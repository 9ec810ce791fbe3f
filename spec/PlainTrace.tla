----------------------------- MODULE PlainTrace -----------------------------
EXTENDS Plain, TraceBase
\* state: the step in force, the slots it got and the ones it gave
StartSt(ev) == [on |-> FALSE]

OneToOne == {"nullstokes", "combine", "scaledata", "filter"}
\* may the step be made with these settings?
MayMake(s, inf) ==
  CASE s.kind = "nullstokes" -> inf.ncorr = 4
    [] s.kind = "combine" -> s.sign # 0
    [] s.kind = "scaledata" -> ~s.bad
    [] s.kind = "filter" -> Passes(s, inf)
    [] s.kind = "interpolate" -> s.window % 2 = 1
    [] s.kind = "upsample" -> s.n > 1
InfoGood(s, inf, o) ==
  CASE s.kind = "filter" -> FilterInfoOk(s, inf, o)
    [] s.kind = "upsample" -> UpsampleInfoOk(s, inf, o)
    [] OTHER -> o.nchan = Len(inf.freqs) /\ o.ntime = inf.ntime /\ o.ant1 = inf.ant1 /\ o.ant2 = inf.ant2 /\ o.int = inf.interval
SlotGood(s, inf, in, o) ==
  CASE s.kind = "nullstokes" -> NullOk(s, in, o)
    [] s.kind = "combine" -> CombineOk(s, in, o)
    [] s.kind = "scaledata" -> ScaleOk(s, inf, in, o)
    [] s.kind = "filter" -> FilterOk(s, inf, in, o)
AllGood(s, inf, slots, out) ==
  CASE s.kind = "interpolate" -> InterpolateOk(s, slots, out)
    [] s.kind = "upsample" -> UpsampleOk(s, inf, slots, out)
    [] OTHER -> out = <<>>

Judge(z, ev) ==
  CASE ev.op = "make" ->
         IF MayMake(ev.step, ev.info)
         THEN <<ev.res = "ok" /\ InfoGood(ev.step, ev.info, ev.out),
                [on |-> TRUE, s |-> ev.step, inf |-> ev.info, in |-> <<>>, got |-> <<>>, o |-> ev.out]>>
         ELSE <<ev.res = "err", [on |-> FALSE]>>
    [] ev.op = "buf" ->
         IF ~z.on THEN <<ev.out = <<>>, z>>
         ELSE IF z.s.kind \in OneToOne
         THEN <<ev.res = "ok" /\ Len(ev.out) = 1 /\ ev.fin = 0 /\ SlotGood(z.s, z.inf, ev, ev.out[1]), z>>
         ELSE <<ev.res = "ok" /\ ev.fin = 0, [z EXCEPT !.in = Append(@, ev), !.got = @ \o ev.out]>>
    [] ev.op = "bda" ->
         IF ~z.on THEN <<ev.out = <<>>, z>>
         ELSE <<IF z.s.kind = "combine" /\ "extra" \notin DOMAIN ev THEN ev.res = "err" /\ ev.out = <<>>
                ELSE /\ ev.res = "ok" /\ Len(ev.out) = 1 /\ ev.fin = 0 /\ Len(ev.out[1].rows) = Len(ev.rows)
                     /\ ev.out[1].names = <<"">>
                     /\ \A k \in DOMAIN ev.rows :
                          IF z.s.kind = "combine" THEN CombineRowOk(z.s, ev.rows[k], ev.out[1].rows[k])
                          ELSE ScaleRowOk(z.s, z.inf, ev.rows[k], ev.out[1].rows[k]), z>>
    [] ev.op = "finish" ->
         IF ~z.on THEN <<ev.out = <<>>, z>>
         ELSE <<ev.res = "ok" /\ ev.fin = 1 /\ AllGood(z.s, z.inf, z.in, z.got \o ev.out), z>>
    [] ev.op = "ms" ->
         IF ~z.on THEN <<TRUE, z>>
         ELSE <<ev.res = "ok" /\ (IF z.s.remove THEN TablesOk(z.o.names, ev.tables, ev.after) ELSE ev.after = ev.tables), z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
