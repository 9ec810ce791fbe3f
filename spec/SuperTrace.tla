----------------------------- MODULE SuperTrace -----------------------------
EXTENDS Super, TraceBase
StartSt(ev) == [on |-> FALSE]
Judge(z, ev) ==
  CASE ev.op = "make" ->
         IF Unusable(ev.step, ev.info) THEN <<ev.res = "err", [on |-> FALSE]>>
         ELSE <<ev.res = "ok" /\ SuperInfoOk(ev.step, ev.info, ev.out), [on |-> TRUE, s |-> ev.step, inf |-> ev.info, o |-> ev.out]>>
    [] ev.op = "buf" ->
         IF ~z.on THEN <<ev.out = <<>>, z>>
         ELSE <<ev.res = "ok" /\ Len(ev.out) = 1 /\ ev.fin = 0 /\ SuperOk(z.s, z.inf, z.o, ev, ev.out[1]), z>>
    [] ev.op = "finish" ->
         IF ~z.on THEN <<ev.out = <<>>, z>> ELSE <<ev.res = "ok" /\ ev.fin = 1 /\ ev.out = <<>>, z>>
    [] ev.op = "ms" ->
         IF ~z.on THEN <<TRUE, z>> ELSE <<ev.res = "ok" /\ SuperTablesOk(z.s, z.inf, z.o, ev.tables, ev.after), z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
