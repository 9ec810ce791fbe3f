---------------------------- MODULE PredictTrace ----------------------------
EXTENDS Predict, TraceBase
StartSt(ev) == 0
Judge(z, ev) ==
  <<CASE ev.op = "sim"    -> SimOk(ev)
      [] ev.op = "split"  -> SplitOk(ev)
      [] ev.op = "lmn"    -> LmnOk(ev)
      [] ev.op = "rotate" -> RotateOk(ev)
      [] ev.op = "shift"  -> ShiftOk(ev), z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
