--------------------------- MODULE ValueTextTrace ---------------------------
EXTENDS ValueText, TraceBase
StartSt(ev) == 0
Judge(s, ev) ==
  <<CASE ev.op = "vec"   -> VecOk(ev)
      [] ev.op = "str"   -> StrOk(ev)
      [] ev.op = "rec"   -> RecOk(ev)
      [] ev.op = "typed" -> TypedOk(ev)
      [] ev.op = "boolvec" -> BoolVecOk(ev)
      [] ev.op = "strvec" -> StrVecOk(ev)
      [] ev.op = "time"  -> TimeOk(ev), s>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
