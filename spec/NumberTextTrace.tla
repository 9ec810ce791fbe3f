-------------------------- MODULE NumberTextTrace --------------------------
EXTENDS NumberText, TraceBase
StartSt(ev) == 0
Judge(s, ev) ==
  <<CASE ev.op = "int"   -> IntOk(ev.type, ev.text, <<ev.res, ev.val>>)
      [] ev.op = "bool"  -> BoolOk(ev.text, <<ev.res, ev.bit>>)
      [] ev.op = "float" -> FloatOk(ev), s>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
