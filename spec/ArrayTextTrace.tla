--------------------------- MODULE ArrayTextTrace ---------------------------
EXTENDS ArrayText, TraceBase
StartSt(ev) == 0
Judge(s, ev) ==
  <<CASE ev.op = "expand" -> ExpandOk(ev)
      [] ev.op = "plain"  -> PlainOk(ev)
      [] ev.op = "bad"    -> BadOk(ev)
      [] ev.op = "glob"   -> ev.match = Glob(ev.pat, ev.text)
      [] ev.op = "tok"    -> ev.toks = Tokens(ev.text, ToSet(ev.delims), <<>>), s>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
