--------------------------- MODULE BaselinesTrace ---------------------------
EXTENDS Baselines, TraceBase
StartSt(ev) == <<>>
Judge(z, ev) ==
  <<CASE ev.op = "count" -> ev.res = NBaselines(ev.n)
      [] ev.op = "pair"  -> LET k == Number(ev.a, ev.b, ev.n, ev.order)
                            IN ev.index = k /\ ev.back = <<Lo(ev.a, ev.b), Hi(ev.a, ev.b)>>
      [] ev.op = "list"  -> ev.res = [q \in 1..ev.n |-> Number(ev.a, q - 1, ev.n, ev.order)]
      \* the whole inverse enumeration of n antennas
      [] ev.op = "walk"  -> /\ Len(ev.pairs) = NBaselines(ev.n)
                            /\ \A q \in 1..Len(ev.pairs) :
                                 LET p == ev.pairs[q]
                                 IN p[1] <= p[2] /\ p[2] < ev.n /\ Number(p[1], p[2], ev.n, ev.order) = q - 1,
    z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
