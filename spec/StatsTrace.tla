----------------------------- MODULE StatsTrace -----------------------------
EXTENDS Stats, TraceBase
StartSt(ev) == <<>>
Judge(z, ev) == <<ev.res = Median2(ev.v) /\ SameBag(ev.v, ev.left), z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
