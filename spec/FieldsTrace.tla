---------------------------- MODULE FieldsTrace ----------------------------
EXTENDS Fields, TraceBase
SetOf(q) == {q[k] : k \in 1..Len(q)}
StartSt(ev) == [need |-> {}, chain |-> <<>>]
Shown(S) == LET l == SelectSeq(FieldNames, LAMBDA f : f \in S) IN l
Judge(z, ev) ==
  CASE ev.op = "step" ->     \* the chain grows at the front
         LET s == [req |-> SetOf(ev.req), prov |-> SetOf(ev.prov)]
             c == <<s>> \o z.chain
             n == Before(z.need, s)
         IN <<ev.obs = Shown(n) /\ ev.text = Shown(n)
              /\ (\A f \in AllFields : f \in n <=> ReadBeforeCreated(c, f)),
              [need |-> n, chain |-> c]>>
    [] ev.op = "or" ->       \* combining requirements of parallel chains
         LET n == z.need \cup SetOf(ev.req)
         IN <<ev.obs = Shown(n) /\ ev.obs2 = Shown(n) /\ ev.text = Shown(n), z>>
    [] ev.op = "eq" ->
         <<ev.eq = (SetOf(ev.a) = SetOf(ev.b)) /\ ev.ne = ~ev.eq, z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
