--------------------------- MODULE StopwatchTrace ---------------------------
EXTENDS Stopwatch, TraceBase
NT == 3
StartSt(ev) == [now |-> 0, t |-> [k \in 1..NT |-> NewTimer], acc |-> 0]
\* observation: for each timer count and total (ms)
Same(z, ev) == /\ \A k \in 1..NT : ev.obs[k] = <<z.t[k].count, z.t[k].total>>
               /\ \A k \in 1..NT : z.t[k].count > 0 =>
                     LET a == ev.avg[k] * z.t[k].count IN a - z.t[k].total <= z.t[k].count /\ z.t[k].total - a <= z.t[k].count
               /\ \A k \in 1..NT : ev.used[k] = (z.t[k].count > 0)
               /\ \A k \in 1..NT : z.t[k].count > 0 => ev.shown[k] = z.t[k].count
               /\ ev.acc = z.acc
Go(z, ev) ==
  CASE ev.op = "tick"  -> [z EXCEPT !.now = @ + ev.d]
    [] ev.op = "start" -> [z EXCEPT !.t[ev.k] = Start(@, z.now)]
    [] ev.op = "stop"  -> [z EXCEPT !.t[ev.k] = Stop(@, z.now)]
    [] ev.op = "reset" -> [z EXCEPT !.t[ev.k] = Reset(@)]
    [] ev.op = "add"   -> [z EXCEPT !.t[ev.k] = Plus(@, z.t[ev.j])]
    [] ev.op = "copy"  -> [z EXCEPT !.t[ev.k] = z.t[ev.j]]
    [] ev.op = "scope" -> [z EXCEPT !.now = @ + ev.d, !.t[ev.k] = Stop(Start(@, z.now), z.now + ev.d)]
    [] ev.op = "throw" -> [z EXCEPT !.now = @ + ev.d, !.t[ev.k] = Stop(Start(@, z.now), z.now + ev.d)]
    [] ev.op = "accu"  -> [z EXCEPT !.now = @ + ev.d, !.acc = @ + 1000 * ev.d]
Judge(z, ev) ==
  IF ev.op = "pretty"
  THEN \* value num * 10^ex shown with 3 significant digits, num in 1..999
       <</\ ev.unit = IF ev.f THEN "Hz" ELSE "s"
         /\ ev.pre = Prefix(ev.e)
         /\ ev.thousandth = ev.num
         /\ ev.width >= 4, z>>
  ELSE LET n == Go(z, ev) IN <<Same(n, ev), n>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
