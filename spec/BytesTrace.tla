----------------------------- MODULE BytesTrace -----------------------------
EXTENDS Bytes, TraceBase
StartSt(ev) == <<>>
Judge(z, ev) ==
  <<CASE ev.op = "swap" -> ev.out = Swapped(ev["in"], ev.w, ev.n)
                           /\ (ev.kept => ev.src = ev["in"])
      [] ev.op = "pack" -> \* values into bits [start, start + n); the bits before
                           \* start and the bytes not used stay as they were
           /\ ev.ret = BytesUsed(Len(ev.v), ev.start)
           /\ Len(ev.out) = Len(ev.buf)
           /\ \A j \in 0..(Len(ev.v) - 1) : Bit(ev.out, ev.start + j) = ev.v[j + 1]
           /\ \A j \in 0..(ev.start - 1) : Bit(ev.out, j) = Bit(ev.buf, j)
           /\ \A k \in 1..Len(ev.buf) : k > ev.start \div 8 + ev.ret => ev.out[k] = ev.buf[k]
      [] ev.op = "unpack" ->
           /\ ev.ret = BytesUsed(ev.n, ev.start)
           /\ Len(ev.v) = ev.n
           /\ \A j \in 0..(ev.n - 1) : ev.v[j + 1] = Bit(ev.buf, ev.start + j)
           /\ ev.src = ev.buf,
    z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
