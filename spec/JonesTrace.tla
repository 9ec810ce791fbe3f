----------------------------- MODULE JonesTrace -----------------------------
EXTENDS Jones, TraceBase
StartSt(ev) == IF "pos" \in DOMAIN ev THEN [pos |-> ev.pos, strides |-> ev.strides] ELSE [pos |-> 0, strides |-> <<1>>]

NewBuf(ev, F(_, _, _)) ==
  [k \in 1..Len(ev.buf) |->
     LET w == Where(ev.s, ev.nc, Len(ev.bl), k - 1)
     IN IF w = {} THEN ev.buf[k]
        ELSE LET x == CHOOSE y \in w : TRUE IN F(x[1], x[2], x[3])]

ApplyRes(ev) == NewBuf(ev, LAMBDA c, ch, b :
  IF ev.bl[b + 1][1] = ev.bl[b + 1][2] THEN ev.buf[Off(ev.s, c, ch, b) + 1]
  ELSE Applied(ev.co, ev.cs, ev.bl[b + 1][1], ev.bl[b + 1][2], VisAt(ev.buf, ev.s, ch, b))[c + 1])

\* a missing (NaN) visibility is <<>>
Minus(d, w, m) == IF d = <<>> THEN <<>> ELSE CSub(d, CMul(w, m))
SubRes(ev) == NewBuf(ev, LAMBDA c, ch, b :
  IF ev.bl[b + 1][1] = ev.bl[b + 1][2] THEN ev.buf[Off(ev.s, c, ch, b) + 1]
  ELSE Minus(ev.buf[Off(ev.s, c, ch, b) + 1], ev.w[Off(ev.ws, c, ch, b) + 1], ev.m[Off(ev.ms, c, ch, b) + 1]))
RECURSIVE SumNorm(_, _)
SumNorm(buf, S) == IF S = {} THEN 0
                   ELSE LET k == CHOOSE x \in S : TRUE
                        IN (IF buf[k + 1] = <<>> THEN 0 ELSE CNorm(buf[k + 1])) + SumNorm(buf, S \ {k})
Parallel(ev) == {Off(ev.s, c, ch, b) : c \in {0, 3}, ch \in 0..(ev.nc - 1),
                   b \in {x \in 0..(Len(ev.bl) - 1) : ev.bl[x + 1][1] # ev.bl[x + 1][2]}}
Near(a, b) == a - b <= 1 + (b \div 5000) /\ b - a <= 1 + (b \div 5000)

Judge(z, ev) ==
  CASE ev.op = "apply" -> <<ev.out = ApplyRes(ev), z>>
    [] ev.op = "sub"   -> <</\ ev.out = SubRes(ev)
                            /\ Near(ev.before, SumNorm(ev.buf, Parallel(ev)))
                            /\ Near(ev.after, SumNorm(ev.out, Parallel(ev))), z>>
    \* cursors: the position after each move
    [] ev.op = "cur"   ->
         LET s0 == z.strides[1]
             p == CASE ev.mv = "inc"  -> z.pos + s0
                    [] ev.mv = "post" -> z.pos + s0
                    [] ev.mv = "plus" -> z.pos + ev.n * s0
                    [] ev.mv = "minus" -> z.pos - ev.n * s0
                    [] ev.mv = "fwd"  -> z.pos + z.strides[ev.ax + 1]
                    [] ev.mv = "fwdn" -> z.pos + ev.n * z.strides[ev.ax + 1]
                    [] ev.mv = "bwd"  -> z.pos - z.strides[ev.ax + 1]
                    [] ev.mv = "bwdn" -> z.pos - ev.n * z.strides[ev.ax + 1]
                    [] ev.mv = "stay" -> z.pos
         IN <<ev.at = p /\ ev.cat = p /\ ev.val = p /\ ev.ahead = p + ev.look * s0
              /\ (ev.mv = "post" => ev.old = z.pos) /\ ev.rank = Len(z.strides)
              /\ ev.strides = z.strides, [z EXCEPT !.pos = p]>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
