---------------------------- MODULE BuffersTrace ----------------------------
EXTENDS Buffers, TraceBase
\* state: the live buffers by handle
StartSt(ev) == [b |-> <<>>]
Shows(bs, all, kind) ==
  /\ Len(all) = Cardinality(DOMAIN bs)
  /\ \A k \in 1..Len(all) : all[k].h \in DOMAIN bs
        /\ IF kind = "reg" THEN ShowsReg(bs[all[k].h], all[k]) ELSE ShowsBda(bs[all[k].h], all[k])

Put1(z, h, v) == [b |-> Put(z.b, h, v)]
Next(z, ev) ==
  CASE ev.op = "make"  -> Put1(z, ev.h, NewReg(ev.t, ev.exp))
    [] ev.op = "set"   -> Put1(z, ev.h, LET b == z.b[ev.h] IN
                            CASE ev.field = "data" -> [b EXCEPT !.d = Put(b.d, ev.name, ev.a)]
                              [] ev.field = "flags" -> [b EXCEPT !.f = ev.a]
                              [] ev.field = "weights" -> [b EXCEPT !.w = ev.a]
                              [] ev.field = "uvw" -> [b EXCEPT !.u = ev.a])
    [] ev.op = "time"  -> Put1(z, ev.h, [z.b[ev.h] EXCEPT !.t = ev.t, !.exp = ev.exp])
    [] ev.op = "rows"  -> Put1(z, ev.h, [z.b[ev.h] EXCEPT !.rows = ev.rows])
    [] ev.op = "add"   -> Put1(z, ev.h, [z.b[ev.h] EXCEPT !.d = Put(@, ev.name, ev.a)])
    [] ev.op = "shapeadd" -> Put1(z, ev.h, [z.b[ev.h] EXCEPT !.d = Put(@, ev.name, Zero(z.b[ev.h].d[""].s))])
    [] ev.op = "remove" -> Put1(z, ev.h, [z.b[ev.h] EXCEPT !.d = IF ev.name = "" THEN ("" :> @[""]) ELSE Without(@, ev.name)])
    [] ev.op = "copyctor" -> Put1(z, ev.g, z.b[ev.h])
    [] ev.op = "copyfields" -> Put1(z, ev.g, CopyFields(NewReg(0, 0), z.b[ev.h], ev.fields, FALSE))
    [] ev.op \in {"movector", "moveassign"} ->
         IF ev.g = ev.h THEN z ELSE [b |-> Put(Without(z.b, ev.h), ev.g, z.b[ev.h])]
    [] ev.op = "assign" -> Put1(z, ev.g, z.b[ev.h])
    [] ev.op = "copy"  -> IF ev.g = ev.h THEN z ELSE Put1(z, ev.g, CopyFields(z.b[ev.g], z.b[ev.h], ev.fields, ev.extra))
    [] ev.op = "copydata" -> Put1(z, ev.g, [z.b[ev.g] EXCEPT !.d = Put(@, ev.tgt, z.b[ev.h].d[ev.src])])
    [] ev.op = "movedata" ->
         LET moved == z.b[ev.h].d[ev.src]
             src == IF ev.src = "" THEN [z.b[ev.h] EXCEPT !.d = Put(@, "", ev.a)]
                    ELSE [z.b[ev.h] EXCEPT !.d = Without(@, ev.src)]
             z1 == Put1(z, ev.h, src)
         IN Put1(z1, ev.g, [z1.b[ev.g] EXCEPT !.d = Put(@, ev.tgt, moved)])
    [] ev.op = "take"  -> Put1(z, ev.h, [z.b[ev.h] EXCEPT !.d = Put(@, "", ev.a), !.w = ev.aw])
    [] ev.op = "poke"  -> Put1(z, ev.h, [z.b[ev.h] EXCEPT !.d = Put(@, ev.name, [@[ev.name] EXCEPT !.v[ev.k + 1] = ev.v])])
    [] ev.op = "solve" -> Put1(z, ev.h, [z.b[ev.h] EXCEPT !.sol = AddSol(@, ev.dirs, ev.sol, ev.nant, ev.npol, 1)])
    [] ev.op = "nodata" -> z
    \* baseline-dependent
    [] ev.op = "bmake" -> Put1(z, ev.h, NewBda(ev.cap, ev.fields))
    [] ev.op = "row"   -> IF Misplaced(z.b[ev.h], ev) \/ ~Fits(z.b[ev.h], ev) THEN z
                          ELSE Put1(z, ev.h, AddRowTo(z.b[ev.h], ev))
    [] ev.op = "clear" -> Put1(z, ev.h, LET b == z.b[ev.h] IN
                            [b EXCEPT !.n = 0, !.rows = <<>>, !.d = [x \in DOMAIN @ |-> <<>>], !.f = <<>>, !.w = <<>>])
    [] ev.op = "badd"  -> IF ev.name \in DOMAIN z.b[ev.h].d THEN z
                          ELSE Put1(z, ev.h, [z.b[ev.h] EXCEPT !.d = Put(@, ev.name, Unknown(z.b[ev.h]))])
    [] ev.op = "bremove" -> Put1(z, ev.h, [z.b[ev.h] EXCEPT !.d = Without(@, ev.name)])
    [] ev.op = "bmove" ->
         IF ev.g = ev.h /\ ev.src = ev.tgt THEN z
         ELSE LET moved == z.b[ev.h].d[ev.src]
                  z1 == Put1(z, ev.h, [z.b[ev.h] EXCEPT !.d = Without(@, ev.src)])
              IN Put1(z1, ev.g, [z1.b[ev.g] EXCEPT !.d = Put(@, ev.tgt, moved)])
    [] ev.op = "bcopy" -> Put1(z, ev.g, CopyBda(z.b[ev.h], ev.fields))
    [] ev.op = "bfill" -> Put1(z, ev.h, LET b == z.b[ev.h] IN
                            [b EXCEPT !.d = IF ev.name \in DOMAIN @ THEN Put(@, ev.name, [@[ev.name] EXCEPT ![ev.k + 1] = ev.d]) ELSE @,
                                      !.f = IF b.hf THEN [@ EXCEPT ![ev.k + 1] = ev.f] ELSE @,
                                      !.w = IF b.hw THEN [@ EXCEPT ![ev.k + 1] = ev.w] ELSE @])
    [] ev.op = "same" -> z
Answer(z, ev) ==
  CASE ev.op = "row" -> ev.res = (IF Misplaced(z.b[ev.h], ev) THEN "err" ELSE IF Fits(z.b[ev.h], ev) THEN "yes" ELSE "no")
    [] ev.op = "same" -> LET e == (z.b[ev.h].rows = z.b[ev.g].rows) IN ev.same = e /\ ev.emas = e
    [] ev.op = "take" -> ev.gotd = z.b[ev.h].d[""] /\ ev.gotw = z.b[ev.h].w /\ ev.left = 0
    [] ev.op = "nodata" -> ev.thrown
    [] OTHER -> TRUE
Judge(z, ev) == LET n == Next(z, ev) IN <<Answer(z, ev) /\ Shows(n.b, ev.all, ev.kind), n>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
