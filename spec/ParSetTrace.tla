---------------------------- MODULE ParSetTrace ----------------------------
EXTENDS ParSet, TraceBase

NSlots == 4
StartSt(ev) == [dead |-> FALSE, h |-> [n \in 1..NSlots |-> 1], s |-> <<EmptySet(ev.nc)>>]

SetOf(z, n) == z.s[z.h[n]]
Upd(z, n, S) == [z EXCEPT !.s[z.h[n]] = S]
NewAt(z, n, S) == [dead |-> FALSE, h |-> [z.h EXCEPT ![n] = Len(z.s) + 1], s |-> Append(z.s, S)]

KV(S) == LET l == Listing(S) IN [n \in 1..Len(l) |-> <<l[n].k, l[n].v>>]
Names(S) == LET l == UnusedOf(S) IN [n \in 1..Len(l) |-> l[n].k]
\* the whole observable content of the set behind a slot
Shows(z, n, all, unused) == all = KV(SetOf(z, n)) /\ unused = Names(SetOf(z, n))

\* <<result matches, next state>>
StepOf(z, ev) ==
  LET S == SetOf(z, ev.s) IN
  CASE ev.op = "make"    -> <<ev.res = "ok", NewAt(z, ev.s, EmptySet(ev.nc))>>
    [] ev.op = "copy"    -> <<ev.res = "ok", [z EXCEPT !.h[ev.s] = z.h[ev.t]]>>
    [] ev.op = "add"     -> IF Has(S, ev.k) THEN <<ev.res = "err", z>>
                            ELSE <<ev.res = "ok", Upd(z, ev.s, Put(S, ev.k, ev.v))>>
    [] ev.op = "replace" -> <<ev.res = "ok", Upd(z, ev.s, Over(S, ev.k, ev.v))>>
    [] ev.op = "remove"  -> <<ev.res = "ok", Upd(z, ev.s, Without(S, ev.k))>>
    [] ev.op = "clear"   -> <<ev.res = "ok", Upd(z, ev.s, [S EXCEPT !.m = {}])>>
    [] ev.op = "get"     -> <<IF Has(S, ev.k) THEN ev.res = "ok" /\ ev.val = Ent(S, ev.k).v
                              ELSE ev.res = "err", Upd(z, ev.s, Ask(S, ev.k))>>
    [] ev.op = "getd"    -> <<LET u == Unquote(Ent(S, ev.k).v) IN
                              IF ~Has(S, ev.k) THEN ev.res = "ok" /\ ev.val = ev.d
                              ELSE IF u.k = "err" THEN ev.res = "err"
                              ELSE ev.res = "ok" /\ ev.val = u.t, Upd(z, ev.s, Ask(S, ev.k))>>
    [] ev.op = "geti"    -> <<LET c == Convert("int", Ent(S, ev.k).v) IN
                              IF ~Has(S, ev.k) THEN (IF ev.hasd THEN ev.res = "ok" /\ ev.val = ev.d ELSE ev.res = "err")
                              ELSE Trim(Ent(S, ev.k).v) = <<>> \/ (c[1] = ev.res /\ (c[1] = "ok" => ev.val = c[2])),
                              Upd(z, ev.s, Ask(S, ev.k))>>
    [] ev.op = "look"    -> <<LookOk(S, ev), Upd(z, ev.s, Ask(S, ev.k))>>
    [] ev.op = "mod"     -> <<ev.res = "ok" /\ ev.val = (IF ev.full THEN FullModule(S, ev.k) ELSE Locate(S, ev.k)), z>>
    [] ev.op = "def"     -> <<ev.res = "ok" /\ ev.bit = Has(S, ev.k), z>>
    [] ev.op = "subset"  -> <<ev.res = "ok",
                              NewAt(Upd(z, ev.s, [S EXCEPT !.asked = @ \cup {e.n : e \in Matches(S, ev.base)}]),
                                    ev.t, SubsetOf(S, ev.base, ev.prefix))>>
    [] ev.op = "subtract" -> <<ev.res = "ok", Upd(z, ev.s, [S EXCEPT !.m = @ \ Matches(S, ev.base)])>>
    [] ev.op = "adopt"   -> LET l == Listing(SetOf(z, ev.t))
                                ps == [n \in 1..Len(l) |-> <<ev.prefix \o l[n].k, l[n].v>>]
                            IN <<ev.res = "ok",
                                 IF z.h[ev.s] = z.h[ev.t] /\ ev.prefix = <<>> THEN z
                                 ELSE Upd(z, ev.s, OverAll(S, ps))>>
    [] ev.op = "args"    -> LET ok1(a) == FindFrom(a, EQS, 1) # 0
                                l == SelectSeq(ev.args, ok1)
                                ps == [n \in 1..Len(l) |-> LET q == FindFrom(l[n], EQS, 1)
                                         IN <<SubSeq(l[n], 1, q - 1), Trim(Drop(l[n], q))>>]
                            IN <<ev.res = "ok", Upd(z, ev.s, OverAll(S, ps))>>
    [] ev.op = "text"    -> LET r == ReadText(ev.text, ev.prefix)
                            IN <<ev.res = r.k, Upd(z, ev.s, PutAll(S, r.ps))>>
    [] ev.op = "write"   -> <<ev.res = "ok" /\ ev.out = WriteText(S) /\ ev.file = ev.out /\ ev.twice = ev.out \o ev.out, z>>
    [] ev.op = "back"    -> \* written, then read into a fresh set in slot t
                            LET r == ReadText(WriteText(S), <<>>)
                            IN <<ev.res = r.k /\ RoundTrips(S),
                                 NewAt(z, ev.t, PutAll(EmptySet(S.nc), r.ps))>>

\* After a failed read the contents are open: the rest of the history counts
\* for nothing.
Judge(z, ev) ==
  IF z.dead THEN <<TRUE, z>>
  ELSE LET r == StepOf(z, ev)
       IN IF ev.op \in {"text", "back"} /\ ev.res = "err"
          THEN <<r[1], [z EXCEPT !.dead = TRUE]>>
          ELSE <<r[1] /\ Shows(r[2], ev.s, ev.all, ev.unused)
                 /\ ("all2" \in DOMAIN ev => Shows(r[2], ev.t, ev.all2, ev.unused2)), r[2]>>

TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
