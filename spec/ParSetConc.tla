----------------------------- MODULE ParSetConc -----------------------------
(* Concurrent use of one parameter set (P07): every operation takes effect   *)
(* at one instant.  A concurrent execution is accepted when some order of    *)
(* its operations, keeping each thread's own order, explains every answer    *)
(* and the final contents.                                                   *)
EXTENDS ParSet, TraceBase

\* [acc, S]: does the operation's answer fit, and the set afterwards
Do(S, o) ==
  CASE o.op = "add" -> IF Has(S, o.k) THEN [acc |-> o.res = "err", S |-> S]
                       ELSE [acc |-> o.res = "ok", S |-> Put(S, o.k, o.v)]
    [] o.op \in {"replace", "args"} -> [acc |-> o.res = "ok", S |-> Over(S, o.k, o.v)]
    [] o.op = "textadd" -> [acc |-> o.res = "ok", S |-> Put(S, o.k, o.v)]
    [] o.op = "remove" -> [acc |-> o.res = "ok", S |-> Without(S, o.k)]
    [] o.op = "get" -> [acc |-> IF Has(S, o.k) THEN o.res = "ok" /\ o.out = Ent(S, o.k).v ELSE o.res = "err",
                        S |-> Ask(S, o.k)]
    [] o.op = "getd" -> [acc |-> o.res = "ok" /\ o.out = (IF Has(S, o.k) THEN Ent(S, o.k).v ELSE o.v),
                         S |-> Ask(S, o.k)]
    [] o.op = "has" -> [acc |-> o.res = (IF Has(S, o.k) THEN "yes" ELSE "no"), S |-> S]
    [] o.op = "vec" -> [acc |-> o.res = "ok" /\ o.list = <<IF Has(S, o.k) THEN Ent(S, o.k).v ELSE o.v>>,
                        S |-> Ask(S, o.k)]
    [] o.op = "self" -> [acc |-> o.res = "ok",
                         S |-> LET l == Listing(S) IN OverAll(S, [n \in 1..Len(l) |-> <<o.v \o l[n].k, l[n].v>>])]
    [] o.op = "subtract" -> [acc |-> o.res = "ok", S |-> [S EXCEPT !.m = @ \ Matches(S, o.k)]]
    [] o.op = "subset" -> [acc |-> o.res = "ok" /\ o.list = Keys(SubsetOf(S, o.k, o.v)),
                           S |-> [S EXCEPT !.asked = @ \cup {e.n : e \in Matches(S, o.k)}]]
    [] o.op = "unused" -> [acc |-> LET l == UnusedOf(S) IN o.list = [n \in 1..Len(l) |-> l[n].k], S |-> S]
    [] o.op = "write" -> [acc |-> o.out = WriteText(S), S |-> S]

\* set of contents reachable after consuming pc[t] operations of each thread
RECURSIVE Reach(_, _, _)
Reach(th, pc, Ss) ==
  \* Ss: function from pc-vectors at one level; explored level by level
  LET T == 1..Len(th)
      total == LET RECURSIVE Sum(_) Sum(k) == IF k = 0 THEN 0 ELSE Len(th[k]) + Sum(k - 1) IN Sum(Len(th))
  IN IF pc = total THEN Ss
     ELSE Reach(th, pc + 1,
            UNION {UNION {LET p == x.pc[t] IN
                            IF p >= Len(th[t]) THEN {}
                            ELSE LET r == Do(x.S, th[t][p + 1])
                                 IN IF r.acc THEN {[pc |-> [x.pc EXCEPT ![t] = p + 1], S |-> r.S]} ELSE {}
                          : t \in T} : x \in Ss})

RECURSIVE Fill(_, _)
Fill(S, ps) == IF ps = <<>> THEN S ELSE Fill(Put(S, ps[1][1], ps[1][2]), Tail(ps))

StartSt(ev) == 0
Judge(z, ev) ==
  LET S0 == Fill(EmptySet(ev.nc), ev.pre)
      fin == Reach(ev.threads, 0, {[pc |-> [t \in 1..Len(ev.threads) |-> 0], S |-> S0]})
  IN <<\E x \in fin :
          /\ ev.all = LET l == Listing(x.S) IN [n \in 1..Len(l) |-> <<l[n].k, l[n].v>>]
          /\ ev.unused = LET l == UnusedOf(x.S) IN [n \in 1..Len(l) |-> l[n].k], z>>
TInit == Open(StartSt)
TNext == Advance(Judge)
=============================================================================
