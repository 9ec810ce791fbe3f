------------------------------- MODULE ParSet -------------------------------
(* Parameter sets: a keyed store with text input, subsets, merging and       *)
(* accounting of the keys that were asked for (P04, P05, P06).               *)
(*                                                                           *)
(* State: handles (slots) refer to sets; copying a handle shares the set.    *)
(*   st.h   slot -> set id (0 = none)                                        *)
(*   st.s   id -> [nc, m, asked]                                             *)
(* A set's content m is a set of entries [n, k, v]: n identifies the key     *)
(* (case folded when keys are case-insensitive), k is its spelling.          *)
EXTENDS ValueText, SequencesExt

Norm(nc, k) == IF nc THEN UpperT(k) ELSE k
EmptySet(nc) == [nc |-> nc, m |-> {}, asked |-> {}]

Has(S, k) == \E e \in S.m : e.n = Norm(S.nc, k)
Ent(S, k) == CHOOSE e \in S.m : e.n = Norm(S.nc, k)
Less(a, b) == LexLess(a.n, b.n)
Listing(S) == SetToSortSeq(S.m, Less)

Without(S, k) == [S EXCEPT !.m = {e \in S.m : e.n # Norm(S.nc, k)}]
\* insert with this spelling
Put(S, k, v) == [S EXCEPT !.m = {e \in S.m : e.n # Norm(S.nc, k)}
                               \cup {[n |-> Norm(S.nc, k), k |-> k, v |-> v]}]
\* overwrite: an existing key keeps its spelling
Over(S, k, v) == IF Has(S, k) THEN Put(S, Ent(S, k).k, v) ELSE Put(S, k, v)
RECURSIVE OverAll(_, _)
OverAll(S, ps) == IF ps = <<>> THEN S ELSE OverAll(Over(S, ps[1][1], ps[1][2]), Tail(ps))
RECURSIVE PutAll(_, _)
PutAll(S, ps) == IF ps = <<>> THEN S ELSE PutAll(Put(S, ps[1][1], ps[1][2]), Tail(ps))

Ask(S, k) == IF Has(S, k) THEN [S EXCEPT !.asked = @ \cup {Norm(S.nc, k)}] ELSE S
UnusedOf(S) == LET l == Listing(S)
               IN SelectSeq(l, LAMBDA e : e.n \notin S.asked)

(************************** typed lookups ************************************)
\* What a value says when asked as some type: <<"ok", text>>, <<"err", _>>, or
\* <<"open", _>> where this specification makes no promise.
Asked(type, t) ==
  IF Trim(t) = <<>> /\ type # "string" THEN <<"open", <<>>>>
  ELSE IF type = "string" THEN LET u == Unquote(t) IN <<u.k, u.t>>
  ELSE IF type = "bool"
  THEN LET b == BoolConv(Trim(t)) IN IF b = 2 THEN <<"err", <<>>>> ELSE <<"ok", <<48 + b>>>>
  ELSE IF type \in {"float", "double"}
  THEN LET d == Denotes(Trim(t)) IN
       IF d.k = "int" /\ Len(d.mag) <= 6 /\ Len(Trim(t)) = Len(Printed(d)) THEN <<"ok", Printed(d)>>
       ELSE IF Trim(t) # <<>> /\ \A n \in 1..Len(t) : ~IsDigit(t[n]) /\ t[n] # 110 /\ t[n] # 78
            THEN <<"err", <<>>>>           \* no digit, no nan or inf
       ELSE <<"open", <<>>>>
  ELSE IF type = "time"
  THEN LET x == TimeOf(Trim(t)) IN
       IF Len(t) > 8 THEN <<"open", <<>>>>
       ELSE <<x[1], IF x[2] < 0 THEN <<MINUS>> \o NatText(0 - x[2]) ELSE NatText(x[2])>>
  ELSE Convert(IF type = "sizet" THEN "uint64" ELSE type, t)

\* array notation used here; the notation in general is ArrayText's subject
Expanded(t) ==
  IF t = <<91, 49, 46, 46, 51, 93>> THEN <<91, 49, 44, 50, 44, 51, 93>>             \* [1..3]
  ELSE IF t = <<91, 50, 42, 53, 44, 55, 93>> THEN <<91, 53, 44, 53, 44, 55, 93>>    \* [2*5,7]
  ELSE t

LookOk(S, ev) ==
  IF ~Has(S, ev.k) THEN IF ev.hasd THEN ev.res = "ok" /\ ev.vals = ev.ds ELSE ev.res = "err"
  ELSE LET v == Trim(Ent(S, ev.k).v)
           x == IF ev.vec THEN VectorOf(IF ev.expand THEN Expanded(v) ELSE v)
                ELSE [k |-> "ok", items |-> <<v>>]
           c == [n \in 1..Len(x.items) |-> Asked(ev.type, x.items[n])]
       IN IF x.k = "err" \/ \E n \in 1..Len(c) : c[n][1] = "err" THEN ev.res = "err"
          ELSE (\E n \in 1..Len(c) : c[n][1] = "open")
               \/ (ev.res = "ok" /\ ev.vals = [n \in 1..Len(c) |-> c[n][2]])

(*************************** modules in key names ****************************)
RECURSIVE Parts(_, _)
Parts(t, cur) ==
  IF t = <<>> THEN <<cur>>
  ELSE IF Head(t) = DOT THEN <<cur>> \o Parts(Tail(t), <<>>)
  ELSE Parts(Tail(t), Append(cur, Head(t)))
\* the module hierarchy of a key: all its parts but the last
Hierarchy(k) == LET p == Parts(k, <<>>) IN SubSeq(p, 1, Len(p) - 1)
\* where the parts q occur as a run ending latest in h; 0 = nowhere
LastRun(h, q) ==
  LET at == {n \in 1..(Len(h) - Len(q) + 1) : SubSeq(h, n, n + Len(q) - 1) = q}
  IN IF at = {} THEN 0 ELSE CHOOSE n \in at : \A m \in at : m <= n
Keys(S) == LET l == Listing(S) IN [n \in 1..Len(l) |-> l[n].k]
FirstWith(ks, P(_)) ==
  LET c == {n \in 1..Len(ks) : P(ks[n])} IN IF c = {} THEN 0 ELSE CHOOSE n \in c : \A m \in c : n <= m
\* the full name of the first module hierarchy containing q
FullModule(S, name) ==
  LET q == Parts(name, <<>>)
      n == FirstWith(Keys(S), LAMBDA k : LastRun(Hierarchy(k), q) # 0)
      h == Hierarchy(Keys(S)[n])
  IN IF n = 0 THEN <<>> ELSE Join(SubSeq(h, 1, LastRun(h, q) + Len(q) - 1), <<DOT>>)
\* what precedes the innermost module with this name
Locate(S, name) ==
  LET n == FirstWith(Keys(S), LAMBDA k : Len(Hierarchy(k)) >= 1 /\ Hierarchy(k)[Len(Hierarchy(k))] = name)
      h == Hierarchy(Keys(S)[n])
  IN IF n = 0 \/ Len(h) < 2 THEN <<>> ELSE Join(SubSeq(h, 1, Len(h) - 1), <<DOT>>) \o <<DOT>>

Matches(S, base) == {e \in S.m : HasPrefix(e.n, Norm(S.nc, base))}
SubsetOf(S, base, prefix) ==
  [nc |-> S.nc, asked |-> {},
   m |-> {[n |-> Norm(S.nc, prefix \o Drop(e.k, Len(base))),
           k |-> prefix \o Drop(e.k, Len(base)), v |-> e.v] : e \in Matches(S, base)}]

(**************************** parameter text *********************************)
\* A line is read left to right: quoted parts are taken whole, an unquoted
\* '#' ends it, an unquoted '=' ends a key.  Lines without '=' continue the
\* value of the current key.
RECURSIVE Lines(_, _)
Lines(t, cur) ==
  IF t = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF Head(t) = LF THEN <<cur>> \o Lines(Tail(t), <<>>)
  ELSE Lines(Tail(t), Append(cur, Head(t)))

\* code part of a line (without comment): [k, t, eq] with eq = position of '='
RECURSIVE CodeEnd(_, _, _)
CodeEnd(t, k, eq) ==
  IF k > Len(t) THEN [k |-> "ok", e |-> Len(t), eq |-> eq]
  ELSE IF IsQuote(t[k])
       THEN LET q == QuoteEnd(t, k)
            IN IF q = 0 THEN [k |-> "err", e |-> 0, eq |-> 0] ELSE CodeEnd(t, q + 1, eq)
  ELSE IF t[k] = HASH THEN [k |-> "ok", e |-> k - 1, eq |-> eq]
  ELSE CodeEnd(t, k + 1, IF t[k] = EQS /\ eq = 0 THEN k ELSE eq)

\* [k, key (<<>> if none), val]
LineOf(line) ==
  LET t == Trim(line)
      c == CodeEnd(t, 1, 0)
  IN IF t = <<>> \/ t[1] = HASH THEN [k |-> "skip", key |-> <<>>, val |-> <<>>]
     ELSE IF c.k = "err" THEN [k |-> "err", key |-> <<>>, val |-> <<>>]
     ELSE LET code == RTrim(SubSeq(t, 1, c.e))
              key == IF c.eq = 0 THEN [k |-> "ok", t |-> <<>>]
                     ELSE Unquote(Trim(SubSeq(t, 1, c.eq - 1)))
              raw == SubSeq(code, c.eq + 1, Len(code))
              v0 == IF raw # <<>> /\ raw[Len(raw)] = BSL THEN SubSeq(raw, 1, Len(raw) - 1) ELSE raw
          IN IF c.eq # 0 /\ (key.k = "err" \/ key.t = <<>>) THEN [k |-> "err", key |-> <<>>, val |-> <<>>]
             ELSE [k |-> IF c.eq = 0 THEN "cont" ELSE "pair", key |-> key.t, val |-> Trim(v0)]

Glue(a, b) == IF b = <<>> THEN a ELSE IF a = <<>> THEN b
              ELSE IF IsQuote(b[1]) THEN a \o b ELSE a \o <<SP>> \o b

\* pairs of a text, in order; text before the first key belongs to no key
RECURSIVE ReadLines(_, _, _, _)
ReadLines(ls, prefix, cur, out) ==
  LET done == IF cur = <<>> THEN out ELSE Append(out, cur)
  IN IF ls = <<>> THEN [k |-> "ok", ps |-> done]
     ELSE LET l == LineOf(Head(ls))
          IN CASE l.k = "err"  -> [k |-> "err", ps |-> done]
               [] l.k = "skip" -> ReadLines(Tail(ls), prefix, cur, out)
               [] l.k = "pair" -> ReadLines(Tail(ls), prefix, <<prefix \o l.key, l.val>>, done)
               [] l.k = "cont" -> ReadLines(Tail(ls), prefix,
                                    IF cur = <<>> THEN cur ELSE <<cur[1], Glue(cur[2], l.val)>>, out)
ReadText(t, prefix) == ReadLines(Lines(t, <<>>), prefix, <<>>, <<>>)

WriteText(S) == LET l == Listing(S)
                IN Concat([n \in 1..Len(l) |-> l[n].k \o <<EQS>> \o l[n].v \o <<LF>>])

(* Writing and reading back is lossless for sets whose keys need no quoting  *)
(* and whose values are complete values of the text form.                    *)
PlainKey(k) == /\ k # <<>> /\ Trim(k) = k
               /\ \A n \in 1..Len(k) : k[n] \notin {EQS, HASH, SQ, DQ, LF}
PlainVal(v) == LET l == LineOf(<<120, EQS>> \o v)
               IN /\ l.k = "pair" /\ l.val = v
                  /\ LF \notin {v[n] : n \in 1..Len(v)}
RoundTrips(S) ==
  (\A e \in S.m : PlainKey(e.k) /\ PlainVal(e.v))
    => LET r == ReadText(WriteText(S), <<>>)
       IN r.k = "ok" /\ PutAll(EmptySet(S.nc), r.ps).m = S.m
=============================================================================
