------------------------------ MODULE ValueText ------------------------------
(* Structured parameter values: vectors, records and quoted strings (P03).   *)
(*                                                                           *)
(* The splitter is specified as a scanner: one transition per character (or  *)
(* per quoted part), with the nesting depth of each bracket kind as state.   *)
EXTENDS NumberText

Fail == [k |-> "err", items |-> <<>>]

\* end of the quoted part starting at k, or 0 when the quote is not closed
QuoteEnd(t, k) == FindFrom(t, t[k], k + 1)

ScanInit == [par |-> 0, bra |-> 0, cur |-> 0, start |-> 1, out |-> <<>>]

\* one unquoted character c at position k; start = where the current item began
ScanChar(s, t, k) ==
  LET c == t[k]
      par == s.par + (IF c = LPAR THEN 1 ELSE IF c = RPAR THEN -1 ELSE 0)
      bra == s.bra + (IF c = LBRA THEN 1 ELSE IF c = RBRA THEN -1 ELSE 0)
      cur == s.cur + (IF c = LCUR THEN 1 ELSE IF c = RCUR THEN -1 ELSE 0)
      top == c = COMMA /\ s.par = 0 /\ s.bra = 0 /\ s.cur = 0
  IN [par |-> par, bra |-> bra, cur |-> cur,
      start |-> IF top THEN k + 1 ELSE s.start,
      out |-> IF top THEN Append(s.out, Trim(SubSeq(t, s.start, k - 1))) ELSE s.out]

ScanBad(s, c) == \/ s.par < 0 \/ s.bra < 0 \/ s.cur < 0
                 \/ (c \in {LBRA, LCUR} /\ s.par # 0)

RECURSIVE Scan(_, _, _)
Scan(t, k, s) ==
  IF k > Len(t)
  THEN IF s.par = 0 /\ s.bra = 0 /\ s.cur = 0
       THEN [k |-> "ok", items |-> Append(s.out, Trim(SubSeq(t, s.start, Len(t))))]
       ELSE Fail
  ELSE IF IsQuote(t[k])
       THEN LET e == QuoteEnd(t, k) IN IF e = 0 THEN Fail ELSE Scan(t, e + 1, s)
       ELSE LET s2 == ScanChar(s, t, k)
            IN IF ScanBad(s2, t[k]) THEN Fail ELSE Scan(t, k + 1, s2)

\* items between the outer brackets
Split(inner) == IF Trim(inner) = <<>> THEN [k |-> "ok", items |-> <<>>]
                ELSE Scan(inner, 1, ScanInit)

Enclosed(v, o, c) == Len(v) >= 2 /\ v[1] = o /\ v[Len(v)] = c
Inner(v) == SubSeq(v, 2, Len(v) - 1)

\* vector of a (trimmed) value
VectorOf(v) ==
  IF v = <<>> THEN [k |-> "ok", items |-> <<>>]
  ELSE IF Enclosed(v, LBRA, RBRA) THEN Split(Inner(v))
  ELSE [k |-> "ok", items |-> <<v>>]

\* text with the quotes taken off its quoted parts
RECURSIVE UnquoteFrom(_, _)
UnquoteFrom(t, k) ==
  IF k > Len(t) THEN [k |-> "ok", t |-> <<>>]
  ELSE IF IsQuote(t[k])
       THEN LET e == QuoteEnd(t, k)
            IN IF e = 0 THEN [k |-> "err", t |-> <<>>]
               ELSE LET r == UnquoteFrom(t, e + 1)
                    IN [k |-> r.k, t |-> SubSeq(t, k + 1, e - 1) \o r.t]
       ELSE LET r == UnquoteFrom(t, k + 1) IN [k |-> r.k, t |-> <<t[k]>> \o r.t]
Unquote(t) == LET r == UnquoteFrom(t, 1)
              IN IF r.k = "ok" THEN r ELSE [k |-> "err", t |-> <<>>]

\* one record item "name : value"
Field(item) ==
  LET st == IF item # <<>> /\ IsQuote(item[1]) THEN QuoteEnd(item, 1) + 1 ELSE 1
      c == IF item # <<>> /\ IsQuote(item[1]) /\ QuoteEnd(item, 1) = 0 THEN 0
           ELSE FindFrom(item, COLON, st)
      nm == IF c = 0 THEN [k |-> "err", t |-> <<>>] ELSE Unquote(Trim(SubSeq(item, 1, c - 1)))
  IN IF nm.k = "err" THEN [k |-> "err", name |-> <<>>, val |-> <<>>]
     ELSE [k |-> "ok", name |-> nm.t, val |-> Trim(Drop(item, c))]

RecordOf(v) ==
  IF ~Enclosed(v, LCUR, RCUR) THEN [k |-> "err", fields |-> {}]
  ELSE LET sp == Split(Inner(v))
           fs == [n \in 1..Len(sp.items) |-> Field(sp.items[n])]
       IN IF \/ sp.k = "err"
             \/ \E n \in 1..Len(fs) : fs[n].k = "err"
             \/ \E n, m \in 1..Len(fs) : n # m /\ fs[n].name = fs[m].name
          THEN [k |-> "err", fields |-> {}]
          ELSE [k |-> "ok", fields |-> {<<fs[n].name, fs[n].val>> : n \in 1..Len(fs)}]

\* a value that is one balanced item of its own
Single(v) == LET s == Scan(v, 1, ScanInit) IN s.k = "ok" /\ Len(s.items) = 1

Pairs(seq) == {<<seq[n][1], seq[n][2]>> : n \in 1..Len(seq)}
Sorted(seq) == \A n \in 1..(Len(seq) - 1) : LexLess(seq[n][1], seq[n + 1][1])

VecOk(ev) ==
  LET v == Trim(ev.text)
      x == VectorOf(v)
  IN /\ ev.res = x.k
     /\ ev.items = x.items
     /\ (v # <<>> => ev.isvec = (v[1] = LBRA) /\ ev.isrec = (v[1] = LCUR))
StrOk(ev) == LET u == Unquote(Trim(ev.text)) IN ev.res = u.k /\ ev.out = u.t
RecOk(ev) ==
  LET r == RecordOf(Trim(ev.text))
  IN /\ ev.res = r.k
     /\ Pairs(ev.fields) = r.fields
     /\ Len(ev.fields) = Cardinality(r.fields)
     /\ Sorted(ev.fields)
     \* printing a record and reading it back gives the same record
     /\ (ev.res = "ok" /\ \A n \in 1..Len(ev.fields) :
            /\ \A m \in 1..Len(ev.fields[n][1]) : ev.fields[n][1][m] # SQ
            /\ Single(ev.fields[n][2]))
         => (ev.back = "ok" /\ ev.fields2 = ev.fields)

\* typed vectors: all or nothing
TypedOk(ev) ==
  LET x == VectorOf(Trim(ev.text))
      conv == [n \in 1..Len(x.items) |-> Convert(ev.type, x.items[n])]
      blank == \E n \in 1..Len(x.items) : x.items[n] = <<>>
  IN blank \/
     IF x.k = "err" \/ \E n \in 1..Len(conv) : conv[n][1] = "err"
     THEN ev.res = "err"
     ELSE ev.res = "ok" /\ ev.items = [n \in 1..Len(conv) |-> conv[n][2]]
BoolConv(t) == IF t = <<>> THEN 2 ELSE IF t[1] \in BoolTrue THEN 1 ELSE IF t[1] \in BoolFalse THEN 0 ELSE 2
BoolVecOk(ev) ==
  LET x == VectorOf(Trim(ev.text))
      conv == [n \in 1..Len(x.items) |-> BoolConv(x.items[n])]
  IN IF x.k = "err" \/ \E n \in 1..Len(conv) : conv[n] = 2 THEN ev.res = "err"
     ELSE ev.res = "ok" /\ ev.items = conv
StrVecOk(ev) ==
  LET x == VectorOf(Trim(ev.text))
      conv == [n \in 1..Len(x.items) |-> Unquote(x.items[n])]
  IN IF x.k = "err" \/ \E n \in 1..Len(conv) : conv[n].k = "err" THEN ev.res = "err"
     ELSE ev.res = "ok" /\ ev.items = [n \in 1..Len(conv) |-> conv[n].t]

\* durations: a whole number of seconds, minutes or hours
TimeOf(t) ==
  LET s == IF t # <<>> /\ t[1] = MINUS THEN 2 ELSE 1
      e == SkipIn(t, s, Digits)
      n == TextNat(SubSeq(t, s, e - 1)) * (IF s = 2 THEN -1 ELSE 1)
      u == SkipIn(t, e, Spaces)
      unit == IF u > Len(t) THEN 115 ELSE Lower(t[u])
  IN IF e = s THEN <<"err", 0>>
     ELSE <<"ok", IF unit = 109 THEN n * 60 ELSE IF unit = 104 THEN n * 3600 ELSE n>>
TimeOk(ev) == <<ev.res, ev.secs>> = TimeOf(Trim(ev.text))
=============================================================================
