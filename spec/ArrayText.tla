------------------------------ MODULE ArrayText ------------------------------
(* Compact notation for lists of values, its text form and its meaning (P02).*)
(*                                                                           *)
(* An array is a tree.  Render gives the text a user writes, Denote the list *)
(* of element texts it stands for.  Expansion is right when the expanded     *)
(* text, split on its top-level commas, is exactly the denoted list.         *)
(*   atom   plain text without notation                                      *)
(*   quote  text between quotes: never expanded                              *)
(*   mult   n*value                                                          *)
(*   paren  (v;v,..): only as multiplied value, stands for its members       *)
(*   list   [v,v,..]: one element, its members expanded in place             *)
(*   range  pre NN..MM post, optionally chained and with braces              *)
EXTENDS Text

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE s \o Repeat(s, n - 1)

\* The numbers of a range in writing order, zero padded to the first's width
RangeNums(from, to) ==
  LET a == TextNat(from)
      b == TextNat(to)
      w == Len(from)
  IN IF a < b THEN [k \in 1..(b - a + 1) |-> PadNat(a + k - 1, w)]
     ELSE [k \in 1..(a - b + 1) |-> PadNat(a - k + 1, w)]

\* All combinations of a chain of parts, first part slowest
RECURSIVE RangeTexts(_, _)
RangeTexts(parts, k) ==
  IF k > Len(parts) THEN <<<<>>>>
  ELSE LET p == parts[k]
           nums == RangeNums(p.from, p.to)
           rest == RangeTexts(parts, k + 1)
       IN Concat([n \in 1..Len(nums) |->
            [r \in 1..Len(rest) |-> p.pre \o nums[n] \o p.post \o rest[r]]])

RECURSIVE RenderParts(_)
RenderParts(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps)
           lb == IF p.brace THEN <<LCUR>> ELSE <<>>
           rb == IF p.brace THEN <<RCUR>> ELSE <<>>
           rep == IF p.rep THEN p.pre ELSE <<>>
       IN p.pre \o lb \o p.from \o p.ws1 \o <<DOT, DOT>> \o p.ws2 \o rep \o p.to
          \o rb \o p.post \o RenderParts(Tail(ps))

RECURSIVE Render(_), RenderItems(_, _)
Render(t) ==
  CASE t.k = "atom"  -> t.t
    [] t.k = "quote" -> <<t.q>> \o t.t \o <<t.q>>
    [] t.k = "mult"  -> t.n \o t.ws1 \o <<STAR>> \o t.ws2 \o Render(t.v)
    [] t.k = "paren" -> <<LPAR>> \o RenderItems(t.items, t.seps) \o <<RPAR>>
    [] t.k = "list"  -> <<LBRA>> \o RenderItems(t.items, t.seps) \o <<RBRA>>
    [] t.k = "range" -> RenderParts(t.parts)
RenderItems(items, seps) ==
  IF items = <<>> THEN <<>>
  ELSE IF Len(items) = 1 THEN Render(items[1])
  ELSE Render(items[1]) \o seps[1] \o RenderItems(Tail(items), Tail(seps))

RECURSIVE Denote(_), DenoteAll(_)
Denote(t) ==
  CASE t.k = "atom"  -> <<t.t>>
    [] t.k = "quote" -> <<<<t.q>> \o t.t \o <<t.q>>>>
    [] t.k = "mult"  -> Repeat(Denote(t.v), TextNat(t.n))
    [] t.k = "paren" -> DenoteAll(t.items)
    [] t.k = "list"  -> <<<<LBRA>> \o Join(DenoteAll(t.items), <<COMMA>>) \o <<RBRA>>>>
    [] t.k = "range" -> RangeTexts(t.parts, 1)
DenoteAll(items) == IF items = <<>> THEN <<>> ELSE Denote(Head(items)) \o DenoteAll(Tail(items))

\* The whole array: "[" members "]" with free blanks between members
RenderArray(a) == <<LBRA>> \o a.ws \o RenderItems(a.items, a.seps) \o <<RBRA>>
DenoteArray(a) == DenoteAll(a.items)

ExpandOk(ev) ==
  /\ RenderArray(ev.ast) = ev.text          \* the input is what the tree says
  /\ ev.res = "ok"
  /\ ev.elems = DenoteArray(ev.ast)
  /\ ev.again = ev.elems                    \* expansion is idempotent

\* Text that is not an array, or has no notation in it, is left alone
PlainOk(ev) == ev.res = "ok" /\ ev.out = ev.text
\* Unterminated quote or bracket in multiplied text: reported
BadOk(ev) == ev.res = "err"

(* Glob patterns to regular expressions: what matches                       *)
RECURSIVE Glob(_, _)
Glob(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF p[1] = STAR THEN Glob(Tail(p), s) \/ (s # <<>> /\ Glob(p, Tail(s)))
  ELSE s # <<>> /\ (p[1] = 63 \/ p[1] = s[1]) /\ Glob(Tail(p), Tail(s))

(* Tokenizing: maximal runs of non-delimiters, in order                     *)
RECURSIVE Tokens(_, _, _)
Tokens(s, D, cur) ==
  IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF Head(s) \in D THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Tokens(Tail(s), D, <<>>)
  ELSE Tokens(Tail(s), D, Append(cur, Head(s)))
ToSet(s) == {s[k] : k \in 1..Len(s)}
=============================================================================
