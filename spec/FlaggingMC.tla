---------------------------- MODULE FlaggingMC ----------------------------
(* How the flagger reads an expression of selections: operators wait on a    *)
(* stack until one that binds less comes.  For every expression of at most   *)
(* MaxLen symbols, that gives the value of the expression as documented:     *)
(* not binds most, then and, then or; equal operators bind to the left.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT MaxLen
VARIABLES text, stack, out, operand, depth
vars == <<text, stack, out, operand, depth>>
Binds(o) == CASE o = "!" -> 3 [] o = "&" -> 2 [] o = "|" -> 1 [] o = "(" -> 0
Top == stack[Len(stack)]
\* the operators that have to come off the stack before one of strength n goes on
RECURSIVE Pop(_, _, _)
Pop(s, o, n) == IF Len(s) > 0 /\ Binds(s[Len(s)]) >= n
                THEN Pop(SubSeq(s, 1, Len(s) - 1), Append(o, s[Len(s)]), n) ELSE <<s, o>>
Init == text = <<>> /\ stack = <<>> /\ out = <<>> /\ operand = TRUE /\ depth = 0
Leaf(x) == /\ operand /\ text' = Append(text, x) /\ out' = Append(out, x) /\ operand' = FALSE
           /\ UNCHANGED <<stack, depth>>
Not == /\ operand /\ text' = Append(text, "!") /\ stack' = Append(stack, "!")
       /\ UNCHANGED <<out, operand, depth>>
OpenPar == /\ operand /\ text' = Append(text, "(") /\ stack' = Append(stack, "(") /\ depth' = depth + 1
        /\ UNCHANGED <<out, operand>>
ClosePar == /\ ~ operand /\ depth > 0
         /\ LET p == Pop(stack, out, 1) IN stack' = SubSeq(p[1], 1, Len(p[1]) - 1) /\ out' = p[2]
         /\ text' = Append(text, ")") /\ depth' = depth - 1 /\ UNCHANGED operand
Oper(x) == /\ ~ operand
           /\ LET p == Pop(stack, out, Binds(x)) IN stack' = Append(p[1], x) /\ out' = p[2]
           /\ text' = Append(text, x) /\ operand' = TRUE /\ UNCHANGED depth
Next == /\ Len(text) < MaxLen
        /\ (Leaf("a") \/ Leaf("b") \/ Leaf("c") \/ Not \/ OpenPar \/ ClosePar \/ Oper("&") \/ Oper("|"))
Spec == Init /\ [][Next]_vars

\* the value of what was put out, with v the true selections
RECURSIVE Run(_, _, _)
Run(o, st, v) ==
  IF o = <<>> THEN st
  ELSE LET h == Head(o)  n == Len(st) IN
       Run(Tail(o), CASE h = "!" -> [st EXCEPT ![n] = ~ @]
                      [] h = "&" -> Append(SubSeq(st, 1, n - 2), st[n - 1] /\ st[n])
                      [] h = "|" -> Append(SubSeq(st, 1, n - 2), st[n - 1] \/ st[n])
                      [] OTHER -> Append(st, h \in v), v)
\* the value of the text itself, taken apart at its weakest operator
Depth(t, k) == Cardinality({j \in 1..k : t[j] = "("}) - Cardinality({j \in 1..k : t[j] = ")"})
RECURSIVE Val(_, _)
Val(t, v) ==
  LET At(o) == {k \in 1..Len(t) : t[k] = o /\ Depth(t, k) = 0}
      Max(S) == CHOOSE x \in S : \A y \in S : y <= x IN
  IF At("|") # {} THEN LET k == Max(At("|")) IN Val(SubSeq(t, 1, k - 1), v) \/ Val(SubSeq(t, k + 1, Len(t)), v)
  ELSE IF At("&") # {} THEN LET k == Max(At("&")) IN Val(SubSeq(t, 1, k - 1), v) /\ Val(SubSeq(t, k + 1, Len(t)), v)
  ELSE IF t[1] = "!" THEN ~ Val(Tail(t), v)
  ELSE IF t[1] = "(" THEN Val(SubSeq(t, 2, Len(t) - 1), v)
  ELSE t[1] \in v
Complete == ~ operand /\ depth = 0
SameValue == Complete => \A v \in SUBSET {"a", "b", "c"} :
               Run(Pop(stack, out, 1)[2], <<>>, v) = <<Val(text, v)>>
=============================================================================
