-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of character codes.                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

SP == 32   TAB == 9   LF == 10
DQ == 34   SQ == 39   COMMA == 44  SEMI == 59  STAR == 42  DOT == 46
LPAR == 40 RPAR == 41 LBRA == 91   RBRA == 93  LCUR == 123 RCUR == 125
PLUS == 43 MINUS == 45 COLON == 58 EQS == 61  HASH == 35  BSL == 92

Spaces == {32} \cup 9..13
Digits == 48..57
IsSpace(c) == c \in Spaces
IsDigit(c) == c \in Digits
IsHex(c)   == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c)  == IF IsDigit(c) THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsQuote(c) == c = DQ \/ c = SQ

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* smallest index >= k whose character is outside S, or Len+1
RECURSIVE SkipIn(_, _, _)
SkipIn(t, k, S) == IF k > Len(t) \/ t[k] \notin S THEN k ELSE SkipIn(t, k + 1, S)
RECURSIVE SkipBackIn(_, _, _)
SkipBackIn(t, k, S) == IF k < 1 \/ t[k] \notin S THEN k ELSE SkipBackIn(t, k - 1, S)

LTrim(t) == SubSeq(t, SkipIn(t, 1, Spaces), Len(t))
RTrim(t) == SubSeq(t, 1, SkipBackIn(t, Len(t), Spaces))
Trim(t)  == LTrim(RTrim(t))

Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
UpperT(t) == [k \in 1..Len(t) |-> Upper(t[k])]
LowerT(t) == [k \in 1..Len(t) |-> Lower(t[k])]

HasPrefix(t, p) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
Drop(t, n) == SubSeq(t, n + 1, Len(t))

\* lexicographic order on sequences of numbers
LexLess(a, b) ==
  \/ \E k \in 1..Min2(Len(a), Len(b)) :
        /\ \A j \in 1..(k - 1) : a[j] = b[j]
        /\ a[k] < b[k]
  \/ /\ Len(a) < Len(b)
     /\ \A j \in 1..Len(a) : a[j] = b[j]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

\* first position >= k holding character c, or 0
RECURSIVE FindFrom(_, _, _)
FindFrom(t, c, k) == IF k > Len(t) THEN 0 ELSE IF t[k] = c THEN k ELSE FindFrom(t, c, k + 1)

(***************** natural numbers as decimal digit sequences *****************)
\* digits 0..9, most significant first, no leading zeros ("0" is <<0>>)
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d

DecLess(a, b) == \/ Len(a) < Len(b)
                 \/ Len(a) = Len(b) /\ LexLess(a, b)
DecLeq(a, b) == a = b \/ DecLess(a, b)

\* d * 16 + h  (schoolbook, right to left)
RECURSIVE MulAdd(_, _, _)
MulAdd(d, m, carry) ==
  IF d = <<>> THEN (IF carry = 0 THEN <<>>
                    ELSE MulAdd(<<>>, m, carry \div 10) \o <<carry % 10>>)
  ELSE LET v == d[Len(d)] * m + carry
       IN MulAdd(SubSeq(d, 1, Len(d) - 1), m, v \div 10) \o <<v % 10>>

RECURSIVE HexToDec(_)
HexToDec(h) == IF h = <<>> THEN <<0>>
               ELSE StripZeros(MulAdd(HexToDec(SubSeq(h, 1, Len(h) - 1)), 16,
                                      HexVal(h[Len(h)])))
DecDigits(t) == StripZeros([k \in 1..Len(t) |-> t[k] - 48])

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE TextNat(_)
TextNat(t) == IF t = <<>> THEN 0
              ELSE TextNat(SubSeq(t, 1, Len(t) - 1)) * 10 + (t[Len(t)] - 48)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<48>> \o Zeros(n - 1)
PadNat(n, w) == Zeros(w - Len(NatText(n))) \o NatText(n)
=============================================================================
