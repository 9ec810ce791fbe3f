----------------------------- MODULE NumberText -----------------------------
(* Conversion of user-supplied text to numbers and booleans (P01).          *)
(*                                                                          *)
(* A text denotes an integer when, apart from surrounding blanks, it is an  *)
(* optionally signed run of decimal digits, or 0x/0X followed by hex digits.*)
(* It converts to a type when that integer is a value of the type; every    *)
(* other text is rejected.  Never a wrong number, never a wrapped value.    *)
EXTENDS Text

Limits == [
  long   |-> [neg |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>,
              pos |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>, signed |-> TRUE],
  int64  |-> [neg |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>,
              pos |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>, signed |-> TRUE],
  int    |-> [neg |-> <<2,1,4,7,4,8,3,6,4,8>>, pos |-> <<2,1,4,7,4,8,3,6,4,7>>, signed |-> TRUE],
  int32  |-> [neg |-> <<2,1,4,7,4,8,3,6,4,8>>, pos |-> <<2,1,4,7,4,8,3,6,4,7>>, signed |-> TRUE],
  int16  |-> [neg |-> <<3,2,7,6,8>>, pos |-> <<3,2,7,6,7>>, signed |-> TRUE],
  ulong  |-> [neg |-> <<0>>, pos |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>, signed |-> FALSE],
  uint64 |-> [neg |-> <<0>>, pos |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>, signed |-> FALSE],
  uint   |-> [neg |-> <<0>>, pos |-> <<4,2,9,4,9,6,7,2,9,5>>, signed |-> FALSE],
  uint32 |-> [neg |-> <<0>>, pos |-> <<4,2,9,4,9,6,7,2,9,5>>, signed |-> FALSE],
  uint16 |-> [neg |-> <<0>>, pos |-> <<6,5,5,3,5>>, signed |-> FALSE]
]

None == [k |-> "none", neg |-> FALSE, mag |-> <<0>>]

\* the integer denoted by a blank-free text
Denotes(t) ==
  IF Len(t) >= 3 /\ t[1] = 48 /\ t[2] \in {120, 88}
  THEN IF \A k \in 3..Len(t) : IsHex(t[k])
       THEN [k |-> "int", neg |-> FALSE, mag |-> HexToDec(SubSeq(t, 3, Len(t)))]
       ELSE None
  ELSE LET s == IF t # <<>> /\ t[1] \in {PLUS, MINUS} THEN 1 ELSE 0
           d == Drop(t, s)
       IN IF d # <<>> /\ \A k \in 1..Len(d) : IsDigit(d[k])
          THEN [k |-> "int", neg |-> s = 1 /\ t[1] = MINUS, mag |-> DecDigits(d)]
          ELSE None

InRange(v, lim) == IF v.neg THEN DecLeq(v.mag, lim.neg) ELSE DecLeq(v.mag, lim.pos)

\* printed form of the value: optional '-' and digits
Printed(v) == (IF v.neg /\ v.mag # <<0>> THEN <<MINUS>> ELSE <<>>)
              \o [k \in 1..Len(v.mag) |-> v.mag[k] + 48]

\* Outcome of converting text to type: <<"ok", printed>> or <<"err", <<>>>>
Convert(type, text) ==
  LET lim == Limits[type]
      t   == Trim(text)
      v   == Denotes(t)
  IN IF /\ v.k = "int"
        /\ InRange(v, lim)
        \* a sign that makes no sense for the type is an error, even for -0
        /\ (v.neg => lim.signed)
     THEN <<"ok", Printed(v)>>
     ELSE <<"err", <<>>>>

\* Text without any content is left open: zero or an error.
IntOk(type, text, obs) ==
  IF Trim(text) = <<>> THEN obs \in {<<"err", <<>>>>, <<"ok", <<48>>>>}
  ELSE obs = Convert(type, text)

BoolTrue  == {116, 84, 49, 89, 121}
BoolFalse == {102, 70, 48, 78, 110}
BoolOk(text, obs) ==
  obs = (IF text = <<>> THEN <<"err", 0>>
         ELSE IF text[1] \in BoolTrue THEN <<"ok", 1>>
         ELSE IF text[1] \in BoolFalse THEN <<"ok", 0>>
         ELSE <<"err", 0>>)

(* Decimal floating point: sign digits [. digits] [e sign digits].          *)
(* The specification decides acceptance for every text of this shape and    *)
(* its value, in thousandths, for those within +-1e6 with <= 3 decimals.    *)
FloatShape(t) ==
  LET p1 == IF t # <<>> /\ t[1] \in {PLUS, MINUS} THEN 2 ELSE 1
      p2 == SkipIn(t, p1, Digits)
      hasDot == p2 <= Len(t) /\ t[p2] = DOT
      p3 == IF hasDot THEN SkipIn(t, p2 + 1, Digits) ELSE p2
      nd == (p2 - p1) + (IF hasDot THEN p3 - p2 - 1 ELSE 0)
      hasE == p3 <= Len(t) /\ t[p3] \in {101, 69}
      p4 == IF hasE THEN (IF p3 + 1 <= Len(t) /\ t[p3 + 1] \in {PLUS, MINUS} THEN p3 + 2 ELSE p3 + 1) ELSE p3
      p5 == IF hasE THEN SkipIn(t, p4, Digits) ELSE p3
  IN [ok |-> nd > 0 /\ p5 = Len(t) + 1 /\ (hasE => p5 > p4),
      neg |-> p1 = 2 /\ t[1] = MINUS,
      int |-> SubSeq(t, p1, p2 - 1),
      frac |-> IF hasDot THEN SubSeq(t, p2 + 1, p3 - 1) ELSE <<>>,
      exp |-> IF hasE THEN (IF t[p4 - 1] = MINUS THEN -1 ELSE 1) * TextNat(SubSeq(t, p4, p5 - 1)) ELSE 0]

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

\* value in thousandths, when computable exactly in small integers
Milli(f) ==
  LET digs == f.int \o f.frac
      e == f.exp - Len(f.frac) + 3
      m == TextNat(digs)
  IN IF Len(digs) > 6 THEN <<"big", 0>>
     ELSE IF m = 0 THEN <<"ok", 0>>
     ELSE IF e > 8 - Len(NatText(m)) THEN <<"big", 0>>
     ELSE IF e >= 0 THEN <<"ok", (IF f.neg THEN -1 ELSE 1) * m * Pow10(e)>>
     ELSE IF -e <= 6 /\ m % Pow10(-e) = 0 THEN <<"ok", (IF f.neg THEN -1 ELSE 1) * (m \div Pow10(-e))>>
     ELSE <<"big", 0>>

\* decimal exponent of the leading digit (value = d.ddd * 10^Mag)
Mag(f) == LET digs == f.int \o f.frac
              lead == SkipIn(digs, 1, {48})
          IN Len(f.int) - lead + f.exp
IsZero(f) == \A k \in 1..Len(f.int \o f.frac) : (f.int \o f.frac)[k] = 48

Abs(n) == IF n < 0 THEN -n ELSE n
\* single precision carries 24 bits: beyond that only a relative bound
Close(type, a, b) == IF type = "float" THEN Abs(a - b) <= Abs(b) \div 4000000 ELSE a = b

FloatOk(ev) ==
  LET t == Trim(ev.text)
      f == FloatShape(t)
      hiMax == IF ev.type = "float" THEN 38 ELSE 308
      loMin == IF ev.type = "float" THEN -37 ELSE -307
  IN IF t = <<>> THEN TRUE
     ELSE IF ~f.ok
     THEN \* not decimal: the named and hexadecimal forms are out of scope
          \/ t[1] \in {105, 73, 110, 78}
          \/ \E k \in 1..Len(t) : t[k] \in {120, 88}
          \/ (t[1] \in {PLUS, MINUS} /\ Len(t) > 1 /\ t[2] \in {105, 73, 110, 78})
          \/ ev.res = "err"
     ELSE IF IsZero(f) THEN ev.res = "ok" /\ ev.milli = 0 /\ ev.exact
     ELSE IF Mag(f) > hiMax THEN ev.res = "err"
     ELSE IF Mag(f) < loMin - 60 THEN ev.res = "err"
     ELSE IF Mag(f) >= hiMax \/ Mag(f) <= loMin THEN TRUE
     ELSE /\ ev.res = "ok"
          /\ LET m == Milli(f) IN m[1] = "ok" => ev.exact /\ Close(ev.type, ev.milli, m[2])
          \* order of magnitude for everything else
          /\ ev.mag = Mag(f)
=============================================================================
