------------------------------ MODULE SkyFile ------------------------------
(* Sky model text: a format line that names the fields, and one line per     *)
(* source or patch.  Reading is a transition of [srcs, pats] per line; the   *)
(* end of the text gives every patch the mean direction and the summed flux  *)
(* of its sources.  Positions are in tenths of an arc second, other numbers  *)
(* in thousandths (fractions and angles of polarisation in millionths), and  *)
(* frequencies in kHz.                                                       *)
EXTENDS NumberText, SequencesExt

Alphabet == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_,: *."
CodeOf(c) ==
  LET k == CHOOSE j \in 1..Len(Alphabet) : SubSeq(Alphabet, j, j) = c
  IN IF k <= 10 THEN 47 + k ELSE IF k <= 36 THEN 54 + k ELSE IF k <= 62 THEN 60 + k
     ELSE <<95, 44, 58, 32, 42, 46>>[k - 62]
A(s) == [k \in 1..Len(s) |-> CodeOf(SubSeq(s, k, k))]

Known == <<A("name"), A("type"), A("reftype"), A("ra"), A("dec"), A("i"), A("q"), A("u"), A("v"), A("spectralindex"),
           A("logarithmicsi"), A("referencefrequency"), A("majoraxis"), A("minoraxis"), A("orientation"),
           A("orientationisabsolute"), A("rotationmeasure"), A("polarizedfraction"), A("polarizationangle"),
           A("referencewavelength"), A("ishapelet"), A("qshapelet"), A("ushapelet"), A("vshapelet"),
           A("category"), A("patch"), A("rah"), A("rad"), A("ram"), A("ras"), A("dech"), A("decd"), A("decm"), A("decs")>>
KName == 1   KType == 2   KRef == 3   KRa == 4   KDec == 5   KI == 6   KQ == 7   KU == 8   KV == 9   KSI == 10
KLog == 11   KFreq == 12  KMaj == 13  KMin == 14 KOri == 15  KAbs == 16 KRM == 17 KFrac == 18 KAng == 19 KWave == 20
KCat == 25   KPatch == 26
NStandard == 24
Dummy == A("dummy")
FixedText == A("fixed")
Degree == A("spectralindexdegree")
J2000 == A("J2000")
RefTypes == {A("J2000"), A("B1950"), A("SUN"), A("MOON"), A("VENUS"), A("MARS"), A("JUPITER"), A("SATURN"),
             A("URANUS"), A("NEPTUNE"), A("MERCURY")}
DefaultFormat == A("Name,Type,Ra,Dec,I,Q,U,V,MajorAxis,MinorAxis,Orientation")

Blank == {SP, TAB}
TrimB(t) == LET e == SkipBackIn(t, Len(t), Blank) IN SubSeq(t, SkipIn(t, 1, Blank), e)
Bad == [ok |-> FALSE, v |-> 0]
Good(v) == [ok |-> TRUE, v |-> v]

(* the separator after position k, outside quotes and brackets: its position *)
(* or Len + 1; 0 if quotes or brackets do not match                          *)
RECURSIVE Next(_, _, _, _)
Next(t, sep, k, nb) ==
  IF k > Len(t) THEN (IF nb = 0 THEN Len(t) + 1 ELSE 0)
  ELSE IF IsQuote(t[k]) THEN LET e == FindFrom(t, t[k], k + 1) IN IF e = 0 THEN 0 ELSE Next(t, sep, e + 1, nb)
  ELSE IF t[k] = LBRA THEN Next(t, sep, k + 1, nb + 1)
  ELSE IF t[k] = RBRA THEN (IF nb = 0 THEN 0 ELSE Next(t, sep, k + 1, nb - 1))
  ELSE IF nb = 0 /\ t[k] = sep THEN k
  ELSE Next(t, sep, k + 1, nb)

(****************************** the format ***********************************)
IsNameCh(c) == c \in 97..122 \/ c \in 65..90 \/ c \in 48..57 \/ c = 95
RECURSIVE NameEnd(_, _, _)
NameEnd(t, s, k) == IF k <= Len(t) /\ (IsNameCh(t[k]) \/ (t[k] = COLON /\ k > s)) THEN NameEnd(t, s, k + 1) ELSE k
\* separator 0: the value runs to the end of the line
Field(name, how, val, sep) == [name |-> LowerT(name), how |-> how, val |-> val, sep |-> sep]
RECURSIVE FieldsOf(_, _)
FieldsOf(t, s) ==
  IF s > Len(t) THEN [ok |-> TRUE, v |-> <<>>]
  ELSE LET e == NameEnd(t, s, s)
           name == SubSeq(t, s, e - 1)
           g == SkipIn(t, e, Blank)
           given == g <= Len(t) /\ t[g] = EQS
           h == SkipIn(t, g + 1, Blank)
           fixed == h + 5 <= Len(t) /\ LowerT(SubSeq(t, h, h + 4)) = FixedText
           q == IF fixed THEN h + 5 ELSE h
           z == IF q <= Len(t) /\ IsQuote(t[q]) THEN FindFrom(t, t[q], q + 1) ELSE 0
           n == IF given THEN SkipIn(t, z + 1, Blank) ELSE g
           spaced == n <= Len(t) /\ IsNameCh(t[n])
           sep == IF n > Len(t) THEN 0 ELSE IF spaced THEN SP ELSE t[n]
           f == Field(name, IF ~given THEN "plain" ELSE IF fixed THEN "fixed" ELSE "default",
                      IF given THEN SubSeq(t, q + 1, z - 1) ELSE <<>>, sep)
       IN IF e > Len(t) THEN [ok |-> TRUE, v |-> <<Field(name, "plain", <<>>, SP)>>]
          ELSE IF LowerT(name) = Degree \/ (given /\ z = 0) THEN Bad
          ELSE IF n <= Len(t) /\ ~spaced /\ IsQuote(t[n]) THEN Bad
          ELSE LET r == FieldsOf(t, IF n > Len(t) \/ spaced THEN n ELSE SkipIn(t, n + 1, Blank))
               IN IF ~r.ok THEN Bad ELSE [ok |-> TRUE, v |-> <<f>> \o r.v]
Standard(sep) == [k \in 1..NStandard |-> Field(Known[k], "plain", <<>>, sep)]
\* the last field with this name
NrOf(fs, kn) == LET S == {k \in 1..Len(fs) : fs[k].name = Known[kn]} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
\* a position is given as a whole or in parts
PartsOk(fs, whole, first) ==
  LET has(k) == NrOf(fs, k) # 0 IN
  /\ ~(has(first) /\ has(first + 1))
  /\ has(whole) => ~(\E k \in first..(first + 3) : has(k))
  /\ has(whole) \/ \E k \in first..(first + 3) : has(k)
Format(text) ==
  LET t == TrimB(text)
      r == IF Len(t) <= 1 THEN [ok |-> TRUE, v |-> Standard(IF t = <<>> THEN COMMA ELSE t[1])] ELSE FieldsOf(t, 1)
  IN IF r.ok /\ PartsOk(r.v, KRa, 27) /\ PartsOk(r.v, KDec, 31) THEN r ELSE Bad

(****************************** one line *************************************)
\* the values of the fields
RECURSIVE ValuesFrom(_, _, _, _)
ValuesFrom(fs, k, t, s) ==
  IF k > Len(fs) THEN [ok |-> TRUE, v |-> <<>>]
  ELSE LET f == fs[k]
           read == f.how # "fixed" /\ s <= Len(t)
           e == IF read THEN Next(t, f.sep, s, 0) ELSE s
           raw == IF f.how = "fixed" THEN f.val ELSE IF read THEN SubSeq(t, s, SkipBackIn(t, e - 1, Blank)) ELSE <<>>
           v == IF raw = <<>> /\ f.how = "default" THEN f.val ELSE raw
           r == ValuesFrom(fs, k + 1, t, IF read THEN SkipIn(t, e + 1, Blank) ELSE s)
       IN IF (read /\ e = 0) \/ ~r.ok THEN Bad ELSE [ok |-> TRUE, v |-> <<v>> \o r.v]
Unquote(v) == IF Len(v) >= 2 /\ IsQuote(v[1]) /\ v[Len(v)] = v[1] THEN SubSeq(v, 2, Len(v) - 1) ELSE v

Abs1(n) == IF n < 0 THEN -n ELSE n
Huge == 2000000000
\* a number, scaled by 10^d; texts that are no numbers are rejected
Number(t, d, def) ==
  LET f == FloatShape(Trim(t))
      m == TextNat(f.int \o f.frac)
      e == f.exp - Len(f.frac) + d
  IN IF t = <<>> THEN Good(def)
     ELSE IF ~f.ok THEN Bad
     ELSE IF m # 0 /\ e + Len(NatText(m)) > 9 THEN Good(Huge)
     ELSE Good((IF f.neg THEN -1 ELSE 1) * (IF m = 0 \/ e < -9 THEN 0 ELSE IF e >= 0 THEN m * Pow10(e) ELSE m \div Pow10(-e)))
N3(t, def) == Number(t, 3, def)

\* an angle in tenths of arc seconds
Sexa(t) ==
  LET s == IF t # <<>> /\ t[1] \in {PLUS, MINUS} THEN 2 ELSE 1
      e1 == SkipIn(t, s, Digits)
      e2 == SkipIn(t, e1 + 1, Digits)
      e3 == SkipIn(t, e2 + 1, Digits \cup {DOT})
      hours == e1 <= Len(t) /\ t[e1] \in {COLON, 104}
      shape == /\ e1 > s /\ e2 > e1 + 1 /\ e3 > e2 + 1 /\ e2 <= Len(t)
               /\ <<t[e1], t[e2]>> \in {<<COLON, COLON>>, <<104, 109>>, <<DOT, DOT>>, <<100, 109>>}
               /\ e3 = Len(t) + 1 \/ (e3 = Len(t) /\ t[e3] = 115)
      v == TextNat(SubSeq(t, s, e1 - 1)) * 36000 + TextNat(SubSeq(t, e1 + 1, e2 - 1)) * 600
           + Number(SubSeq(t, e2 + 1, e3 - 1), 1, 0).v
  IN IF ~shape THEN Bad ELSE Good((IF t[1] = MINUS THEN -1 ELSE 1) * (IF hours THEN 15 ELSE 1) * v)
Angle(t) ==
  LET n == Len(t) IN
  IF n > 3 /\ SubSeq(t, n - 2, n) = A("deg")
  THEN LET m == N3(SubSeq(t, 1, n - 3), 0) IN IF m.ok /\ Abs1(m.v) < 999999 THEN Good(m.v * 36) ELSE Bad
  ELSE Sexa(t)
\* a position from its fields: whole, or hours or degrees, minutes and seconds
Position(val(_), whole, first, hours, colons) ==
  LET w == val(whole)
      d == IF val(first) # <<>> THEN val(first) ELSE val(first + 1)
      num == <<N3(d, 0), N3(val(first + 2), 0), N3(val(first + 3), 0)>>
      neg == d # <<>> /\ d[1] = MINUS
      ms == num[2].v * 60 + num[3].v
      u == IF hours THEN 15 ELSE 1
      v == num[1].v * 36 * u + (IF neg THEN -1 ELSE 1) * ((ms * u) \div 100)
  IN IF w # <<>> THEN (IF ~colons /\ \E k \in 1..Len(w) : w[k] = COLON THEN Bad ELSE Angle(w))
     ELSE IF \A k \in 1..3 : num[k].ok /\ Abs1(num[k].v) < 1000000 THEN Good(v) ELSE Bad

ListOf(v) ==
  IF v = <<>> THEN [ok |-> TRUE, v |-> <<>>]
  ELSE IF Len(v) < 2 \/ v[1] # LBRA \/ v[Len(v)] # RBRA THEN [ok |-> TRUE, v |-> <<v>>]
  ELSE LET t == TrimB(SubSeq(v, 2, Len(v) - 1))
           Items[s \in 1..(Len(t) + 2)] ==
             IF s > Len(t) THEN [ok |-> TRUE, v |-> <<>>]
             ELSE LET e == Next(t, COMMA, s, 0)
                      r == IF e = 0 THEN Bad ELSE Items[SkipIn(t, e + 1, Blank)]
                  IN IF ~r.ok THEN Bad ELSE [ok |-> TRUE, v |-> <<SubSeq(t, s, SkipBackIn(t, e - 1, Blank))>> \o r.v]
       IN Items[1]

Types == <<A("point"), A("gaussian"), A("disk"), A("shapelet")>>
Truth(t, def) == IF t = <<>> THEN Good(def)
                 ELSE IF t[1] \in BoolTrue THEN Good(1) ELSE IF t[1] \in BoolFalse THEN Good(0) ELSE Bad

\* (a / b) 10^6 with a, b such that it is a whole number
\* length of (q, u), if it is a whole number
Length(q, u) == LET S == {n \in 0..200 : n * n = q * q + u * u} IN IF S = {} THEN -1 ELSE CHOOSE n \in S : TRUE
\* half the angle of (q, u), in millionths of a radian
HalfAngle(q, u) ==
  LET a == Abs1(q) b == Abs1(u)
      h == IF b = 0 THEN 0 ELSE IF a = 0 THEN 785398
           ELSE IF a * 4 = b * 3 THEN 463648
           ELSE IF a * 3 = b * 4 THEN 321751 ELSE IF a * 12 = b * 5 THEN 588003 ELSE 197396
      r == IF q < 0 THEN 1570796 - h ELSE h
  IN IF u < 0 THEN -r ELSE r
\* the square of the wavelength (millionths of square metres) of a frequency in kHz
Square(f) == IF f = 10000 THEN 898755179 ELSE IF f = 100000 THEN 8987552 ELSE 89876
Wave100 == A("2.99792458")
HalfTurn == 3141593

\* what a line says: [ok, src, pat]; src and pat are sequences of at most one
LineOf(fs, text) ==
  LET vs == ValuesFrom(fs, 1, text, SkipIn(text, 1, Blank))
      val(k) == LET n == NrOf(fs, k) IN IF n = 0 THEN <<>> ELSE Unquote(vs.v[n])
      others == {k \in 1..Len(fs) : fs[k].name # <<>> /\ fs[k].name # Dummy /\ ~(\E j \in 1..Len(Known) : Known[j] = fs[k].name)}
      ref == IF val(KRef) = <<>> THEN J2000 ELSE val(KRef)
      tp == IF val(KType) = <<>> THEN 1
            ELSE LET S == {k \in 1..4 : Types[k] = LowerT(val(KType))} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
      ra == Position(val, KRa, 27, NrOf(fs, KRa) = 0 /\ NrOf(fs, 27) # 0, TRUE)
      raUnit == ra.v
      dec == Position(val, KDec, 31, NrOf(fs, KDec) = 0 /\ NrOf(fs, 31) # 0, FALSE)
      decUnit == dec.v
      cat == Number(val(KCat), 0, 2)
      I == N3(val(KI), 1000) Q == N3(val(KQ), 0) U == N3(val(KU), 0) V == N3(val(KV), 0)
      rm == N3(val(KRM), 0)
      items == ListOf(val(KSI))
      terms == [k \in 1..Len(items.v) |-> N3(items.v[k], 0)]
      freq == Number(val(KFreq), -3, 0)
      log == Truth(val(KLog), 1)
      abs == Truth(val(KAbs), 0)
      useRM == val(KRM) # <<>>
      anyQU == val(KQ) # <<>> \/ val(KU) # <<>>
      wave == N3(val(KWave), 0)
      rmOk == IF ~useRM THEN val(KFrac) = <<>> /\ val(KAng) = <<>> /\ val(KWave) = <<>>
              ELSE IF anyQU THEN /\ val(KQ) # <<>> /\ val(KU) # <<>> /\ val(KFrac) = <<>> /\ val(KAng) = <<>>
                                 /\ (val(KWave) # <<>> \/ freq.v > 0)
                                 /\ (val(KWave) # <<>> /\ Len(terms) > 0) => wave.v > 0
              ELSE val(KFrac) # <<>> /\ val(KAng) # <<>> /\ N3(val(KWave), 0).v = 0
      gauss == tp = 2
      size(k) == IF gauss THEN N3(val(k), 1000) ELSE Good(0)
      frac == N3(val(KFrac), 0) ang == N3(val(KAng), 0)
      nums == <<ra, dec, cat, I, Q, U, V, rm, items, freq, log, abs, size(KMaj), size(KMin), size(KOri), frac, ang, wave>>
      \* polarisation from Q and U: the fraction refers to I at the wavelength of the rotation measure
      turns == IF Len(terms) = 0 \/ val(KWave) = <<>> THEN 0
               ELSE LET l == IF freq.v = 10000 THEN 1 ELSE IF freq.v = 1000000 THEN -1 ELSE 0
                        up[k \in 1..(Len(terms) + 1)] == IF k > Len(terms) THEN 0 ELSE (terms[k].v \div 1000) + l * up[k + 1]
                    IN l * up[1]
      q == Q.v \div 100 u == U.v \div 100
      sq == IF val(KWave) = <<>> THEN Square(freq.v) ELSE IF val(KWave) = Wave100 THEN 8987552 ELSE wave.v * wave.v
      rawFrac == (Length(q, u) * 1000000) \div (I.v \div 100)
      \* -1: not a power of ten, or not defined for a flux that is not logarithmic
      fracQU == IF rawFrac # 0 /\ Len(terms) > 0 /\ (log.v = 0 \/ (val(KWave) \notin {<<>>, Wave100})) THEN -1
                ELSE IF Abs1(turns) > 3 THEN -1
                ELSE IF turns >= 0 THEN rawFrac \div Pow10(turns) ELSE rawFrac * Pow10(-turns)
      angQU == (HalfAngle(q, u) - (rm.v \div 1000) * sq) % HalfTurn
      name == val(KName) patch == val(KPatch)
      src == [name |-> name, type |-> tp, ref |-> ref, patch |-> IF patch = <<>> THEN name ELSE patch,
              ra |-> raUnit, dec |-> decUnit, I |-> I.v,
              Q |-> IF useRM THEN 0 ELSE Q.v, U |-> IF useRM THEN 0 ELSE U.v, V |-> V.v,
              maj |-> size(KMaj).v, min |-> size(KMin).v, ori |-> size(KOri).v, abs |-> abs.v = 1,
              frac |-> IF ~useRM THEN 0 ELSE IF anyQU THEN fracQU ELSE frac.v * 1000,
              ang |-> IF ~useRM THEN 0 ELSE IF anyQU THEN angQU ELSE ang.v * 1000,
              rm |-> rm.v, terms |-> [k \in 1..Len(terms) |-> terms[k].v], log |-> log.v = 1, freq |-> freq.v,
              useRM |-> useRM]
      pat(n) == [name |-> n, cat |-> cat.v, flux |-> I.v, ra |-> raUnit, dec |-> decUnit]
  IN IF ~vs.ok THEN [ok |-> FALSE]
     ELSE IF \/ \E k \in 1..Len(nums) : ~nums[k].ok
             \/ \E k \in others : ~N3(Unquote(vs.v[k]), 0).ok
             \/ \E k \in 1..Len(terms) : ~terms[k].ok
             \/ UpperT(ref) \notin RefTypes \/ tp = 0 \/ ~rmOk
             \/ Abs1(raUnit) >= 12994700 \/ Abs1(decUnit) >= 3300200
             \/ (Len(terms) > 0 /\ freq.v <= 0)
             \/ (name = <<>> /\ patch = <<>>)
          THEN [ok |-> FALSE]
     ELSE IF name = <<>> THEN [ok |-> TRUE, src |-> <<>>, pat |-> <<pat(patch)>>, group |-> patch]
     ELSE IF patch = <<>> THEN [ok |-> TRUE, src |-> <<src>>, pat |-> <<pat(name)>>, group |-> <<>>]
     ELSE [ok |-> TRUE, src |-> <<src>>, pat |-> <<>>, group |-> patch]

(****************************** the whole text *******************************)
RECURSIVE LinesOf(_, _)
LinesOf(t, k) ==
  IF k > Len(t) THEN <<>>
  ELSE LET e == FindFrom(t, LF, k)
           z == IF e = 0 THEN Len(t) ELSE e - 1
           y == IF z >= k /\ t[z] = 13 THEN z - 1 ELSE z
       IN <<SubSeq(t, k, y)>> \o (IF e = 0 THEN <<>> ELSE LinesOf(t, e + 1))
FormatWord == A("format")
\* "format =": where its value starts; 0 if the line is none
FormatAt(l) ==
  LET s == SkipIn(l, 1, Blank)
      g == SkipIn(l, s + 6, Blank)
  IN IF s + 5 <= Len(l) /\ LowerT(SubSeq(l, s, s + 5)) = FormatWord /\ g <= Len(l) /\ l[g] = EQS THEN SkipIn(l, g + 1, Blank) ELSE 0
IsComment(l) == LET s == SkipIn(l, 1, Blank) IN s <= Len(l) /\ l[s] = HASH
IsEmpty(l) == SkipIn(l, 1, Blank) > Len(l)
\* # (...) = format
InComment(l) ==
  LET s == SkipIn(l, 1, Blank)
      p == SkipIn(l, s + 1, Blank)
      z == SkipBackIn(l, Len(l), Blank)
      w == z - 5
      e == SkipBackIn(l, w - 1, Blank)
      c == SkipBackIn(l, e - 1, Blank)
  IN IF /\ p <= Len(l) /\ l[p] = LPAR /\ w > p /\ LowerT(SubSeq(l, w, z)) = FormatWord
        /\ e > p /\ l[e] = EQS /\ c > p /\ l[c] = RPAR
     THEN <<SkipIn(l, p + 1, Blank), c - 1>> ELSE <<>>
RECURSIVE FormatIn(_)
FormatIn(ls) ==
  IF ls = <<>> THEN DefaultFormat
  ELSE IF IsEmpty(Head(ls)) THEN FormatIn(Tail(ls))
  ELSE IF IsComment(Head(ls))
       THEN LET r == InComment(Head(ls)) IN IF r # <<>> THEN SubSeq(Head(ls), r[1], r[2]) ELSE FormatIn(Tail(ls))
  ELSE LET a == FormatAt(Head(ls)) IN IF a = 0 THEN DefaultFormat ELSE Drop(Head(ls), a - 1)

Empty == [ok |-> TRUE, srcs |-> <<>>, pats |-> <<>>, groups |-> {}]
RECURSIVE Read(_, _, _)
Read(fs, ls, m) ==
  IF ls = <<>> THEN m
  ELSE LET l == Head(ls) IN
       IF IsEmpty(l) \/ IsComment(l) \/ FormatAt(l) # 0 THEN Read(fs, Tail(ls), m)
       ELSE LET r == LineOf(fs, l) IN
            IF ~r.ok THEN [m EXCEPT !.ok = FALSE]
            ELSE IF r.src # <<>> /\ r.group # <<>> /\ r.group \notin m.groups THEN [m EXCEPT !.ok = FALSE]
            ELSE Read(fs, Tail(ls), [m EXCEPT !.srcs = @ \o r.src, !.pats = @ \o r.pat,
                                              !.groups = IF r.src = <<>> THEN @ \cup {r.group} ELSE @])
Reading(format, text) ==
  LET f == Format(format) IN IF ~f.ok THEN [Empty EXCEPT !.ok = FALSE] ELSE Read(f.v, LinesOf(text, 1), Empty)

Members(m, n) == SelectSeq(m.srcs, LAMBDA s : s.patch = n)
Names(m) == SetToSortSeq({m.pats[k].name : k \in 1..Len(m.pats)}, LexLess)

(****************************** choosing patches *****************************)
\* shell patterns of literals, '*' and '?'
RECURSIVE Glob(_, _)
Glob(p, t) ==
  IF p = <<>> THEN t = <<>>
  ELSE IF p[1] = STAR THEN \E k \in 0..Len(t) : Glob(Tail(p), Drop(t, k))
  ELSE t # <<>> /\ (p[1] = 63 \/ p[1] = t[1]) /\ Glob(Tail(p), Tail(t))
Found(m, p) == SelectSeq(Names(m), LAMBDA n : Glob(p, n))
Chosen(m, ps) ==
  IF ps = <<>> THEN Names(m)
  ELSE SetToSortSeq(UNION {IF p = <<>> THEN {} ELSE IF p[1] = 64 THEN {p} ELSE {n \in ToSet(Names(m)) : Glob(p, n)} : p \in ToSet(ps)}, LexLess)
Polarized(m, ns) ==
  \E k \in 1..Len(m.srcs) : /\ m.srcs[k].patch \in ToSet(ns)
                            /\ m.srcs[k].V # 0 \/ (IF m.srcs[k].useRM THEN m.srcs[k].frac # 0 ELSE m.srcs[k].Q # 0 \/ m.srcs[k].U # 0)
Absolute(m, ns) == \E k \in 1..Len(m.srcs) : m.srcs[k].patch \in ToSet(ns) /\ m.srcs[k].abs
\* a patch can be made if it exists, has sources, and all of them can be predicted
Usable(s) == s.ref = J2000 /\ s.type \in {1, 2}
Makeable(m, ns) == \A n \in ToSet(ns) : /\ n \in ToSet(Names(m)) /\ Members(m, n) # <<>>
                                        /\ \A k \in 1..Len(Members(m, n)) : Usable(Members(m, n)[k])
=============================================================================
