------------------------------- MODULE Super --------------------------------
(* Superstations (P31): stations added together into new ones, with every    *)
(* baseline to them, and the tables that describe them.                      *)
EXTENDS Plain
\* a group is name, pats = sequence of [neg, hits] (hits: stations from 0)
RECURSIVE Members(_, _)
Members(pats, S) == IF pats = <<>> THEN S
  ELSE LET h == {Head(pats).hits[k] : k \in DOMAIN Head(pats).hits}
       IN Members(Tail(pats), IF Head(pats).neg THEN S \ h ELSE S \cup h)
PartsOf(g) == Members(g.pats, {})
\* groups without members are left out
Groups(s) == SelectSeq(s.groups, LAMBDA g : PartsOf(g) # {})
Unusable(s, inf) ==
  \/ \E k \in DOMAIN s.groups : \E a \in DOMAIN inf.names : inf.names[a] = s.groups[k].name
  \/ \E k, m \in DOMAIN s.groups : k # m /\ PartsOf(s.groups[k]) \cap PartsOf(s.groups[m]) # {}

OldPairs(inf) == {<<inf.ant1[b], inf.ant2[b]>> : b \in DOMAIN inf.ant1}
\* baselines that join a pair set when group g becomes station id
Added(s, A, g, id) ==
  LET P == PartsOf(g)
      Linked == {q[1] : q \in {r \in A : r[1] \notin P /\ r[2] \in P}} \cup {q[2] : q \in {r \in A : r[1] \in P /\ r[2] \notin P}}
      Auto == s.autocorr /\ \E q \in A : q[1] \in P /\ q[2] \in P /\ s.sumauto = (q[1] = q[2])
  IN {<<x, id>> : x \in Linked} \cup (IF Auto THEN {<<id, id>>} ELSE {})
RECURSIVE AddAll(_, _, _, _)
\* sets of new pairs, per group
AddAll(s, A, gs, id) == IF gs = <<>> THEN <<>>
  ELSE LET n == Added(s, A, Head(gs), id) IN <<n>> \o AddAll(s, A \cup n, Tail(gs), id + 1)
Near2(x, y, t) == AbsI(x - y) <= t
SuperInfoOk(s, inf, o) ==
  LET gs == Groups(s)
      na == Len(inf.names)
      nb == Len(inf.ant1)
      new == AddAll(s, OldPairs(inf), gs, na)
      Pair(b) == <<o.ant1[b], o.ant2[b]>>
  IN /\ o.names = inf.names \o [k \in DOMAIN gs |-> gs[k].name]
     /\ Len(o.pos) = na + Len(gs) /\ \A a \in 1..na : o.pos[a] = inf.pos[a] /\ o.diam[a] = 9 + a
     /\ \A k \in DOMAIN gs :
          LET P == PartsOf(gs[k])
              Sum(x) == SumSeq([j \in 1..Cardinality(P) |-> inf.pos[SetToSeq1(P)[j] + 1][x]])
              pos == o.pos[na + k]
              \* ten times the distance of part p, plus its radius
              Reach(p) == Root(100 * SumSeq([x \in 1..3 |-> (inf.pos[p + 1][x] - pos[x]) * (inf.pos[p + 1][x] - pos[x])])) + 5 * (10 + p)
              far == CHOOSE r \in {Reach(p) : p \in P} : \A p \in P : Reach(p) <= r
          IN /\ \A x \in 1..3 : Near2(pos[x] * Cardinality(P), Sum(x), (Cardinality(P) + 1) \div 2)
             /\ Near2(5 * o.diam[na + k], far, 14)
     /\ Len(o.ant1) = nb + SumSeq([k \in DOMAIN gs |-> Cardinality(new[k])])
     /\ \A b \in 1..nb : Pair(b) = <<inf.ant1[b], inf.ant2[b]>>
     /\ {Pair(b) : b \in (nb + 1)..Len(o.ant1)} = UNION {new[k] : k \in DOMAIN gs}
     /\ o.nchan = Len(inf.freqs) /\ o.ntime = inf.ntime /\ o.ncorr = inf.ncorr /\ o.meta

\* <<row, sign>> of the baselines that make up row r of the output
MadeOf(s, inf, o, r) ==
  LET gs == Groups(s)
      P == PartsOf(gs[o.ant2[r] - Len(inf.names) + 1])
      x == o.ant1[r]
      Rows == 1..Len(o.ant1)
  IN IF x = o.ant2[r]
     THEN {<<q, 1>> : q \in {k \in 1..(r - 1) : o.ant1[k] \in P /\ o.ant2[k] \in P /\ s.sumauto = (o.ant1[k] = o.ant2[k])}}
     ELSE {<<q, 1>> : q \in {k \in Rows : o.ant1[k] = x /\ o.ant2[k] \in P}}
          \cup {<<q, -1>> : q \in {k \in Rows : o.ant2[k] = x /\ o.ant1[k] \in P}}
SumOver(S, F(_)) == LET q == SetToSeq1({m[1] * 2 + (m[2] + 1) \div 2 : m \in S})
                    IN SumSeq([k \in DOMAIN q |-> F(<<q[k] \div 2, 2 * (q[k] % 2) - 1>>)])
\* b: the slot that comes out; the parts of a new row are rows of it
RowMade(s, inf, o, b, r) ==
  LET M == MadeOf(s, inf, o, r)
      W(m, c, p) == IF s.useweights THEN b.w[m[1]][c][p] \div Scale ELSE 1
      V(m, c, p) == LET v == b.d[1][m[1]][c][p] IN <<v[1], m[2] * v[2]>>
      Good(c, p) == {m \in M : b.f[m[1]][c][p] = 0}
      Enough(c, p) == Cardinality(Good(c, p)) >= s.minpoints /\ SumOver(Good(c, p), LAMBDA m : W(m, c, p)) > 0
      Used(c, p) == IF Enough(c, p) THEN Good(c, p) ELSE M
      SampleOk(c, p) ==
        LET w == SumOver(Used(c, p), LAMBDA m : W(m, c, p))
            v == b.d[1][r][c][p]
        IN /\ b.f[r][c][p] = (IF Enough(c, p) THEN 0 ELSE 1)
           /\ b.w[r][c][p] = Scale * w
           /\ \/ s.average /\ w = 0
              \/ \E m \in Used(c, p) : AbsI(b.d[1][m[1]][c][p][1]) >= Huge \/ AbsI(b.d[1][m[1]][c][p][2]) >= Huge
              \/ \A x \in 1..2 :
                   AbsI((IF s.average THEN v[x] * w ELSE v[x]) - SumOver(Used(c, p), LAMBDA m : W(m, c, p) * V(m, c, p)[x]))
                   <= 4 + 2 * w + AbsI(v[x]) \div 50000
      chans == DOMAIN b.w[r]
      corrs == DOMAIN b.w[r][1]
      All == chans \X corrs
      WSum == SumSeq([c \in chans |-> SumSeq([p \in corrs |-> SumOver(Good(c, p), LAMBDA m : W(m, c, p))])])
      USum(x) == SumSeq([c \in chans |-> SumSeq([p \in corrs |-> SumOver(Good(c, p), LAMBDA m : W(m, c, p) * m[2] * (b.uvw[m[1]][x]))])])
  IN /\ \A e \in All : SampleOk(e[1], e[2])
     /\ IF s.average /\ WSum > 0
        THEN \A x \in 1..3 : AbsI(b.uvw[r][x] * WSum - USum(x)) <= 2 * WSum
        ELSE LET a == Turned(o.pos[o.ant1[r] + 1], b.t)
                 c == Turned(o.pos[o.ant2[r] + 1], b.t)
             IN \A x \in 1..3 : AbsI(b.uvw[r][x] - Scale * (c[x] - a[x])) <= (IF s.round THEN Scale ELSE 2)
SuperOk(s, inf, o, in, b) ==
  LET n == Len(inf.ant1)
      Old(q) == SubSeq(q, 1, n)
  IN /\ SameTime(in, b) /\ b.names = <<"">>
     /\ SameWeights(in, [w |-> Old(b.w)]) /\ SameUvw(in, [uvw |-> Old(b.uvw)]) /\ Old(b.f) = in.f
     /\ SameData(in, [d |-> << Old(b.d[1]) >>], 1)
     /\ Len(b.w) = Len(o.ant1) /\ Len(b.f) = Len(o.ant1) /\ Len(b.d[1]) = Len(o.ant1) /\ Len(b.uvw) = Len(o.ant1)
     /\ \A r \in (n + 1)..Len(o.ant1) : RowMade(s, inf, o, b, r)

(* ------------------------------------------------------------- tables --- *)
Grown(before, after, extra) ==
  /\ DOMAIN after = DOMAIN before
  /\ \A c \in DOMAIN before : SubSeq(after[c], 1, Len(before[c])) = before[c]
  /\ \A c \in DOMAIN before : Len(after[c]) = Len(before[c]) + extra
Fresh(t, c, n) == SubSeq(t[c], n + 1, Len(t[c]))
SuperTablesOk(s, inf, o, before, after) ==
  LET gs == Groups(s)
      n == Len(gs)
      na == Len(inf.names)
      a0 == before["ANTENNA"]
      a1 == after["ANTENNA"]
      beam == "LOFAR_ANTENNA_FIELD" \in DOMAIN before
      New(c) == Fresh(a1, c, na)
      All(c, v) == c \in DOMAIN a0 => New(c) = [k \in 1..n |-> v]
  IN /\ DOMAIN after = DOMAIN before
     /\ Grown([c \in DOMAIN a0 \ {"LOFAR_STATION_ID"} |-> a0[c]], [c \in DOMAIN a1 \ {"LOFAR_STATION_ID"} |-> a1[c]], n)
     /\ New("NAME") = [k \in 1..n |-> gs[k].name]
     /\ All("TYPE", a0["TYPE"][1]) /\ All("MOUNT", a0["MOUNT"][1]) /\ All("FLAG_ROW", 0) /\ All("OFFSET", <<0, 0, 0>>)
     /\ ("STATION" \in DOMAIN a0 => New("STATION") = [k \in 1..n |-> a0["STATION"][1]])
     /\ New("DISH_DIAMETER") = [k \in 1..n |-> o.diam[na + k]]
     /\ \A c \in {"POSITION", "LOFAR_PHASE_REFERENCE"} \cap DOMAIN a0 : New(c) = [k \in 1..n |-> o.pos[na + k]]
     /\ LET f0 == before["FEED"]
            f1 == after["FEED"]
        IN Grown(f0, f1, n) /\ \A c \in DOMAIN f0 :
             Fresh(f1, c, Len(f0[c])) = [k \in 1..n |-> IF c = "ANTENNA_ID" THEN na + k - 1 ELSE f0[c][1]]
     /\ ("LOFAR_STATION_ID" \in DOMAIN a0 =>
           LET c == "LOFAR_STATION_ID" IN
           /\ SubSeq(a1[c], 1, na) = a0[c] /\ Len(a1[c]) = na + n
           /\ New(c) = [k \in 1..n |-> IF beam THEN Len(before["LOFAR_STATION"]["NAME"]) + k - 1 ELSE -1])
     /\ (beam =>
           LET d0 == before["LOFAR_ANTENNA_FIELD"]
               d1 == after["LOFAR_ANTENNA_FIELD"]
               ids == d0["ANTENNA_ID"]
               In(k) == {g \in 1..n : ids[k] \in PartsOf(gs[g])}
               copied == SetToSeq1({k \in DOMAIN ids : In(k) # {}})
               s0 == before["LOFAR_STATION"]
               s1 == after["LOFAR_STATION"]
               ns == Len(s0["NAME"])
               Clocks(k) == {s0["CLOCK_ID"][a0["LOFAR_STATION_ID"][p + 1] + 1] : p \in PartsOf(gs[k])}
           IN /\ Grown(d0, d1, Len(copied))
              /\ \A c \in DOMAIN d0 : Fresh(d1, c, Len(ids)) =
                   [k \in DOMAIN copied |-> IF c = "ANTENNA_ID" THEN na - 1 + (CHOOSE g \in In(copied[k]) : TRUE) ELSE d0[c][copied[k]]]
              /\ Grown(s0, s1, n)
              /\ Fresh(s1, "NAME", ns) = [k \in 1..n |-> gs[k].name] /\ Fresh(s1, "FLAG_ROW", ns) = [k \in 1..n |-> 0]
              /\ \A k \in 1..n :
                   IF Cardinality(Clocks(k)) = 1 THEN s1["CLOCK_ID"][ns + k] \in Clocks(k)
                   ELSE \A m \in 1..(ns + k - 1) : s1["CLOCK_ID"][ns + k] # s1["CLOCK_ID"][m])
=============================================================================
