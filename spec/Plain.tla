------------------------------- MODULE Plain --------------------------------
(* Steps that turn one stream of time slots into another: upsampling,        *)
(* nulling a Stokes parameter, combining data columns, scaling, filtering    *)
(* baselines and channels, and interpolating flagged samples (P30).          *)
(*                                                                           *)
(* A time slot is t, exp, names, d[name][bl][ch][corr] = <<re, im>>,         *)
(* w[bl][ch][corr], f[bl][ch][corr], uvw[bl]; what the code puts out has the *)
(* same form with visibilities, weights and uvw in units of 1/Scale.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Scale == 4096
NotANumber == 7777                    \* on input
Infinite == 7778
Huge == 1000000000                    \* not finite, on output
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE FlatSeq(_)
FlatSeq(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o FlatSeq(Tail(q))
RECURSIVE SetToSeq1(_)
SetToSeq1(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SetToSeq1(S \ {x})
\* whole number root of n, rounded down
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m)
Root(n) == RootIn(n, 0, 46340)

(* -------------------------------------------------- what stays as it is -- *)
SameWeights(in, o) == o.w = [b \in DOMAIN in.w |-> [c \in DOMAIN in.w[b] |-> [p \in DOMAIN in.w[b][c] |-> Scale * in.w[b][c][p]]]]
SameUvw(in, o) == o.uvw = [b \in DOMAIN in.uvw |-> [x \in 1..3 |-> Scale * in.uvw[b][x]]]
SameData(in, o, k) ==
  o.d[k] = [b \in DOMAIN in.d[k] |-> [c \in DOMAIN in.d[k][b] |-> [p \in DOMAIN in.d[k][b][c] |->
              <<Scale * in.d[k][b][c][p][1], Scale * in.d[k][b][c][p][2]>>]]]
SameTime(in, o) == o.t = in.t /\ o.exp = in.exp
SameRest(in, o) == SameTime(in, o) /\ SameWeights(in, o) /\ SameUvw(in, o) /\ o.f = in.f

(* --------------------------------------------------------- null Stokes --- *)
\* the four visibilities with the chosen Stokes parameters taken out, times 2
Nulled(v, s) ==
  LET I(x) == IF s.i THEN 0 ELSE v[1][x] + v[4][x]
      Q(x) == IF s.q THEN 0 ELSE v[1][x] - v[4][x]
      U(x) == IF s.u THEN 0 ELSE v[2][x] + v[3][x]
      V(x) == IF s.v THEN 0 ELSE v[2][x] - v[3][x]
  IN << <<I(1) + Q(1), I(2) + Q(2)>>, <<U(1) + V(1), U(2) + V(2)>>,
        <<U(1) - V(1), U(2) - V(2)>>, <<I(1) - Q(1), I(2) - Q(2)>> >>
NullOk(s, in, o) ==
  /\ SameRest(in, o)
  /\ \A b \in DOMAIN in.w : \A c \in DOMAIN in.w[b] :
       LET e == Nulled(in.d[1][b][c], s)
       IN o.d[1][b][c] = [p \in 1..4 |-> <<(Scale \div 2) * e[p][1], (Scale \div 2) * e[p][2]>>]

(* ------------------------------------------------------------- combine --- *)
\* s.at: which of the data is added (sign 1) or subtracted (sign -1)
CombineOk(s, in, o) ==
  /\ SameRest(in, o)
  /\ o.names = SelectSeq(in.names, LAMBDA n : n # s.buffer)
  /\ Len(o.d) = Len(o.names)
  /\ LET At(n) == CHOOSE k \in DOMAIN in.names : in.names[k] = n
         x == in.d[At(s.buffer)]
     IN \A k \in DOMAIN o.names :
          LET y == in.d[At(o.names[k])]
              g == IF o.names[k] = "" THEN s.sign ELSE 0
          IN o.d[k] = [b \in DOMAIN y |-> [c \in DOMAIN y[b] |-> [p \in DOMAIN y[b][c] |->
                        << Scale * (y[b][c][p][1] + g * x[b][c][p][1]), Scale * (y[b][c][p][2] + g * x[b][c][p][2])>>]]]
\* rows of baseline-dependent averaged data
RowRest(r, o) ==
  /\ o.t = r.t /\ o.int = r.int /\ o.exp = r.exp /\ o.bl = r.bl /\ o.nch = Len(r.w) /\ o.f = r.f
  /\ o.w = [c \in DOMAIN r.w |-> [p \in DOMAIN r.w[c] |-> Scale * r.w[c][p]]]
  /\ o.uvw = [x \in 1..3 |-> Scale * r.uvw[x]]
CombineRowOk(s, r, o) ==
  /\ RowRest(r, o) /\ Len(o.d) = 1
  /\ o.d[1] = [c \in DOMAIN r.d |-> [p \in DOMAIN r.d[c] |->
                << Scale * (r.d[c][p][1] + s.sign * r.x[c][p][1]), Scale * (r.d[c][p][2] + s.sign * r.x[c][p][2])>>]]

(* ------------------------------------------------------------- scaling --- *)
\* default factors at some frequencies in MHz, for 48 dipoles or 24 tiles
DefaultScale(lba, f) ==
  IF lba THEN CASE f = 30 -> 75175 [] f = 40 -> 36219 [] f = 50 -> 25694 [] f = 60 -> 22927 [] OTHER -> 37494
  ELSE CASE f = 120 -> 2801 [] f = 130 -> 2430 [] f = 150 -> 2239 [] f = 170 -> 2318 [] OTHER -> 2704
RECURSIVE Poly(_, _)
Poly(q, f) == IF q = <<>> THEN 0 ELSE Head(q) + f * Poly(Tail(q), f)
\* the entry of the settings that holds for station a (its number in s.match; 0: none)
Factor(s, a, f) == IF s.match[a] = 0 THEN DefaultScale(s.lba, f) ELSE Poly(s.coeffs[s.match[a]], f)
\* how many times the number of elements is smaller than nominal, times 4
Sized(s, a) == IF s.size = "yes" \/ (s.size = "" /\ s.match[a] = 0) THEN s.elem[a] ELSE 4
\* 1000 times the factor of a baseline; the station factors differ at most 1e6
\* <<r, k>>: the root of n is r / 10^k, as precise as fits
RECURSIVE FineRoot(_, _)
FineRoot(n, k) == IF n < 20000000 THEN FineRoot(n * 100, k + 1) ELSE <<Root(n), k>>
BaselineFactor(s, a1, a2, f) ==
  LET n == Factor(s, a1, f) * Sized(s, a1)
      m == Factor(s, a2, f) * Sized(s, a2)            \* 250 times the root of n m
      x == FineRoot(n, 0)
      y == FineRoot(m, 0)
      k == x[2] + y[2]
  IN IF n = m THEN 250 * n
     ELSE IF k = 2 THEN ((x[1] * y[1]) \div 2) * 5
     ELSE ((x[1] * y[1]) \div 4) \div (10 ^ (k - 3))
\* visibility v times 1000 g / 1000, in 1/Scale
Scaled(v, g) == IF g < 40000 THEN 4 * (v * g) + (96 * (v * g)) \div 1000
                ELSE (g \div 1000) * v * Scale + ((g % 1000) * v * Scale) \div 1000
ScaleTol(v, g) == 8 + AbsI(v) * 8 + (AbsI(v) * (g \div 1000)) * 9
ScaleValueOk(v, g, o) == AbsI(o - Scaled(v, g)) <= ScaleTol(v, g)
ScaleOk(s, inf, in, o) ==
  /\ SameRest(in, o)
  /\ \A b \in DOMAIN in.w : \A c \in DOMAIN in.w[b] :
       LET g == BaselineFactor(s, inf.ant1[b] + 1, inf.ant2[b] + 1, inf.freqs[c])
       IN \A p \in DOMAIN in.w[b][c] : \A x \in 1..2 : ScaleValueOk(in.d[1][b][c][p][x], g, o.d[1][b][c][p][x])
\* frequency of channel c of m averaged ones
BdaFreq(inf, m, c) ==
  LET n == Len(inf.freqs) IN (inf.freqs[((c - 1) * n) \div m + 1] + inf.freqs[(c * n) \div m]) \div 2
ScaleRowOk(s, inf, r, o) ==
  /\ RowRest(r, o)
  /\ \A c \in DOMAIN r.w :
       LET g == BaselineFactor(s, inf.ant1[r.bl] + 1, inf.ant2[r.bl] + 1, BdaFreq(inf, Len(r.w), c))
       IN \A p \in DOMAIN r.w[c] : \A x \in 1..2 : ScaleValueOk(r.d[c][p][x], g, o.d[1][c][p][x])

(* -------------------------------------------------------------- filter --- *)
\* s.pairs: wanted pairs of stations (from 0, either order), s.corr "" | "auto" | "cross"
Wanted(s, inf, b) ==
  LET a == inf.ant1[b]
      c == inf.ant2[b]
  IN /\ (s.pairs = <<>> \/ \E k \in DOMAIN s.pairs : s.pairs[k] = <<a, c>> \/ s.pairs[k] = <<c, a>>)
     /\ (s.corr = "auto" => a = c)
     /\ (s.corr = "cross" => a # c)
Kept(s, inf) == SetToSeq1({b \in DOMAIN inf.ant1 : Wanted(s, inf, b)})
Channels(s, inf) ==
  LET n == Len(inf.freqs) - s.start
      m == IF s.nchan = 0 THEN n ELSE MinI(n, s.nchan)
  IN [k \in 1..m |-> s.start + k]
Passes(s, inf) == s.start < Len(inf.freqs) /\ Kept(s, inf) # <<>>
StationsUsed(inf, kept) == {inf.ant1[kept[k]] : k \in DOMAIN kept} \cup {inf.ant2[kept[k]] : k \in DOMAIN kept}
FilterInfoOk(s, inf, o) ==
  LET kept == Kept(s, inf)
      ch == Channels(s, inf)
      left == IF s.remove THEN SetToSeq1(StationsUsed(inf, kept)) ELSE [a \in 1..Len(inf.pos) |-> a - 1]
      New(a) == (CHOOSE k \in DOMAIN left : left[k] = a) - 1
  IN /\ o.nchan = Len(ch) /\ o.startchan = s.start
     /\ o.freqs = << [k \in DOMAIN ch |-> 16 * inf.freqs[ch[k]]] >>
     /\ o.widths = << [k \in DOMAIN ch |-> 16 * inf.widths[ch[k]]] >>
     /\ o.names = [k \in DOMAIN left |-> inf.names[left[k] + 1]]
     /\ o.pos = [k \in DOMAIN left |-> inf.pos[left[k] + 1]]
     /\ o.ant1 = [k \in DOMAIN kept |-> New(inf.ant1[kept[k]])]
     /\ o.ant2 = [k \in DOMAIN kept |-> New(inf.ant2[kept[k]])]
     /\ o.ntime = inf.ntime /\ o.ncorr = inf.ncorr
FilterOk(s, inf, in, o) ==
  LET kept == Kept(s, inf)
      ch == Channels(s, inf)
      Cut(q) == [k \in DOMAIN kept |-> [c \in DOMAIN ch |-> q[kept[k]][ch[c]]]]
      Small == [w |-> Cut(in.w), f |-> Cut(in.f), d |-> << Cut(in.d[1]) >>, uvw |-> [k \in DOMAIN kept |-> in.uvw[kept[k]]]]
  IN /\ SameTime(in, o) /\ SameWeights(Small, o) /\ SameUvw(Small, o) /\ o.f = Small.f
     /\ o.names = <<"">> /\ SameData(Small, o, 1)
     /\ ("rownrs" \in DOMAIN in => ("rownrs" \in DOMAIN o /\ o.rownrs = [k \in DOMAIN kept |-> in.rownrs[kept[k]]]))

\* tables of the data set after stations were removed: rows that refer to a
\* removed station (or to a removed antenna field) are gone, others renumbered
Column(t, c, rows) == [k \in DOMAIN rows |-> t[c][rows[k]]]
Without(t, c, map) ==       \* table t with ids of column c renamed; map[id + 1] = -1: removed
  LET rows == SetToSeq1({k \in DOMAIN t[c] : map[t[c][k] + 1] # -1})
  IN [x \in DOMAIN t |-> IF x = c THEN [k \in DOMAIN rows |-> map[t[c][rows[k]] + 1]] ELSE Column(t, x, rows)]
Renumbered(gone, n) == [k \in 1..n |-> IF k - 1 \in gone THEN -1 ELSE k - 1 - Cardinality({g \in gone : g < k - 1})]
TablesOk(left, before, after) ==
  LET names == before["ANTENNA"]["NAME"]
      gone == {k - 1 : k \in {m \in DOMAIN names : \A x \in DOMAIN left : left[x] # names[m]}}
      map == Renumbered(gone, Len(names))
      Simple == {"FEED", "POINTING", "SYSCAL"}
  IN IF gone = {} THEN after = before
     ELSE /\ DOMAIN after = DOMAIN before
          /\ after["ANTENNA"]["NAME"] = SelectSeq(names, LAMBDA n : \E x \in DOMAIN left : left[x] = n)
          /\ \A t \in Simple \cap DOMAIN before : after[t] = Without(before[t], "ANTENNA_ID", map)
          /\ "QUALITY_BASELINE_STATISTIC" \in DOMAIN before =>
               after["QUALITY_BASELINE_STATISTIC"] =
                 Without(Without(before["QUALITY_BASELINE_STATISTIC"], "ANTENNA1", map), "ANTENNA2", map)
          /\ "LOFAR_ANTENNA_FIELD" \in DOMAIN before =>
               LET f == before["LOFAR_ANTENNA_FIELD"]
                   fgone == {k - 1 : k \in {m \in DOMAIN f["ANTENNA_ID"] : f["ANTENNA_ID"][m] \in gone}}
               IN /\ after["LOFAR_ANTENNA_FIELD"] = Without(f, "ANTENNA_ID", map)
                  /\ "LOFAR_ELEMENT_FAILURE" \in DOMAIN before =>
                       after["LOFAR_ELEMENT_FAILURE"] =
                         Without(before["LOFAR_ELEMENT_FAILURE"], "ANTENNA_FIELD_ID", Renumbered(fgone, Len(f["ANTENNA_ID"])))

(* ------------------------------------------------------- interpolation --- *)
\* 1e6 exp(-n / 2)
Kernel == <<1000000, 606531, 367879, 223130, 135335, 82085, 49787, 30197, 18316>>
Finite(v) == v[1] < NotANumber /\ v[2] < NotANumber
\* num / den in 1/Scale, den < 3e7
Ratio(num, den) == LET r == num % den
                   IN (num \div den) * Scale + ((r * 64) \div den) * 64 + (((r * 64) % den) * 64) \div den
InterpolatedOk(slots, half, t, b, c, p, v, f) ==
  LET nch == Len(slots[1].w[b])
      near == {<<s, k>> \in (MaxI(1, t - half)..MinI(Len(slots), t + half)) \X (MaxI(1, c - half)..MinI(nch, c + half)) :
                 slots[s].f[b][k][p] = 0}
      seq == SetToSeq1({1000 * x[1] + x[2] : x \in near})
      W(q) == Kernel[((q \div 1000) - t) * ((q \div 1000) - t) + ((q % 1000) - c) * ((q % 1000) - c) + 1]
      V(q) == slots[q \div 1000].d[1][b][q % 1000][p]
      den == SumSeq([k \in DOMAIN seq |-> W(seq[k])])
      good == seq # <<>> /\ \A k \in DOMAIN seq : Finite(V(seq[k]))
  IN IF slots[t].f[b][c][p] = 0
     THEN LET x == slots[t].d[1][b][c][p]
          IN IF Finite(x) THEN f = 0 /\ v = <<Scale * x[1], Scale * x[2]>> ELSE f = 1 /\ v = <<0, 0>>
     ELSE IF good
     THEN f = 0 /\ \A x \in 1..2 :
            AbsI(v[x] - Ratio(SumSeq([k \in DOMAIN seq |-> W(seq[k]) * V(seq[k])[x]]), den)) <= 12
     ELSE f = 1 /\ v = <<0, 0>>
InterpolateOk(s, slots, out) ==
  /\ Len(out) = Len(slots)
  /\ \A t \in DOMAIN slots :
       /\ SameTime(slots[t], out[t]) /\ SameWeights(slots[t], out[t]) /\ SameUvw(slots[t], out[t])
       /\ \A b \in DOMAIN slots[t].w : \A c \in DOMAIN slots[t].w[b] : \A p \in DOMAIN slots[t].w[b][c] :
            InterpolatedOk(slots, s.window \div 2, t, b, c, p, out[t].d[1][b][c][p], out[t].f[b][c][p])

(* ---------------------------------------------------------- upsampling --- *)
\* sub slot j of a slot centred at t
SubTime(t, int, n, j) == t - int \div 2 + ((2 * j - 1) * int) \div (2 * n)
AllFlagged(in) == \A b \in DOMAIN in.f : \A c \in DOMAIN in.f[b] : \A p \in DOMAIN in.f[b][c] : in.f[b][c][p] = 1
\* how many last sub slots of slot k are also covered by slot k + 1
Overlap(slots, int, n, k) ==
  IF k >= Len(slots) THEN 0
  ELSE Cardinality({j \in 1..n : \E q \in 1..n :
          AbsI(SubTime(slots[k].t, int, n, j) - SubTime(slots[k + 1].t, int, n, q)) <= (2 * (int \div n)) \div 5})
\* of doubly covered sub slots one is kept: the later one, unless it is flagged
SubSlots(slots, int, n) ==
  FlatSeq([k \in 1..Len(slots) |->
     LET lo == IF k > 1 /\ AllFlagged(slots[k]) THEN Overlap(slots, int, n, k - 1) + 1 ELSE 1
         hi == IF k < Len(slots) /\ ~AllFlagged(slots[k + 1]) THEN n - Overlap(slots, int, n, k) ELSE n
     IN [j \in 1..(hi - lo + 1) |-> <<k, lo + j - 1>>]])
\* stations turned about the pole once a day, seen from the phase centre (0, 0), for whole quarters of a day
Turned(pos, ms) ==
  LET q == ((ms + 10800000) \div 21600000) % 4
  IN CASE q = 0 -> <<pos[2], pos[3], pos[1]>> [] q = 1 -> <<pos[1], pos[3], -pos[2]>>
       [] q = 2 -> <<-pos[2], pos[3], -pos[1]>> [] OTHER -> <<-pos[1], pos[3], pos[2]>>
StationUvw(inf, b, ms) ==
  LET a == Turned(inf.pos[inf.ant1[b] + 1], ms)
      c == Turned(inf.pos[inf.ant2[b] + 1], ms)
  IN <<c[1] - a[1], c[2] - a[2], c[3] - a[3]>>
UpsampleOk(s, inf, slots, out) ==
  LET e == SubSlots(slots, inf.interval, s.n)
  IN /\ Len(out) = Len(e)
     /\ \A k \in DOMAIN e :
          LET in == slots[e[k][1]]
              ms == SubTime(in.t, inf.interval, s.n, e[k][2])
              o == out[k]
          IN /\ o.t = ms /\ o.exp = in.exp \div s.n
             /\ SameWeights(in, o) /\ SameData(in, o, 1) /\ o.f = in.f
             /\ IF s.update
                THEN \A b \in DOMAIN in.uvw : \A x \in 1..3 : AbsI(o.uvw[b][x] - Scale * StationUvw(inf, b, ms)[x]) <= 2
                ELSE SameUvw(in, o)
UpsampleInfoOk(s, inf, o) ==
  /\ o.ntime = inf.ntime * s.n /\ o.int = inf.interval \div s.n
  /\ o.t0 = SubTime(inf.t0, inf.interval, s.n, 1)
  /\ o.t1 = SubTime(inf.t0 + (inf.ntime - 1) * inf.interval, inf.interval, s.n, s.n)
  /\ 2 * o.start = 2 * inf.t0 - inf.interval
  /\ o.meta
=============================================================================
