-------------------------------- MODULE Mad ---------------------------------
(* Flagging by medians (P32).  A sample is flagged when its amplitude is     *)
(* more than threshold times 1.4826 times the median deviation above the     *)
(* median of the unflagged samples of the same baseline and correlation in a *)
(* window of times and channels around it, mirrored at the edges.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
AbsM(x) == IF x < 0 THEN -x ELSE x
MinM(a, b) == IF a < b THEN a ELSE b
MaxM(a, b) == IF a > b THEN a ELSE b
\* element k of a sequence after sorting
Ranked(q, k) == CHOOSE v \in {q[j] : j \in DOMAIN q} :
  /\ Cardinality({j \in DOMAIN q : q[j] < v}) < k
  /\ Cardinality({j \in DOMAIN q : q[j] <= v}) >= k
\* twice the median
Median2(q) == LET n == Len(q) IN IF n % 2 = 1 THEN 2 * Ranked(q, (n + 1) \div 2) ELSE Ranked(q, n \div 2) + Ranked(q, n \div 2 + 1)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
\* position p mirrored into 1..n
Mirrored(p, n) == IF p < 1 THEN 2 - p ELSE IF p > n THEN 2 * n - p ELSE p

\* value of an expression a + b * length, times 4; lengths are whole
Expr4(e, bl) == e[1] + e[2] * bl
\* a window: rounded, at least one, at most most, odd
Window(e, bl, most) ==
  LET r == MaxM(1, (Expr4(e, bl) + 2) \div 4)
      m == IF most > 0 THEN MinM(r, most) ELSE r
  IN IF m % 2 = 0 THEN m - 1 ELSE m
Length(inf, b) == AbsM(inf.pos[inf.ant1[b] + 1][1] - inf.pos[inf.ant2[b] + 1][1])
Corrs(s, n) ==
  IF s.corrs = <<>> THEN [p \in 1..n |-> p]
  ELSE LET v == SelectSeq(s.corrs, LAMBDA p : p < n)
       IN IF v = <<>> THEN <<1>> ELSE [k \in DOMAIN v |-> v[k] + 1]
InLength(s, inf, b) == Length(inf, b) >= s.blmin /\ (s.blmax = -1 \/ Length(inf, b) <= s.blmax)

\* slots: all time slots; a[t][b][c][p]: amplitudes
Near4(slots, amp, s, inf, t, b, c, p) ==
  LET tw == Window(s.timewindow, Length(inf, b), inf.ntime) \div 2
      fw == Window(s.freqwindow, Length(inf, b), Len(inf.freqs)) \div 2
      nt == Len(slots)
      nc == Len(inf.freqs)
  IN Cat([x \in 1..(2 * tw + 1) |->
       LET tt == Mirrored(t - tw + x - 1, nt) IN
       Cat([y \in 1..(2 * fw + 1) |->
         LET cc == Mirrored(c - fw + y - 1, nc) IN
         IF slots[tt].f[b][cc][p] = 1 THEN <<>> ELSE <<amp[tt][b][cc][p]>>])])
\* "yes", "no", or "any" where rounding decides
Outlier(slots, amp, s, inf, t, b, c, p) ==
  LET q == Near4(slots, amp, s, inf, t, b, c, p)
      z1 == Median2(q)
      z2 == Median2([k \in DOMAIN q |-> AbsM(2 * q[k] - z1)])       \* four times the deviation
      thr == Expr4(s.threshold, Length(inf, b))
      lhs == (2 * amp[t][b][c][p] - z1) * 80000                      \* 160000 times
      rhs == thr * z2 * 14826
  IN IF thr = 0 \/ z2 = 0 THEN (IF lhs > 0 THEN "yes" ELSE "no")
     ELSE IF AbsM(lhs - rhs) < 40 THEN "any" ELSE IF lhs > rhs THEN "yes" ELSE "no"
\* first correlation that settles it: 0 nothing found, -1 flagged already, -2 rounding decides
RECURSIVE Settled(_, _)
Settled(cs, v) == IF cs = <<>> THEN 0
  ELSE CASE v[Head(cs)] = "flagged" -> -1
         [] v[Head(cs)] = "any" -> -2
         [] v[Head(cs)] = "yes" -> Head(cs)
         [] OTHER -> Settled(Tail(cs), v)
Tested(s, inf, b) == IF s.auto THEN inf.ant1[b] = inf.ant2[b] ELSE InLength(s, inf, b)
Result(slots, amp, s, inf, t, b, c) ==
  IF ~Tested(s, inf, b) THEN 0
  ELSE LET cs == Corrs(s, inf.ncorr)
           used == {cs[k] : k \in DOMAIN cs}
       IN Settled(cs, [p \in 1..inf.ncorr |->
            IF p \notin used THEN "no" ELSE IF slots[t].f[b][c][p] = 1 THEN "flagged" ELSE Outlier(slots, amp, s, inf, t, b, c, p)])
AutoOf(inf, a) == LET S == {b \in DOMAIN inf.ant1 : inf.ant1[b] = a /\ inf.ant2[b] = a} IN S
Cross(s, inf, b) ==
  IF s.auto /\ inf.ant1[b] # inf.ant2[b] /\ InLength(s, inf, b) THEN AutoOf(inf, inf.ant1[b]) \cup AutoOf(inf, inf.ant2[b]) ELSE {}
\* flags of one slot; an autocorrelation with its first correlation flagged flags the others
FlagsOk(slots, amp, s, inf, t, f) ==
  \A b \in DOMAIN inf.ant1 : \A c \in DOMAIN inf.freqs :
    LET old == slots[t].f[b][c]
        all == [p \in 1..inf.ncorr |-> 1]
        r == Result(slots, amp, s, inf, t, b, c)
        autos == Cross(s, inf, b)
    IN IF autos # {} THEN f[b][c] = (IF old[1] = 0 /\ \E a \in autos : f[a][c][1] = 1 THEN all ELSE old)
       ELSE CASE r = 0 -> f[b][c] = old [] r = -2 -> f[b][c] \in {old, all} [] OTHER -> f[b][c] = all
\* what was counted for a sample: 1 if it was flagged by this step
Counted(slots, amp, s, inf, t, f, b, c) ==
  IF Cross(s, inf, b) # {} THEN (IF slots[t].f[b][c][1] = 0 /\ f[b][c][1] = 1 THEN 1 ELSE 0)
  ELSE LET r == Result(slots, amp, s, inf, t, b, c) IN IF r > 0 THEN 1 ELSE 0
\* the window always fits what came: otherwise earlier slots see a larger, mirrored, window
Fits(s, inf, n) == \A b \in DOMAIN inf.ant1 : Window(s.timewindow, Length(inf, b), inf.ntime) <= n
=============================================================================
