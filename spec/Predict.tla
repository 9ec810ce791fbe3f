------------------------------- MODULE Predict -------------------------------
(* What an interferometer sees of a model of the sky, and what happens to    *)
(* data when the phase centre is moved (P29).                                *)
(*                                                                           *)
(* Directions have rational sines and cosines: a triple <<s, c, d>> with     *)
(* s^2 + c^2 = d^2.  A direction is given by its right ascension relative to *)
(* the phase centre and its declination; only these matter.  Coordinates are *)
(* integers in 1/24 wavelength at the unit frequency, frequencies are        *)
(* multiples of it, so that all phases are rational numbers of turns.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>

(******************************** arithmetic *********************************)
\* 1e5 sin of j / 1000 turn
SinT == <<
  0, 628, 1257, 1885, 2513, 3141, 3769, 4397, 5024, 5652, 6279, 6906, 7533, 8159, 8785, 
  9411, 10036, 10661, 11286, 11910, 12533, 13156, 13779, 14401, 15023, 15643, 16264, 16883, 
  17502, 18121, 18738, 19355, 19971, 20586, 21201, 21814, 22427, 23039, 23650, 24260, 24869, 
  25477, 26084, 26690, 27295, 27899, 28502, 29104, 29704, 30304, 30902, 31499, 32094, 32689, 
  33282, 33874, 34464, 35053, 35641, 36228, 36812, 37396, 37978, 38558, 39137, 39715, 40291, 
  40865, 41438, 42009, 42578, 43146, 43712, 44276, 44838, 45399, 45958, 46515, 47070, 47624, 
  48175, 48725, 49273, 49819, 50362, 50904, 51444, 51982, 52517, 53051, 53583, 54112, 54639, 
  55165, 55688, 56208, 56727, 57243, 57757, 58269, 58779, 59286, 59790, 60293, 60793, 61291, 
  61786, 62279, 62769, 63257, 63742, 64225, 64706, 65183, 65659, 66131, 66601, 67069, 67533, 
  67995, 68455, 68911, 69365, 69817, 70265, 70711, 71154, 71594, 72031, 72465, 72897, 73326, 
  73751, 74174, 74594, 75011, 75425, 75836, 76244, 76649, 77051, 77450, 77846, 78239, 78629, 
  79016, 79399, 79779, 80157, 80531, 80902, 81269, 81634, 81995, 82353, 82708, 83060, 83408, 
  83753, 84094, 84433, 84768, 85099, 85428, 85753, 86074, 86392, 86707, 87018, 87326, 87631, 
  87932, 88229, 88523, 88814, 89101, 89384, 89664, 89941, 90213, 90483, 90748, 91011, 91269, 
  91524, 91775, 92023, 92267, 92508, 92745, 92978, 93207, 93433, 93655, 93873, 94088, 94299, 
  94506, 94710, 94910, 95106, 95298, 95486, 95671, 95852, 96029, 96203, 96372, 96538, 96700, 
  96858, 97013, 97163, 97310, 97453, 97592, 97727, 97858, 97986, 98109, 98229, 98345, 98456, 
  98564, 98669, 98769, 98865, 98958, 99046, 99131, 99211, 99288, 99361, 99430, 99495, 99556, 
  99613, 99667, 99716, 99761, 99803, 99840, 99874, 99903, 99929, 99951, 99968, 99982, 99992, 
  99998, 100000 >>
\* 1e4 2^(-j / 100)
PowT == <<
  10000, 9931, 9862, 9794, 9727, 9659, 9593, 9526, 9461, 9395, 9330, 9266, 9202, 9138, 9075, 
  9013, 8950, 8888, 8827, 8766, 8706, 8645, 8586, 8526, 8467, 8409, 8351, 8293, 8236, 8179, 
  8123, 8066, 8011, 7955, 7900, 7846, 7792, 7738, 7684, 7631, 7579, 7526, 7474, 7423, 7371, 
  7320, 7270, 7220, 7170, 7120, 7071, 7022, 6974, 6926, 6878, 6830, 6783, 6736, 6690, 6643, 
  6598, 6552, 6507, 6462, 6417, 6373, 6329, 6285, 6242, 6199, 6156, 6113, 6071, 6029, 5987, 
  5946, 5905, 5864, 5824, 5783, 5743, 5704, 5664, 5625, 5586, 5548, 5510, 5471, 5434, 5396, 
  5359, 5322, 5285, 5249, 5212, 5176, 5141, 5105, 5070, 5035, 5000 >>
\* the fraction n / d in units of 1e-2, 1e-4, 1e-6 (rounded down), d > 0
Frac2(n, d) == (n * 100) \div d
Frac4(n, d) == (n \div d) * 10000 + Frac2(n % d, d) * 100 + Frac2(((n % d) * 100) % d, d)
Frac6(n, d) == Frac4(n % d, d) * 100
               + Frac2(((((n % d) * 100) % d) * 100) % d, d)
RECURSIVE SinF(_)
\* 1e5 sin of f / 1e6 turn
SinF(f) ==
  LET q == f % 1000000
      j == q \div 1000
      r == q % 1000
  IN IF q < 250000 THEN SinT[j + 1] + ((SinT[j + 2] - SinT[j + 1]) * r) \div 1000
     ELSE IF q = 250000 THEN 100000
     ELSE IF q < 500000 THEN SinF(500000 - q)
     ELSE -SinF(q - 500000)
CosF(f) == SinF(f + 250000)

\* 1e4 sin(pi t) / (pi t), t = n / d turns across the interval
Sinc(n, d) ==
  LET t == Abs(Frac4(n, d))
      y == (((t * t) \div 1000) * 9870) \div 10000          \* 1e4 (pi t)^2, for small t
  IN IF t < 1500 THEN 10000 - y \div 6 + ((y * y) \div 120) \div 10000
     ELSE LET s == SinF(Frac6(Abs(n), 2 * d))
              q == IF t < 1000000 THEN ((s * 10000) \div t) ELSE 0   \* 1e5 s / t
          IN ((q * 113) \div 355) \div 10
\* 1e4 2^(-(x^2 + y^2)), x and y in 1e-4
Bell(x, y) ==
  IF Abs(x) > 40000 \/ Abs(y) > 40000 THEN 0
  ELSE LET e == (x * x) \div 10000 + (y * y) \div 10000
           q == e \div 10000
           f == e % 10000
           j == f \div 100
           p == PowT[j + 1] + ((PowT[j + 2] - PowT[j + 1]) * (f % 100)) \div 100
       IN IF q > 14 THEN 0 ELSE p \div (2 ^ q)

(******************************** geometry ***********************************)
\* everything is multiplied by Den
Den(z, s) == z[3] * s.dra[3] * s.dec[3]
\* unit vector of s in the frame (east, north, towards) of a centre with declination z
Towards(z, s) == << s.dec[2] * s.dra[1] * z[3],
                    s.dec[1] * z[2] * s.dra[3] - s.dec[2] * z[1] * s.dra[2],
                    s.dec[1] * z[1] * s.dra[3] + s.dec[2] * z[2] * s.dra[2] >>
\* the local directions at s: to the east and to the north
East(z, s)  == << s.dra[2] * z[3] * s.dec[3], z[1] * s.dra[1] * s.dec[3], -(z[2] * s.dra[1] * s.dec[3]) >>
North(z, s) == << -(s.dec[1] * s.dra[1] * z[3]),
                  s.dec[2] * z[2] * s.dra[3] + s.dec[1] * z[1] * s.dra[2],
                  s.dec[2] * z[1] * s.dra[3] - s.dec[1] * z[2] * s.dra[2] >>
\* (l, m, n - 1)
Offset(z, s) == Minus(Towards(z, s), <<0, 0, Den(z, s)>>)
\* coordinates b in the frame of s, times Den
InFrame(z, s, b) == << Dot(b, East(z, s)), Dot(b, North(z, s)), Dot(b, Towards(z, s)) >>

(****************************** visibilities *********************************)
\* Stokes flux at multiple k of the unit frequency
FluxI(s, k) == s.s[1] + s.c1 * (k - 1)
\* the complex correlations XX, XY, YX, YY or just I
Corr(s, k, ionly) ==
  IF ionly THEN << <<FluxI(s, k), 0>> >>
  ELSE << <<FluxI(s, k) + s.s[2], 0>>, <<s.s[3], s.s[4]>>, <<s.s[3], -s.s[4]>>, <<FluxI(s, k) - s.s[2], 0>> >>

\* reduction of the amplitude, 1e4: size of the source, width of the channel, rotation of the earth
SizeLoss(ev, s, b, k) ==
  IF ~s.gauss THEN 10000
  ELSE LET c == IF s.abs THEN InFrame(ev.dec0, s, b) ELSE b
           d == 24 * 10 * s.pa[3] * (IF s.abs THEN Den(ev.dec0, s) ELSE 1)
           \* along the position angle, from north over east, and across
           x == k * s.maj * (c[1] * s.pa[1] + c[2] * s.pa[2])
           y == k * s.min * (c[2] * s.pa[1] - c[1] * s.pa[2])
       IN Bell(Frac4(x, d), Frac4(y, d))
WidthLoss(ev, s, b, w) ==
  IF ~ev.freqsmear THEN 10000 ELSE Sinc(w * Dot(b, Offset(ev.dec0, s)), 24 * 100 * Den(ev.dec0, s))
TimeLoss(ev, s, b, k) ==
  IF ~ev.timesmear THEN 10000
  ELSE Sinc(k * Dot(Offset(ev.dec0, s), Cross(b, <<0, ev.ncp[1], ev.ncp[2]>>)), 24 * 100 * Den(ev.dec0, s))
Loss(ev, s, b, c) ==
  (((SizeLoss(ev, s, b, ev.k[c]) * WidthLoss(ev, s, b, ev.w[c])) \div 10000) * TimeLoss(ev, s, b, ev.k[c])) \div 10000

\* contribution of source s to baseline b in channel c: 1e4 <<re, im>> per correlation
Seen(ev, s, b, c) ==
  LET f == Frac6(ev.k[c] * Dot(b, Offset(ev.dec0, s)), 24 * Den(ev.dec0, s))
      a == Loss(ev, s, b, c)
      co == (CosF(f) * a) \div 10000
      si == (SinF(f) * a) \div 10000
      q == Corr(s, ev.k[c], ev.ionly)
  IN [p \in 1..Len(q) |-> << (q[p][1] * co - q[p][2] * si) \div 10, (q[p][1] * si + q[p][2] * co) \div 10 >>]
Bright(s, k) == Abs(FluxI(s, k)) + Abs(s.s[2]) + Abs(s.s[3]) + Abs(s.s[4])

SimOk(ev) ==
  LET nc == IF ev.ionly THEN 1 ELSE 4 IN
  /\ Len(ev.vis) = Len(ev.bl)
  /\ \A n \in 1..Len(ev.bl) :
       LET p == ev.bl[n][1] + 1
           q == ev.bl[n][2] + 1
           b == Minus(ev.uvw[q], ev.uvw[p])
       IN \A c \in 1..Len(ev.k) :
            LET seen == [m \in 1..Len(ev.src) |-> Seen(ev, ev.src[m], b, c)]
                tol == 3 + 12 * SumSeq([m \in 1..Len(ev.src) |-> Bright(ev.src[m], ev.k[c])])
            IN \A x \in 1..nc :
                 IF p = q THEN ev.vis[n][c][x] = <<10000 * ev.init, -10000 * ev.init>>
                 ELSE /\ Abs(ev.vis[n][c][x][1] - 10000 * ev.init
                             - SumSeq([m \in 1..Len(ev.src) |-> seen[m][x][1]])) <= tol
                      /\ Abs(ev.vis[n][c][x][2] + 10000 * ev.init
                             - SumSeq([m \in 1..Len(ev.src) |-> seen[m][x][2]])) <= tol

(************************* coordinates of stations ***************************)
RECURSIVE Closure(_, _)
Closure(E, S) ==
  LET T == S \cup {e[1] : e \in {x \in E : x[2] \in S}} \cup {e[2] : e \in {x \in E : x[1] \in S}}
  IN IF T = S THEN S ELSE Closure(E, T)
Len2(ev, n) == LET d == Minus(ev.pos[ev.bl[n][2] + 1], ev.pos[ev.bl[n][1] + 1]) IN Dot(d, d)
SplitOk(ev) ==
  LET Edges == {<<ev.bl[n][1] + 1, ev.bl[n][2] + 1>> : n \in 1..Len(ev.bl)}
      N == Len(ev.uvw)
      At(x) == IF x < 0 THEN -x ELSE x + 1              \* baseline number of an index
      used == {At(ev.idx[m]) : m \in 1..Len(ev.idx)}
  IN /\ \A u \in used : u \in 1..Len(ev.bl)
     /\ Len(ev.ant) = N
     \* stations explain every baseline
     /\ \A n \in 1..Len(ev.bl) :
          Minus(ev.ant[ev.bl[n][2] + 1], ev.ant[ev.bl[n][1] + 1])
            = Minus(ev.uvw[ev.bl[n][2] + 1], ev.uvw[ev.bl[n][1] + 1])
     \* the first station of each group is the origin
     /\ \A a \in 1..N : (\A x \in Closure(Edges, {a}) : a <= x) => ev.ant[a] = <<0, 0, 0>>
     \* the longest baselines are used: any other one closes a loop of longer ones
     /\ ev.pos # <<>> =>
          \A n \in 1..Len(ev.bl) :
            Len2(ev, n) > 0 =>
              ev.bl[n][2] + 1 \in
                Closure({<<ev.bl[m][1] + 1, ev.bl[m][2] + 1>> : m \in {u \in used : Len2(ev, u) >= Len2(ev, n)}},
                        {ev.bl[n][1] + 1})

(************************* moving the phase centre ***************************)
\* 100 x / d, rounded in either direction
Near100(x, n, d) == Abs(x - Frac2(n, d)) <= 1
LmnOk(ev) ==
  LET d == Den(ev.dec0, ev.to)
      t == Towards(ev.dec0, ev.to)
  IN \A j \in 1..3 : Abs(ev.lmn[j] - ((t[j] * 1000) \div d) * 100 - (((t[j] * 1000) % d) * 100) \div d) <= 1
RotateOk(ev) ==
  /\ Len(ev.out) = Len(ev.uvw)
  /\ \A n \in 1..Len(ev.uvw) : \A j \in 1..3 :
       Near100(ev.out[n][j], InFrame(ev.dec0, ev.to, ev.uvw[n])[j], Den(ev.dec0, ev.to))

Center(z, t) == << (10000 * t.dra[1]) \div t.dra[3], (10000 * t.dra[2]) \div t.dra[3],
                   (10000 * t.dec[1]) \div t.dec[3], (10000 * t.dec[2]) \div t.dec[3] >>
Old(z) == [dra |-> <<0, 1, 1>>, dec |-> z]
\* A chain of shifts: only the last place counts; an empty place is the original one.
Last(ev) == IF ev.to[Len(ev.to)] = <<>> THEN Old(ev.dec0) ELSE ev.to[Len(ev.to)]
ShiftOk(ev) ==
  LET t == Last(ev)
      d == Den(ev.dec0, t)
  IN /\ ev.finished = 1
     /\ Len(ev.out) = Len(ev.bufs)
     /\ \A j \in 1..4 : Abs(ev.center[j] - Center(ev.dec0, t)[j]) <= 1
                        /\ Abs(ev.orig[j] - Center(ev.dec0, Old(ev.dec0))[j]) <= 1
     /\ \A m \in 1..Len(ev.bufs) :
          LET in == ev.bufs[m]
              out == ev.out[m]
          IN \A n \in 1..Len(ev.bl) :
               /\ \A j \in 1..3 : Near100(out.uvw[n][j], InFrame(ev.dec0, t, in.uvw[n])[j], d)
               /\ \A c \in 1..Len(ev.k) :
                    \* what was seen at the new centre becomes flat
                    LET f == Frac6(-(ev.k[c] * Dot(in.uvw[n], Offset(ev.dec0, t))), 24 * d)
                        co == CosF(f)
                        si == SinF(f)
                    IN \A p \in 1..ev.ncorr :
                         LET v == in.data[n][c][p]
                             tol == 2 + (Abs(v[1]) + Abs(v[2])) \div 10
                         IN /\ Abs(out.data[n][c][p][1] - (v[1] * co - v[2] * si) \div 100) <= tol
                            /\ Abs(out.data[n][c][p][2] - (v[1] * si + v[2] * co) \div 100) <= tol
=============================================================================
