----------------------------- MODULE Stopwatch -----------------------------
(* Timers: accumulated duration and number of completed start/stop pairs,    *)
(* against a clock that only the environment advances.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
NewTimer == [count |-> 0, total |-> 0, since |-> 0 - 1]
Start(t, now) == [t EXCEPT !.since = now]
Stop(t, now) == [t EXCEPT !.total = @ + (now - t.since), !.count = @ + 1, !.since = 0 - 1]
Reset(t) == [t EXCEPT !.total = 0, !.count = 0]
Plus(t, u) == [t EXCEPT !.total = @ + u.total, !.count = @ + u.count]

(* A quantity d * 10^(3 e) units with d in 1..999 shows as d and the prefix  *)
(* of 10^(3 e); tenths and hundredths show when d < 100 and d < 10.          *)
Prefixes == <<"y", "z", "a", "f", "p", "n", "u", "m", " ", "k", "M", "G", "T", "P", "E", "Z", "Y">>
Prefix(e) == Prefixes[e + 9]                \* e from -8 to 8
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
=============================================================================
