---------------------------- MODULE StopwatchMC ----------------------------
(* Two timers against a clock that advances at will: a timer never reports   *)
(* more time than has passed while it ran, and counts each pair once.        *)
EXTENDS Stopwatch
CONSTANT MaxNow, MaxCount
VARIABLES now, t, ran
vars == <<now, t, ran>>
Init == now = 0 /\ t = [k \in 1..2 |-> NewTimer] /\ ran = [k \in 1..2 |-> 0]
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED t
        /\ ran' = [k \in 1..2 |-> IF t[k].since >= 0 THEN ran[k] + 1 ELSE ran[k]]
DoStart(k) == t[k].since < 0 /\ t' = [t EXCEPT ![k] = Start(@, now)] /\ UNCHANGED <<now, ran>>
DoStop(k) == t[k].since >= 0 /\ t[k].count < MaxCount /\ t' = [t EXCEPT ![k] = Stop(@, now)] /\ UNCHANGED <<now, ran>>
DoReset(k) == t[k].since < 0 /\ t' = [t EXCEPT ![k] = Reset(@)] /\ ran' = [ran EXCEPT ![k] = 0] /\ UNCHANGED now
Next == Tick \/ \E k \in 1..2 : DoStart(k) \/ DoStop(k) \/ DoReset(k)
\* all time while running is accounted for: exactly, at every point
Exact == \A k \in 1..2 : t[k].total + (IF t[k].since >= 0 THEN now - t[k].since ELSE 0) = ran[k]
NotMore == \A k \in 1..2 : t[k].total <= now
=============================================================================
