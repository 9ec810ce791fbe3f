---------------------------- MODULE StopwatchGen ----------------------------
(* Behaviours for replay: random walks over the timer operations.            *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
VARIABLES h, run
Ks == 1..3
Op(e) == h' = Append(h, e)
Init == h = <<>> /\ run = [k \in Ks |-> FALSE]
Next ==
  \/ \E d \in {0, 1, 7, 250, 1500} : Op([op |-> "tick", d |-> d]) /\ UNCHANGED run
  \/ \E k \in Ks : ~run[k] /\ Op([op |-> "start", k |-> k]) /\ run' = [run EXCEPT ![k] = TRUE]
  \/ \E k \in Ks : run[k] /\ Op([op |-> "stop", k |-> k]) /\ run' = [run EXCEPT ![k] = FALSE]
  \/ \E k \in Ks : ~run[k] /\ Op([op |-> "reset", k |-> k]) /\ UNCHANGED run
  \/ \E k, j \in Ks : ~run[k] /\ Op([op |-> "add", k |-> k, j |-> j]) /\ UNCHANGED run
  \/ \E k, j \in Ks : ~run[k] /\ ~run[j] /\ k # j /\ Op([op |-> "copy", k |-> k, j |-> j]) /\ UNCHANGED run
  \/ \E k \in Ks, d \in {3, 40}, o \in {"scope", "throw"} : ~run[k] /\ Op([op |-> o, k |-> k, d |-> d]) /\ UNCHANGED run
  \/ \E d \in {0, 5, 11} : Op([op |-> "accu", d |-> d]) /\ UNCHANGED run
Depth == 15
Emit == Len(h) = Depth => PrintT(<<"@@B@@", ToJson(h)>>)
Bound == Len(h) <= Depth
=============================================================================
