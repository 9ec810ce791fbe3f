------------------------------ MODULE GainsMC ------------------------------
(* The buffer of baseline-dependent rows under every arrival order: two     *)
(* baselines whose rows (2 or 4 long) follow each other up to time Last,    *)
(* put into buffers of one or two rows.                                     *)
EXTENDS Gains, TLC
Last == 8
Interval == 4
VARIABLES b, next, sent, got
vars == <<b, next, sent, got>>
Row(bl, w) == [t |-> next[bl + 1] + w \div 2, int |-> w, bl |-> bl]
Ready(bl, w) == next[bl + 1] + w <= Last
Init == b = NewBda(0, Interval, 2) /\ next = <<0, 0>> /\ sent = <<>> /\ got = <<>>
Send(rs) == /\ Fits(b, rs)
            /\ b' = AppendBuf(b, rs)
            /\ sent' = Append(sent, Names(rs))
            /\ UNCHANGED got
One == \E bl \in 0..1 : \E w \in {2, 4} :
         /\ Ready(bl, w) /\ Rel(b, Row(bl, w).t) >= 0
         /\ Send(<<Row(bl, w)>>) /\ next' = [next EXCEPT ![bl + 1] = @ + w]
Two == \E w \in {2, 4} : \E v \in {2, 4} :
         /\ Ready(0, w) /\ Ready(1, v) /\ Rel(b, Row(0, w).t) >= 0 /\ Rel(b, Row(1, v).t) >= 0
         /\ Send(<<Row(0, w), Row(1, v)>>) /\ next' = <<next[1] + w, next[2] + v>>
Over == next = <<Last, Last>>
Step == /\ Full(b) \/ Over
        /\ b.cur <= Last \div Interval
        /\ b' = Advanced(b) /\ UNCHANGED <<next, sent, got>>
Take == /\ b.done # <<>> /\ got' = got \o b.done /\ b' = [b EXCEPT !.done = <<>>] /\ UNCHANGED <<next, sent>>
Next == One \/ Two \/ Step \/ Take
Spec == Init /\ [][Next]_vars
\* buffers come back whole, once, in order
InOrder == got \o b.done \o b.bufs = sent
\* a buffer is kept exactly as long as it, or one before it, has rows to come
Kept == b.bufs # <<>> => \E n \in DOMAIN Head(b.bufs) : Rel(b, Head(b.bufs)[n][2]) >= 0
\* no row falls between two intervals
NoneLost == \A k \in DOMAIN sent : \A n \in DOMAIN sent[k] :
              LET at == sent[k][n][2] \div Interval IN
              at >= b.cur => \E q \in DOMAIN b.rows : <<b.rows[q].bl, b.rows[q].t>> = sent[k][n]
\* a complete interval gets no more rows (rows in the order of their baselines fit)
Final == [][(Full(b) /\ b'.cur = b.cur) => Current(b') = Current(b)]_vars
\* nothing in order is ever refused
Accepts == \A bl \in 0..1 : \A w \in {2, 4} : Ready(bl, w) /\ Rel(b, Row(bl, w).t) >= 0 => RowFits(b, Row(bl, w))
\* the offset of the solution is within its direction and never decreases with time
Offsets == \A n \in 1..4 : \A t \in 0..Interval : LET at(x) == MinOf(n - 1, (x * n) \div Interval) IN
             at(t) \in 0..(n - 1) /\ (t > 0 => at(t) >= at(t - 1))
=============================================================================
