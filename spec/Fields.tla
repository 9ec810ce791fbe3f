------------------------------- MODULE Fields -------------------------------
(* Which kinds of data (visibilities, flags, weights, uvw) a chain of       *)
(* processing steps needs.  A step is [req, prov]: what it reads and what   *)
(* it supplies.  A field that a step supplies without reading it is created *)
(* there.                                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

FieldNames == <<"data", "flags", "weights", "uvw">>
AllFields == {"data", "flags", "weights", "uvw"}

\* needed before step s, given what is needed after it
Before(after, s) == (after \cup s.req) \ (s.prov \ s.req)

RECURSIVE Needed(_)
Needed(chain) == IF chain = <<>> THEN {}
                 ELSE Before(Needed(Tail(chain)), Head(chain))

\* What "needed" means: run the chain; some step reads the field before any
\* earlier step has created it.
ReadBeforeCreated(chain, f) ==
  \E k \in 1..Len(chain) :
     /\ f \in chain[k].req
     /\ \A j \in 1..(k - 1) : f \notin (chain[j].prov \ chain[j].req)

\* What the writers of a chain have to write: everything supplied since the
\* previous writer.  A chain is a sequence of [w: BOOLEAN, prov: set].
RECURSIVE Writes(_, _)
Writes(chain, acc) == IF chain = <<>> THEN <<>>
                      ELSE IF Head(chain).w THEN <<acc>> \o Writes(Tail(chain), {})
                      ELSE Writes(Tail(chain), acc \cup Head(chain).prov)
=============================================================================
