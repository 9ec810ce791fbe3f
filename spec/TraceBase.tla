----------------------------- MODULE TraceBase -----------------------------
(* Binding of a specification to the implementation.                        *)
(*                                                                          *)
(* A trace is an ndjson file of events recorded from the real code.  An     *)
(* event with op = "new" opens a history; every further event is one step   *)
(* of that history.  A trace module EXTENDS this one and defines            *)
(*   TInit == Open(StartSt)  and  TNext == Advance(Judge)   where           *)
(*   StartSt(ev)    is the specification state after the opening event      *)
(*   Judge(st, ev)  is <<accepted, next specification state>>               *)
(* All histories are explored in parallel; TLC visits exactly one state per *)
(* event, which the runner verifies (no event can be skipped silently).     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES i, st, ok

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
TraceLen == Len(Trace)
TraceStarts == {k \in 1..TraceLen : Trace[k].op = "new"}

Open(StartSt(_)) == /\ i \in TraceStarts
                    /\ st = StartSt(Trace[i])
                    /\ ok = TRUE

Advance(Judge(_, _)) ==
  /\ ok
  /\ i < TraceLen
  /\ Trace[i + 1].op # "new"
  /\ LET r == Judge(st, Trace[i + 1])
     IN /\ ok' = r[1]
        /\ st' = r[2]
  /\ i' = i + 1

TraceOk == ok
=============================================================================
