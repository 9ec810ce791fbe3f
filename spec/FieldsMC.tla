------------------------------ MODULE FieldsMC ------------------------------
(* Chains grow at the front; in every reachable state the incrementally      *)
(* maintained requirement equals its operational meaning.                    *)
EXTENDS Fields
CONSTANT MaxLen, F
VARIABLES chain, need
Steps == [req : SUBSET F, prov : SUBSET F]
Init == chain = <<>> /\ need = {}
Next == /\ Len(chain) < MaxLen
        /\ \E s \in Steps : chain' = <<s>> \o chain /\ need' = Before(need, s)
Meaning == \A f \in F : f \in need <=> ReadBeforeCreated(chain, f)
Incremental == need = Needed(chain)
=============================================================================
