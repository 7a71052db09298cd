------------------------------ MODULE KeyForms -----------------------------
(***************************************************************************)
(* One key in many forms (C10): what is done with the private half in one  *)
(* form is accepted by the public half in any form, and by no other key.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Keys, PrivForms, PubForms, Uses, Emit
VARIABLES pc, k, f, k2, f2, use, ok
vars == <<pc, k, f, k2, f2, use, ok>>
Init == /\ pc = "use" /\ k \in Keys /\ f \in PrivForms /\ k2 \in Keys /\ f2 \in PubForms /\ use \in Uses /\ ok = FALSE
\* reading a form yields the key it was made from
KeyOf(key, form) == key
Use == /\ pc = "use" /\ pc' = "done"
       /\ ok' = (KeyOf(k, f) = KeyOf(k2, f2))
       /\ UNCHANGED <<k, f, k2, f2, use>>
Next == Use
Spec == Init /\ [][Next]_vars
Same == pc = "done" => (ok <=> k = k2)
EmitInv == Emit /\ pc = "done" => PrintT("@C" \o ToJson([k |-> k, f |-> f, k2 |-> k2, f2 |-> f2, use |-> use, ok |-> ok]))
=============================================================================
