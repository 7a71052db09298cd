------------------------------ MODULE CliTrace ------------------------------
(* Judges recorded runs of the real program: one observation per moment    *)
(* at which it had changed something, and one after it ended.              *)
EXTENDS CliRules, Sequences, TLC, Json
CONSTANTS File, Prop
Traces == ndJsonDeserialize(File)
VARIABLES t, l, viol
vars == <<t, l, viol>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ viol = {}
Next == /\ l <= Len(Traces[t].ev)
        /\ viol' = viol \cup (Broken(Traces[t].c, Traces[t].ev[l]) \cap RulesOf(Prop))
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Report == viol # {} /\ l > Len(Traces[t].ev) => PrintT("@C" \o ToJson([id |-> Traces[t].id, rules |-> viol]))
=============================================================================
