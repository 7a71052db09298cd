------------------------------ MODULE DecTrace ------------------------------
(* Judges recorded executions of the real decryption context.              *)
EXTENDS DecMonitor, TLC, Json
CONSTANTS File, Prop
Traces == ndJsonDeserialize(File)
VARIABLES t, l, mon, viol
vars == <<t, l, mon, viol>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ mon = MonInit(4) /\ viol = {}
Next == /\ l <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l] IN
             /\ viol' = viol \cup (Judge(mon, e) \cap RulesOf(Prop))
             /\ mon' = After(mon, e)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
\* report every broken rule once, where it first breaks
Report == viol # {} /\ l > Len(Traces[t].ev) =>
            PrintT("@C" \o ToJson([id |-> Traces[t].id, rules |-> viol]))
=============================================================================
