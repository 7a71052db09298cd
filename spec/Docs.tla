-------------------------------- MODULE Docs --------------------------------
(***************************************************************************)
(* Key and signature files (C16) as another program that knows the format  *)
(* might write them: YAML mappings with these keys, in any order and any   *)
(* of the usual ways to write a string.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, Quotes, Frames, Emit

VARIABLES kind, com, order, quote, frame
vars == <<kind, com, order, quote, frame>>

Fields(k) == CASE k = "priv" -> {"esk", "salt", "algo", "Z", "r", "p"} [] k = "pub" -> {"pk", "hash"} [] k = "sig" -> {"pkhash", "signature"}

Init == /\ kind \in Kinds /\ com \in {"none", "word", "words", "empty"} /\ quote \in Quotes /\ frame \in Frames /\ order = <<>>
All == Fields(kind) \cup (IF com = "none" THEN {} ELSE {"comment"})
Written == {order[i] : i \in DOMAIN order}
Next == \E f \in All \ Written : order' = Append(order, f) /\ UNCHANGED <<kind, com, quote, frame>>
Spec == Init /\ [][Next]_vars

Once == Cardinality(Written) = Len(order)
EmitInv == Emit /\ Written = All =>
  PrintT("@C" \o ToJson([kind |-> kind, com |-> com, order |-> order, quote |-> quote, frame |-> frame]))
=============================================================================
