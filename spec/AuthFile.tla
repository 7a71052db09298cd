------------------------------ MODULE AuthFile ------------------------------
(* Files of several lines: the keys are those of the lines, in order. A    *)
(* line of kind "again" has the same key as the first line, with a comment *)
(* of its own.                                                             *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, MaxLines, Eols, Emit
VARIABLES ls, eol, final, acc
vars == <<ls, eol, final, acc>>
KindsAll == {"key", "keyopt", "keynocomment", "keyquoted", "blank", "spaces", "hash", "rsa", "bad", "oneword", "quote", "long", "longhash", "again"}
KindsFew == {"key", "keyopt", "again", "blank", "hash", "rsa", "bad", "quote"}
Gives(k) == k \in {"key", "keyopt", "keynocomment", "keyquoted", "long", "again"}
Init == ls = <<>> /\ eol \in Eols /\ final \in BOOLEAN /\ acc = <<>>
\* one step of the line scanner: it takes a line and keeps what it yields
Next == /\ Len(ls) < MaxLines
        /\ \E k \in Kinds : /\ ls' = Append(ls, k)
                            /\ acc' = IF Gives(k) THEN Append(acc, Len(ls) + 1) ELSE acc
        /\ UNCHANGED <<eol, final>>
Spec == Init /\ [][Next]_vars
\* the result is the lines that hold a key, in order
Exact == /\ \A i \in DOMAIN acc : Gives(ls[acc[i]]) /\ (i > 1 => acc[i - 1] < acc[i])
         /\ \A j \in DOMAIN ls : Gives(ls[j]) => \E i \in DOMAIN acc : acc[i] = j
EmitInv == Emit => PrintT("@C" \o ToJson([ls |-> ls, eol |-> eol, final |-> final, keys |-> acc]))
=============================================================================
