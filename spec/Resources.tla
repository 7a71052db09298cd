----------------------------- MODULE Resources -----------------------------
(***************************************************************************)
(* What operations take and give back (C25).  An operation is a sequence   *)
(* of steps; "+r" opens the resource r, "-r" gives it back, the others use *)
(* what is held.  Any step that can fail may fail; then the operation      *)
(* gives back what it holds and ends with an error.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Opers, Repeat, Bugs, Emit

VARIABLES op, bad, step, held, twice, out, run
vars == <<op, bad, step, held, twice, out, run>>

\* <<kind, resource or name, what makes it fail>>
Steps(o) ==
  CASE o \in {"sign", "verify"} ->
         <<<<"+", "file", "missing">>, <<"+", "map", "nomap">>, <<"use", "map", "">>, <<"-", "map", "">>, <<"use", "file", "unreadable">>, <<"-", "file", "">>>>
    [] o \in {"readsk", "readpk", "readsig"} ->
         <<<<"+", "file", "missing">>, <<"use", "file", "unreadable">>, <<"-", "file", "">>, <<"use", "bytes", "malformed">>>>
    [] o \in {"savesk", "savepk", "savesig"} ->
         <<<<"use", "name", "exists">>, <<"+", "temp", "nodir">>, <<"+", "file", "">>, <<"use", "file", "full">>, <<"-", "file", "">>, <<"-", "temp", "isdir">>>>
    [] o \in {"enc", "encs"} ->
         <<<<"use", "key", "norecipient">>, <<"use", "source", "source">>, <<"use", "dest", "dest">>, <<"use", "dest", "close">>>>
    [] o \in {"dec", "decs"} ->
         <<<<"use", "source", "header">>, <<"use", "key", "wrongkey">>, <<"use", "source", "source">>, <<"use", "source", "tampered">>, <<"use", "dest", "dest">>>>
Causes(o) == {Steps(o)[i][3] : i \in DOMAIN Steps(o)} \ {""}

Init == /\ op \in Opers /\ bad \in Causes(op) \cup {"none"}
        /\ step = 1 /\ held = {} /\ twice = FALSE /\ out = "none" /\ run = 1

Cur == Steps(op)[step]
Give(s) == /\ held' = held \ s /\ twice' = (twice \/ \E r \in s : r \notin held)
Fail == /\ out = "none" /\ step <= Len(Steps(op)) /\ Cur[3] = bad
        /\ out' = "err"
        /\ IF "leak" \in Bugs THEN UNCHANGED <<held, twice>>
           ELSE IF "double" \in Bugs THEN Give(held \cup {"file"})
           ELSE Give(held)
        /\ UNCHANGED <<op, bad, step, run>>
Go == /\ out = "none" /\ step <= Len(Steps(op)) /\ Cur[3] # bad
      /\ step' = step + 1
      /\ CASE Cur[1] = "+" -> held' = held \cup {Cur[2]} /\ UNCHANGED twice
           [] Cur[1] = "-" /\ ~("forget" \in Bugs) -> Give({Cur[2]})
           [] OTHER -> UNCHANGED <<held, twice>>
      /\ UNCHANGED <<op, bad, out, run>>
End == /\ out = "none" /\ step > Len(Steps(op)) /\ out' = "ok" /\ UNCHANGED <<op, bad, step, held, twice, run>>
Again == /\ out # "none" /\ run < Repeat /\ run' = run + 1 /\ step' = 1 /\ out' = "none" /\ UNCHANGED <<op, bad, held, twice>>
Next == Fail \/ Go \/ End \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* nothing is left, and nothing is given back twice
Clean == out # "none" => held = {}
Once == ~twice
Right == out = "ok" => bad = "none"
Ends == <>(out # "none" /\ run = Repeat)

EmitInv == Emit /\ out # "none" /\ run = Repeat =>
  PrintT("@C" \o ToJson([op |-> op, bad |-> bad, ok |-> out = "ok"]))
=============================================================================
