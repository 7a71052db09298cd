-------------------------------- MODULE Rand --------------------------------
(***************************************************************************)
(* Random values (C21): what each operation draws from the system's source *)
(* of randomness, which may hand out fewer bytes than asked for and may    *)
(* fail at any byte.                                                       *)
(*                                                                         *)
(* Values, in bytes: esk 32 the ephemeral secret, fk 32 the file key, salt *)
(* 32, n1 .. nk 12 the nonce of each recipient, trl 64 the trailer of a    *)
(* file without sender, seed 32 of a new key, ksalt 32 of a saved private  *)
(* key.                                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Opers,     \* which operations
          Ks,        \* numbers of recipients
          Chunks,    \* how many bytes the source hands out at most per call (0: all)
          Fails,     \* where the source fails: "never" or a place in some value
          Runs,      \* how many operations one after the other
          Bugs, Emit

VARIABLES op, k, chunk, fail, run, todo, cur, pos, vals, out
vars == <<op, k, chunk, fail, run, todo, cur, pos, vals, out>>

Nonces(n) == [i \in 1..n |-> <<<<"n1", "n2", "n3", "n4", "n5">>[i], 12>>]
\* a private key is saved with a passphrase, without, with a long one
Saves == {"save", "save0", "savel"}
Needs(o, n) ==
  CASE o \in {"enc", "encs"}   -> <<<<"esk", 32>>, <<"fk", 32>>, <<"salt", 32>>>> \o Nonces(n) \o <<<<"trl", 64>>>>
    [] o \in {"senc", "sencs"} -> <<<<"esk", 32>>, <<"fk", 32>>, <<"salt", 32>>>> \o Nonces(n)
    [] o = "newkey"            -> <<<<"seed", 32>>>>
    [] o \in Saves             -> <<<<"ksalt", 32>>>>
Total(o, n) == LET s == Needs(o, n) f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i][2] IN f[Len(s)]

\* the byte at which the source fails
Place(f, o, n) == LET t == Total(o, n) IN
  CASE f = "never" -> t * 10 + 1000 [] f = "first" -> 0 [] f = "second" -> 1 [] f = "last" -> t - 1 [] f = "mid" -> t \div 2
    [] f = "b31" -> 31 [] f = "b32" -> 32 [] f = "b64" -> 64 [] f = "b95" -> 95 [] f = "b96" -> 96 [] f = "b107" -> 107 [] f = "next" -> t + 5

Init == /\ op \in Opers /\ k \in (IF op \in Saves \cup {"newkey"} THEN {0} ELSE Ks) /\ chunk \in Chunks /\ fail \in Fails
        /\ run = 1 /\ todo = Needs(op, k) /\ cur = <<>> /\ pos = 0 /\ vals = <<>> /\ out = "none"

\* vals: <<name, run, first byte, bytes>>
Begin == /\ out = "none" /\ cur = <<>> /\ todo # <<>>
         /\ cur' = <<Head(todo)[1], Head(todo)[2], pos, 0>> /\ todo' = Tail(todo)
         /\ UNCHANGED <<op, k, chunk, fail, run, pos, vals, out>>
Failing == pos >= Place(fail, op, k)
Keep(v) == vals' = Append(vals, v) /\ cur' = <<>>
Draw == /\ out = "none" /\ cur # <<>>
        /\ LET left == cur[2] - cur[4]
               n == LET m == IF chunk = 0 \/ chunk > left THEN left ELSE chunk
                        c == Place(fail, op, k) - pos IN IF c < m THEN c ELSE m
               old == {v \in {vals[i] : i \in DOMAIN vals} : v[1] = cur[1]}
           IN CASE "reuse" \in Bugs /\ old # {} /\ cur[1] = "fk" ->
                     LET v == CHOOSE v \in old : TRUE IN Keep(<<cur[1], run, v[3], v[4]>>) /\ UNCHANGED <<pos, out>>
                [] "derive" \in Bugs /\ cur[1] = "salt" ->
                     LET v == CHOOSE v \in {vals[i] : i \in DOMAIN vals} : v[1] = "fk" /\ v[2] = run IN Keep(<<"salt", run, v[3], v[4]>>) /\ UNCHANGED <<pos, out>>
                [] Failing ->
                     IF "ignoreErr" \in Bugs THEN Keep(<<cur[1], run, cur[3], cur[4]>>) /\ UNCHANGED <<pos, out>>
                     ELSE out' = "failed" /\ UNCHANGED <<cur, vals, pos>>
                [] OTHER ->
                     /\ pos' = pos + n /\ UNCHANGED out
                     /\ IF cur[4] + n = cur[2] \/ "shortOk" \in Bugs THEN Keep(<<cur[1], run, cur[3], cur[4] + n>>)
                        ELSE cur' = [cur EXCEPT ![4] = @ + n] /\ UNCHANGED vals
        /\ UNCHANGED <<op, k, chunk, fail, run, todo>>
Done == /\ out = "none" /\ cur = <<>> /\ todo = <<>>
        /\ IF run < Runs THEN run' = run + 1 /\ todo' = Needs(op, k) /\ UNCHANGED out
           ELSE out' = "ok" /\ UNCHANGED <<run, todo>>
        /\ UNCHANGED <<op, k, chunk, fail, cur, pos, vals>>
Next == Begin \/ Draw \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Size(n) == CASE n = "trl" -> 64 [] n \in {"n1", "n2", "n3", "n4", "n5"} -> 12 [] OTHER -> 32
\* every value is full, and no random byte is used for two values
Full == out = "ok" => \A i \in DOMAIN vals : vals[i][4] >= Size(vals[i][1])
Own == \A i, j \in DOMAIN vals : i < j => vals[i][3] + vals[i][4] <= vals[j][3] \/ vals[j][3] + vals[j][4] <= vals[i][3]
\* a source that failed while it was needed means failure
Honest == out = "ok" => pos = Runs * Total(op, k) /\ pos <= Place(fail, op, k)
Ends == out # "none"
EmitInv == Emit /\ Ends =>
  PrintT("@C" \o ToJson([op |-> op, k |-> k, chunk |-> chunk, fail |-> IF fail = "never" THEN 999999 ELSE Place(fail, op, k), ok |-> out = "ok",
                         runs |-> Runs, needs |-> Needs(op, k)]))
=============================================================================
