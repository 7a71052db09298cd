-------------------------------- MODULE Recip --------------------------------
(***************************************************************************)
(* The recipients of the encrypt command (C17).                            *)
(*                                                                         *)
(* Lines of authorized_keys (key, comment):                                *)
(*   a, opt   A, alice@host (opt: after options)    b      B, bob@host     *)
(*   dup      X, alice@host                         user   X, alice        *)
(*   more     X, alice@host.org                     short  X, alice@hos    *)
(*   words    X, "alice@host laptop"                word2  X, "of alice@host" *)
(*   case     X, Alice@host                         nocom  X, none         *)
(*   hash     a line "a" commented out              rsa    RSA, alice@host *)
(*   bad      a malformed blob, alice@host          type   a key type word that does not fit, alice@host *)
(* Arguments:                                                              *)
(*   alice, bob, carol   user@host                                         *)
(*   Alice               Alice@host      laptop  "alice@host laptop"       *)
(*   natA, natC  native public key files   sshB  an SSH public key file    *)
(*   linkC  a symbolic link to natC        atA   a file named @a           *)
(*   missing, dir, void, junk, priv, rsaf  names that denote no public key *)
(* Files named alice@host, bob@host ... exist too (key X): a user@host     *)
(* argument never means them.                                              *)
(* pad: many arguments naming a file of key F come before the others, and  *)
(* many lines of other keys and users before the lines.                    *)
(* times: the arguments are given that many times over, which changes      *)
(* nothing (an exit status has only 8 bits).                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS LineKinds, MaxLines, Args, MaxArgs, Auths, Signs, Pads, Times, Bugs, Emit

VARIABLES lines, args, auth, sign, pad, times, pc, map, i, errs, recips, out
vars == <<lines, args, auth, sign, pad, times, pc, map, i, errs, recips, out>>

AllLines == {"a", "opt", "b", "dup", "user", "more", "short", "words", "word2", "case", "nocom", "hash", "rsa", "bad", "type"}
FewLines == {"a", "b", "dup", "more", "words", "bad"}
AllArgs == {"alice", "bob", "carol", "Alice", "laptop", "natA", "natC", "sshB", "linkC", "atA", "missing", "dir", "void", "junk", "priv", "rsaf"}
FewArgs == {"alice", "bob", "carol", "natC", "sshB", "missing"}
UserArgs == {"alice", "bob", "carol", "Alice", "laptop"}

\* what a line means (AuthKeys.tla), as key and comment
Entry(k) == CASE k \in {"a", "opt"} -> <<"A", "alice@host">> [] k = "b" -> <<"B", "bob@host">> [] k = "dup" -> <<"X", "alice@host">>
              [] k = "user" -> <<"X", "alice">> [] k = "more" -> <<"X", "alice@host.org">> [] k = "short" -> <<"X", "alice@hos">>
              [] k = "words" -> <<"X", "alice@host laptop">> [] k = "word2" -> <<"X", "of alice@host">> [] k = "case" -> <<"X", "Alice@host">>
              [] k = "nocom" -> <<"X", "">> [] OTHER -> <<"none", "">>
Name(x) == CASE x = "alice" -> "alice@host" [] x = "bob" -> "bob@host" [] x = "carol" -> "carol@host" [] x = "Alice" -> "Alice@host" [] x = "laptop" -> "alice@host laptop"
FileKey(x) == CASE x \in {"natA", "atA"} -> "A" [] x \in {"natC", "linkC"} -> "C" [] x = "sshB" -> "B" [] OTHER -> "none"
Lines == IF auth = "there" THEN lines ELSE <<>>

-----------------------------------------------------------------------------
\* What the arguments denote: the keys any of which would be right
Denote(x) == IF x \in UserArgs THEN {Entry(Lines[j])[1] : j \in {j \in DOMAIN Lines : Entry(Lines[j])[1] # "none" /\ Entry(Lines[j])[2] = Name(x)}}
             ELSE {FileKey(x)} \ {"none"}
Resolved == \A j \in DOMAIN args : Denote(args[j]) # {}
Clear == \A j \in DOMAIN args : Cardinality(Denote(args[j])) <= 1
Filler == IF pad THEN {"F"} ELSE {}
Must == Filler \cup UNION {Denote(args[j]) : j \in {j \in DOMAIN args : Cardinality(Denote(args[j])) = 1}}
May == Filler \cup UNION {Denote(args[j]) : j \in DOMAIN args}
\* the file of authorized keys cannot be read: the command may give up even if nobody asks for it
Free == auth \in {"dir", "nohome"} \/ ~Clear

-----------------------------------------------------------------------------
\* The program
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == /\ lines \in SeqsTo(LineKinds, MaxLines) /\ args \in SeqsTo(Args, MaxArgs) /\ auth \in Auths /\ sign \in Signs /\ pad \in Pads /\ times \in Times
        /\ auth # "there" => lines = <<>>
        /\ pc = "read" /\ map = <<>> /\ i = 1 /\ errs = 0 /\ recips = Filler /\ out = "none"

\* the last line with a comment counts
Find(x) == LET hit == {j \in DOMAIN map : CASE "prefix" \in Bugs -> map[j][2] \in (CASE Name(x) = "alice@host" -> {"alice@host", "alice@host laptop", "alice@host.org"} [] OTHER -> {Name(x)})
                                            [] "fold" \in Bugs -> map[j][2] \in (IF x \in {"alice", "Alice"} THEN {"alice@host", "Alice@host"} ELSE {Name(x)})
                                            [] "lastWord" \in Bugs -> map[j][2] \in (IF x = "alice" THEN {"alice@host", "of alice@host"} ELSE {Name(x)})
                                            [] OTHER -> map[j][2] = Name(x)}
           IN IF hit = {} THEN "none" ELSE map[CHOOSE j \in hit : \A m \in hit : m <= j][1]
Read == /\ pc = "read"
        /\ IF auth \in {"dir", "nohome"} \/ (args = <<>> /\ ~pad) THEN pc' = "fail" /\ UNCHANGED map
           ELSE /\ map' = SelectSeq([j \in DOMAIN Lines |-> Entry(Lines[j])], LAMBDA e : e[1] # "none") /\ pc' = "loop"
        /\ UNCHANGED <<lines, args, auth, sign, pad, times, i, errs, recips, out>>
Loop == /\ pc = "loop" /\ i <= Len(args)
        /\ LET x == args[i]
               f == IF x \in UserArgs THEN Find(x) ELSE FileKey(x)
               k == IF f = "none" /\ x \in UserArgs /\ "file" \in Bugs THEN "X" ELSE f
           IN IF k = "none" THEN errs' = (IF "skip" \in Bugs THEN errs ELSE IF "lastErr" \in Bugs THEN 1 ELSE errs + times) /\ UNCHANGED recips
              ELSE recips' = (IF "cap" \in Bugs /\ pad THEN recips ELSE IF "lastOnly" \in Bugs THEN {k} ELSE recips \cup {k}) /\ errs' = (IF "lastErr" \in Bugs THEN 0 ELSE errs)
        /\ i' = i + 1 /\ UNCHANGED <<lines, args, auth, sign, pad, times, pc, map, out>>
Done == /\ pc = "loop" /\ i > Len(args)
        /\ IF (IF "exitErrs" \in Bugs THEN errs % 256 > 0 ELSE errs > 0) \/ recips = {} THEN pc' = "fail" /\ UNCHANGED <<out, recips>>
           ELSE pc' = "ok" /\ out' = "written" /\ recips' = (IF "sender" \in Bugs /\ sign THEN recips \cup {"S"} ELSE recips)
        /\ UNCHANGED <<lines, args, auth, sign, pad, times, map, i, errs>>
Next == Read \/ Loop \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ends == pc \in {"ok", "fail"}
Exact == pc = "ok" => Must \subseteq recips /\ recips \subseteq May
NoneMissing == pc = "ok" => Resolved /\ (args # <<>> \/ pad)
NoOutput == pc = "fail" => out = "none"
Works == Ends /\ Resolved /\ (args # <<>> \/ pad) /\ ~Free => pc = "ok"

EmitInv == Emit /\ Ends =>
  PrintT("@C" \o ToJson([lines |-> lines, args |-> args, auth |-> auth, sign |-> sign, pad |-> pad, times |-> times, ok |-> Resolved /\ (args # <<>> \/ pad), free |-> Free, must |-> Must, may |-> May]))
=============================================================================
