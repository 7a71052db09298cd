-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* The command line (C14): words to what the program does.  A word list    *)
(* that asks for no help and names no complete command ends in a non-zero  *)
(* exit status, whatever else is in it.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, Bugs, Emit

Flags == {"-h", "--help", "--version", "--debug", "--bogus", "-v", "--overwrite", "--"}
Cmd == [g |-> "generate", gen |-> "generate", s |-> "sign", SIGN |-> "sign", v |-> "verify", verif |-> "verify", e |-> "encrypt", encrypt |-> "encrypt", d |-> "decrypt",
        Dec |-> "decrypt", h |-> "help", help |-> "help"]
Words == DOMAIN Cmd \cup {"signx", "x", "", "@", "%s"}
Tok == Flags \cup Words

VARIABLES args, pos, mode, asked, nargs, res
vars == <<args, pos, mode, asked, nargs, res>>
\* mode: "global" flags, "cmd" after the command word
Need == [generate |-> 1, sign |-> 2, verify |-> 3, encrypt |-> 2, decrypt |-> 1, help |-> 0]
Init == args = <<>> /\ pos = 0 /\ mode = "build" /\ asked = FALSE /\ nargs = 0 /\ res = ""
Build == mode = "build" /\ Len(args) < MaxLen /\ \E t \in Tok : args' = Append(args, t) /\ UNCHANGED <<pos, mode, asked, nargs, res>>
Start == mode = "build" /\ mode' = "global" /\ pos' = 1 /\ UNCHANGED <<args, asked, nargs, res>>
End(r) == res' = r /\ mode' = "end" /\ UNCHANGED <<args, pos, nargs>>
Global ==
  /\ mode = "global"
  /\ IF pos > Len(args) THEN (IF asked THEN End("help") ELSE End("usage")) /\ UNCHANGED asked
     ELSE LET t == args[pos] IN
          CASE t \in {"-h", "--help", "-v", "--version"} -> asked' = TRUE /\ pos' = pos + 1 /\ UNCHANGED <<args, mode, nargs, res>>
            [] t = "--debug" -> pos' = pos + 1 /\ UNCHANGED <<args, mode, asked, nargs, res>>
            [] t \in {"--bogus", "--overwrite"} -> End("usage") /\ UNCHANGED asked
            [] t = "--" /\ pos < Len(args) -> pos' = pos + 1 /\ mode' = "word" /\ UNCHANGED <<args, asked, nargs, res>>
            [] t = "--" -> (IF asked THEN End("help") ELSE End("usage")) /\ UNCHANGED asked
            [] OTHER -> mode' = "word" /\ UNCHANGED <<args, pos, asked, nargs, res>>
Word ==
  /\ mode = "word"
  /\ IF asked THEN End("help") /\ UNCHANGED asked
     ELSE IF args[pos] \in DOMAIN Cmd
     THEN IF Cmd[args[pos]] = "help" THEN End("help") /\ UNCHANGED asked
          ELSE mode' = Cmd[args[pos]] /\ pos' = pos + 1 /\ UNCHANGED <<args, asked, nargs, res>>
     ELSE (IF "anyWord" \in Bugs THEN End("help") ELSE End("usage")) /\ UNCHANGED asked
HasHelp == \E i \in pos..Len(args) : args[i] \in {"-h", "--help"}
\* no list short enough here names existing files, so no command can do its job
Command == /\ mode \in DOMAIN Need /\ (IF HasHelp THEN End("help") ELSE End("usage")) /\ UNCHANGED asked
Next == Build \/ Start \/ Global \/ Word \/ Command
Spec == Init /\ [][Next]_vars
AskedHelp == \E i \in DOMAIN args : args[i] \in {"-h", "--help", "-v", "--version", "h", "help"}
NoFreeZero == res = "help" => AskedHelp
EmitInv == Emit /\ mode = "end" => PrintT("@C" \o ToJson([args |-> args, asked |-> AskedHelp]))
=============================================================================
