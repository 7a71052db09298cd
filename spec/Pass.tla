-------------------------------- MODULE Pass --------------------------------
(***************************************************************************)
(* Passphrases (C22): where the passphrase of a private key comes from.    *)
(*                                                                         *)
(* A command that needs the passphrase of a key gets it in one of three    *)
(* ways: --no-password (the empty one), -E VAR (the bytes of the variable) *)
(* or the terminal.  Passphrases are symbols; what matters is which are    *)
(* equal.  Lines are what is typed: a passphrase, a passphrase typed with  *)
(* a mistake that was rubbed out, or an interrupt.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Cmds,      \* "gen", "sign", "enc", "dec"
          Ways,      \* "nopw", "env", "tty"
          Forms,     \* how the key is stored: "native", "sshctr", "sshcbc", "sshplain"
          Secs,      \* passphrases keys were saved with
          Typed,     \* what may be typed
          Envs,      \* values of the variable
          Bugs, Emit

VARIABLES cmd, way, form, kp, env, lines, used, out
vars == <<cmd, way, form, kp, env, lines, used, out>>

\* the passphrase a line of keystrokes stands for
Means(l) == IF l = "fixed" THEN "a" ELSE l
\* a passphrase without the blanks around it (only the broken variants use it)
Trim(s) == IF "trim" \in Bugs /\ s \in {"asp", "spa", "atab"} THEN "a" ELSE s
Fold(s) == IF "fold" \in Bugs /\ s = "A" THEN "a" ELSE IF "short" \in Bugs /\ s = "long2" THEN "long" ELSE s

NeedsPass == cmd = "gen" \/ form # "sshplain"

Init == /\ cmd \in Cmds /\ way \in Ways
        /\ form \in (IF cmd = "gen" THEN {"native"} ELSE Forms)
        /\ kp \in (IF cmd = "gen" \/ form = "sshplain" THEN {"e"} ELSE IF form = "native" THEN Secs ELSE Secs \ {"e"})
        /\ env \in (IF way = "env" THEN Envs ELSE {"e"})
        /\ lines = <<>> /\ used = "-" /\ out = "none"

Decide(u) == /\ used' = u
             /\ out' = IF cmd = "gen" \/ Fold(u) = Fold(kp) THEN "ok" ELSE "failed"

Skip == /\ out = "none" /\ ~NeedsPass /\ out' = "ok" /\ UNCHANGED <<cmd, way, form, kp, env, lines, used>>
Given == /\ out = "none" /\ NeedsPass /\ way # "tty" /\ lines = <<>>
         /\ Decide(IF way = "nopw" THEN "e" ELSE Trim(env))
         /\ UNCHANGED <<cmd, way, form, kp, env, lines>>
Type(l) ==
  /\ out = "none" /\ NeedsPass /\ way = "tty"
  /\ lines' = Append(lines, l)
  /\ LET n == Len(lines) + 1
         m == Means(l)
     IN CASE l = "intr" -> out' = "failed" /\ used' = "-"
          [] cmd # "gen" \/ "noConfirm" \in Bugs -> Decide(m)
          [] n % 2 = 1 -> UNCHANGED <<used, out>>
          [] Means(lines[n - 1]) = m -> Decide(m)
          [] "firstWins" \in Bugs -> Decide(Means(lines[n - 1]))
          [] n = 4 -> IF "lastWins" \in Bugs THEN Decide(m) ELSE out' = "failed" /\ used' = "-"
          [] OTHER -> UNCHANGED <<used, out>>
  /\ UNCHANGED <<cmd, way, form, kp, env>>
Next == Skip \/ Given \/ \E l \in Typed : Type(l)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
n == Len(lines)
\* a key opens with the passphrase it was saved with, and no other
OnlyRight == out = "ok" /\ cmd # "gen" /\ NeedsPass => used = kp
Right == out = "failed" /\ cmd # "gen" =>
           CASE way = "nopw" -> kp # "e" [] way = "env" -> env # kp [] OTHER -> lines[n] = "intr" \/ Means(lines[n]) # kp
\* the passphrase is the one given; generate wants it twice
Exact == out = "ok" /\ NeedsPass =>
           CASE way = "nopw" -> used = "e" [] way = "env" -> used = env
             [] OTHER -> /\ used = Means(lines[n])
                         /\ cmd = "gen" => n \in {2, 4} /\ Means(lines[n - 1]) = used
\* nothing is asked unless it has to be
NoTyping == way # "tty" \/ ~NeedsPass => lines = <<>>
Ends == n <= 4
EmitInv == Emit /\ out # "none" =>
  PrintT("@C" \o ToJson([cmd |-> cmd, way |-> way, form |-> form, kp |-> kp, env |-> env, lines |-> lines, ok |-> out = "ok", used |-> used]))
=============================================================================
