------------------------------ MODULE KeyFile ------------------------------
(***************************************************************************)
(* Key files (C09): save, alter, read back.                                *)
(*                                                                         *)
(* Two private keys A and B are saved, each under its own passphrase and   *)
(* salt; a key that was saved is the only thing its passphrase opens.  KDF *)
(* and authenticated encryption are symbolic: Open(Seal(k, n, m)) = m, and *)
(* anything else fails.  Altering a file replaces single fields by values  *)
(* of the same file changed, of the other file, or malformed ones.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Pws,        \* passphrases
          EditKinds, MaxEdits,
          Comments,   \* comment texts: set of token sequences
          Kinds,      \* "priv", "pub"
          Readers,    \* "make", "read", "unmarshal", "cli"
          Bugs, Emit

VARIABLES pc, kind, pwA, pwB, com, fileA, fileB, file, edits, rd, pw, res
vars == <<pc, kind, pwA, pwB, com, fileA, fileB, file, edits, rd, pw, res>>

\* configurations
Toks == {"word", "sp", "nl", "colon", "hash", "dq", "sq", "dash3", "dots", "pct", "amp", "star", "bang", "pipe", "gt", "at", "tick",
         "brace", "brack", "tilde", "null", "num", "yes", "tab", "cr", "nul", "bad8", "uni", "nel", "bom", "bslash", "long", "begin", "sshline", "pemend", "esk", "quest", "comma", "ctl", "del", "emoji"}
ComNone == {<<>>}
Com1 == {<<>>} \cup {<<a>> : a \in Toks}
Com2 == Com1 \cup {<<a, b>> : a, b \in Toks}
ToksFew == {"word", "sp", "nl", "colon", "hash", "dq", "begin", "sshline", "dash3", "bad8"}
Com3 == Com2 \cup {<<a, b, c>> : a, b, c \in ToksFew}
PwAll == {"", "a", "A", "anl", "anul", "sp", "long", "uni", "inv", "inv2", "rep", "nfc", "nfd", "bom"}
\* the caller has no passphrase to give: its callback fails
Fail == "!fail"
PwFew == {"", "a", "b"}
BadNums == {"n0", "nneg", "nodd", "n1", "r0", "p0", "rneg", "pneg"}
AllEdits == {"escFlip", "escCut", "escLong", "escOther", "escNone", "saltFlip", "saltCut", "saltLong", "saltOther", "saltNone",
             "n", "r", "p", "nOther", "rOther", "pOther", "algo", "comment", "order"} \cup BadNums

KDF(p, salt, n, r, q) ==
  <<IF "ignorePw" \in Bugs THEN "" ELSE p, salt, IF "ignoreN" \in Bugs THEN "" ELSE n, r, q>>
Seal(k, nonce, m) == [key |-> k, nonce |-> nonce, msg |-> m, tag |-> "ok"]

\* the two files differ in every parameter
Saved(m, p, f) ==
  LET salt == "salt" \o f
      n == "n" \o f
      r == "r" \o f
      q == "p" \o f
  IN [esk |-> Seal(KDF(p, salt, n, r, q), salt, m), salt |-> salt, n |-> n, r |-> r, p |-> q,
      algo |-> "algo", comment |-> com, ord |-> 0]

Init == /\ pc = "edit" /\ kind \in Kinds /\ pwA \in Pws /\ pwB \in Pws /\ com \in Comments
        /\ (kind = "pub" => pwA = "" /\ pwB = "")
        /\ fileA = Saved("A", pwA, "1") /\ fileB = Saved("B", pwB, "2")
        /\ file = fileA /\ edits = <<>> /\ rd = "" /\ pw = "" /\ res = ""

Broken(x) == [x EXCEPT !.tag = "bad"]
Apply(f, e) ==
  CASE e = "escFlip" -> [f EXCEPT !.esk = [@ EXCEPT !.tag = "bad", !.msg = "?"]]
    [] e \in {"escCut", "escLong"} -> [f EXCEPT !.esk = Broken(@)]
    [] e = "escOther" -> [f EXCEPT !.esk = fileB.esk]
    [] e = "escNone" -> [f EXCEPT !.esk = [@ EXCEPT !.tag = "none"]]
    [] e = "saltFlip" -> [f EXCEPT !.salt = "salt?"]
    [] e = "saltCut" -> [f EXCEPT !.salt = "short"]
    [] e = "saltLong" -> [f EXCEPT !.salt = "long"]
    [] e = "saltNone" -> [f EXCEPT !.salt = "none"]
    [] e = "saltOther" -> [f EXCEPT !.salt = fileB.salt]
    [] e = "n" -> [f EXCEPT !.n = "n?"]
    [] e = "r" -> [f EXCEPT !.r = "r?"]
    [] e = "p" -> [f EXCEPT !.p = "p?"]
    [] e = "nOther" -> [f EXCEPT !.n = fileB.n]
    [] e = "rOther" -> [f EXCEPT !.r = fileB.r]
    [] e = "pOther" -> [f EXCEPT !.p = fileB.p]
    [] e \in {"n0", "nneg", "nodd", "n1"} -> [f EXCEPT !.n = "bad"]
    [] e \in {"r0", "rneg"} -> [f EXCEPT !.r = "bad"]
    [] e \in {"p0", "pneg"} -> [f EXCEPT !.p = "bad"]
    [] e = "algo" -> [f EXCEPT !.algo = "algo?"]
    [] e = "comment" -> [f EXCEPT !.comment = <<"word", "sp", "word">>]
    [] OTHER -> [f EXCEPT !.ord = 1]

\* one edit per field
Field(e) == CASE e \in {"escFlip", "escCut", "escLong", "escOther", "escNone"} -> "esk"
              [] e \in {"saltFlip", "saltCut", "saltLong", "saltOther", "saltNone"} -> "salt"
              [] e \in {"n", "nOther", "n0", "nneg", "nodd", "n1"} -> "n"
              [] e \in {"r", "rOther", "r0", "rneg"} -> "r"
              [] e \in {"p", "pOther", "p0", "pneg"} -> "p"
              [] OTHER -> e
Edit == /\ pc = "edit" /\ kind = "priv" /\ Len(edits) < MaxEdits
        /\ \E e \in EditKinds : /\ \A i \in DOMAIN edits : Field(edits[i]) # Field(e)
                                /\ file' = Apply(file, e) /\ edits' = Append(edits, e)
        /\ UNCHANGED <<pc, kind, pwA, pwB, com, fileA, fileB, rd, pw, res>>

-----------------------------------------------------------------------------
\* The text of the file.  A comment with line breaks is indented below its
\* key or quoted, so its lines never start a line of the file.

Text(f) == <<"comment">> \o <<f.comment>> \o <<"fields">>
StartsLine(t) == IF "contains" \in Bugs THEN \E i \in DOMAIN t[2] : t[2][i] = "begin"
                 ELSE t[1] = "begin"
IsSSH(f) == StartsLine(Text(f))

\* What the reader does
OpenPriv(f, p) ==
  IF IsSSH(f) \/ p = Fail THEN "err"
  ELSE IF f.salt = "none" \/ f.esk.tag = "none" THEN "err"
  ELSE IF f.n = "bad" \/ f.r = "bad" \/ f.p = "bad" THEN "err"
  ELSE IF f.salt \in {"short", "long"} THEN "err"
  ELSE LET k == KDF(p, f.salt, f.n, f.r, f.p)
       IN IF "noTag" \in Bugs THEN f.esk.msg
          ELSE IF f.esk.tag = "ok" /\ f.esk.key = k /\ f.esk.nonce = f.salt THEN f.esk.msg
          ELSE "err"
OpenPub(f) == "A"

Read == /\ pc = "edit" /\ pc' = "done"
        /\ rd' \in Readers /\ pw' \in (IF kind = "pub" THEN {""} ELSE Pws \cup (IF rd' = "cli" THEN {} ELSE {Fail}))
        /\ res' = IF kind = "priv" THEN OpenPriv(file, pw') ELSE OpenPub(file)
        /\ UNCHANGED <<kind, pwA, pwB, com, fileA, fileB, file, edits>>

Next == Edit \/ Read
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == pc = "done"
Crypt(f) == <<f.esk, f.salt, f.n, f.r, f.p>>

\* saved and read back: the same key
RoundTrip == Done /\ Crypt(file) = Crypt(fileA) /\ pw = pwA => res = "A"
\* only what was saved opens, and only with its passphrase
OnlySaved == Done /\ kind = "priv" /\ res # "err" =>
               \/ Crypt(file) = Crypt(fileA) /\ pw = pwA /\ res = "A"
               \/ Crypt(file) = Crypt(fileB) /\ pw = pwB /\ res = "B"
EmitInv == Emit /\ Done =>
  PrintT("@C" \o ToJson([kind |-> kind, pwA |-> pwA, pwB |-> pwB, com |-> com, edits |-> edits, rd |-> rd, pw |-> pw, res |-> res]))
=============================================================================
