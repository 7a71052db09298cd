------------------------------- MODULE SshPub ------------------------------
(***************************************************************************)
(* OpenSSH public key files (C10): one line, type, key and maybe comment.  *)
(* Tokens as in AuthKeys, plus nl and crlf.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Alphabet, MaxLen, Bugs, Emit
VARIABLES l
vars == <<l>>
Alpha == {"sp", "ed", "K", "L", "X", "R", "rsa", "w", "nl", "crlf", "h", "q"}
Words == {"ed", "K", "L", "X", "R", "rsa", "w"}
Blank == {"sp", "nl", "crlf"}
Init == l = <<>>
Next == /\ Len(l) < MaxLen
        /\ \E t \in Alphabet : /\ l # <<>> => LET p == l[Len(l)] IN ~(p \in Words /\ t \in Words) /\ ~(p = "sp" /\ t = "sp")
                               /\ l' = Append(l, t)
Spec == Init /\ [][Next]_vars

Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s # <<>> /\ s[1] \in Blank THEN LStrip(Tail(s)) ELSE s
RStrip(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN RStrip(Sub(s, 1, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
FirstSp(s) == LET z == {i \in DOMAIN s : s[i] = "sp"} IN IF z = {} THEN 0 ELSE Min(z)
WordOf(s) == IF FirstSp(s) = 0 THEN s ELSE Sub(s, 1, FirstSp(s) - 1)
RestOf(s) == IF FirstSp(s) = 0 THEN <<>> ELSE Strip(Sub(s, FirstSp(s), Len(s)))

None == [key |-> "none", com |-> <<>>]
Grey == [key |-> "any", com |-> <<>>]
\* What the file means.  OpenSSH writes one line; what else may surround the
\* line (blank lines before it) is not its business.
Decl == LET s == RStrip(l)
            k == WordOf(RestOf(s))
        IN IF s = <<>> THEN None
           ELSE IF s[1] \in Blank THEN (IF \E i \in DOMAIN s : s[i] \in {"K", "L"} THEN Grey ELSE None)
           ELSE IF \E i \in DOMAIN s : s[i] \in {"nl", "crlf"} THEN (IF \E i \in DOMAIN s : s[i] \in {"K", "L"} THEN Grey ELSE None)
           ELSE IF k \notin {<<"K">>, <<"L">>} THEN None
           ELSE IF WordOf(s) # <<"ed">> THEN Grey
           ELSE [key |-> k[1], com |-> RestOf(RestOf(s))]
\* What the tool does: strip, split at blanks into three.
Tool == LET s == Strip(l)
            v == WordOf(RestOf(s))
        IN IF FirstSp(s) = 0 THEN None
           ELSE IF "threeParts" \in Bugs /\ RestOf(RestOf(s)) = <<>> THEN None
           ELSE IF \E i \in DOMAIN s : s[i] \in {"nl", "crlf"} THEN None
           ELSE IF v \in {<<"K">>, <<"L">>} THEN [key |-> v[1], com |-> RestOf(RestOf(s))]
           ELSE None
Agree == Decl = Grey \/ Decl = Tool
EmitInv == Emit => LET d == Decl IN PrintT("@C" \o ToJson([l |-> l, key |-> d.key, com |-> d.com]))
=============================================================================
