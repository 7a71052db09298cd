------------------------------ MODULE AuthKeys ------------------------------
(***************************************************************************)
(* authorized_keys (C18).  A line is a sequence of tokens:                 *)
(*   sp   blanks                  ed   the word ssh-ed25519                *)
(*   K    a good Ed25519 blob     L    another one                         *)
(*   X    a malformed blob        R    a good blob of another type         *)
(*   rsa  another key type        w    some other word                     *)
(*   q    a quote                 e    an escaped quote                    *)
(*   c    a comma                 h    a hash sign                         *)
(*   b    a backslash: it makes what it precedes no quote, whatever        *)
(*        precedes it                                                      *)
(* Decl is what sshd(8) says a line means; Scan is the scanner of the      *)
(* tool, step for step.  TLC compares them on all token sequences within   *)
(* the bounds; the harness replays them on the real parser.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Alphabet,   \* tokens the free part is made of
          MaxFree,    \* its length
          Tails,      \* what follows it: set of token sequences
          Bugs, Emit

VARIABLES free, tail
vars == <<free, tail>>

AlphaAll == {"sp", "ed", "K", "L", "X", "R", "rsa", "w", "q", "e", "c", "h"}
AlphaOpt == {"sp", "ed", "K", "w", "q", "e", "c"}
AlphaQuote == {"sp", "w", "q", "e"}
AlphaEscape == {"sp", "w", "q", "b"}
TailNone == {<<>>}
TailKey == {<<"sp", "ed", "sp", "L", "sp", "w">>, <<"sp", "ed", "sp", "L">>, <<"sp", "ed", "sp", "X", "sp", "w">>}
TailOne == {<<"sp", "ed", "sp", "L", "sp", "w", "sp", "w">>}

Words == {"ed", "K", "L", "X", "R", "rsa", "w"}
Init == free = <<>> /\ tail \in Tails
\* two words in a row would be one other word, two blanks one
Next == /\ Len(free) < MaxFree
        /\ \E t \in Alphabet :
             /\ free # <<>> => LET p == free[Len(free)] IN ~(p \in Words /\ t \in Words) /\ ~(p = "sp" /\ t = "sp")
             /\ free' = Append(free, t)
        /\ UNCHANGED tail
Spec == Init /\ [][Next]_vars

Line == free \o tail
\* no blanks doubled at the seam
WellFormed == ~(free # <<>> /\ tail # <<>> /\ free[Len(free)] = "sp" /\ tail[1] = "sp")

Sub(l, a, b) == IF a > b THEN <<>> ELSE SubSeq(l, a, b)
RECURSIVE LStrip(_), RStrip(_)
LStrip(l) == IF l # <<>> /\ l[1] = "sp" THEN LStrip(Tail(l)) ELSE l
RStrip(l) == IF l # <<>> /\ l[Len(l)] = "sp" THEN RStrip(Sub(l, 1, Len(l) - 1)) ELSE l
Strip(l) == LStrip(RStrip(l))

None == [key |-> "none", com |-> <<>>]
AnyKey == [key |-> "any", com |-> <<>>]

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
FirstSp(l) == LET s == {i \in DOMAIN l : l[i] = "sp"} IN IF s = {} THEN 0 ELSE Min(s)
WordOf(l) == IF FirstSp(l) = 0 THEN l ELSE Sub(l, 1, FirstSp(l) - 1)
RestOf(l) == IF FirstSp(l) = 0 THEN <<>> ELSE Strip(Sub(l, FirstSp(l), Len(l)))

-----------------------------------------------------------------------------
\* What a line means.

KeyAt(l) == IF WordOf(l) = <<"ed">> /\ WordOf(RestOf(l)) \in {<<"K">>, <<"L">>}
            THEN [key |-> WordOf(RestOf(l))[1], com |-> RestOf(RestOf(l))]
            ELSE None

IsQuote(l, i) == l[i] = "q" /\ ~(i > 1 /\ l[i - 1] = "b")
Quotes(l) == Cardinality({i \in DOMAIN l : IsQuote(l, i)})
\* end of the options: the first blank that is not within quotes
OptEnds(l) == {i \in DOMAIN l : l[i] = "sp" /\ Quotes(Sub(l, 1, i - 1)) % 2 = 0}

Decl(l0) ==
  LET l == Strip(l0) IN
  IF l = <<>> \/ l[1] = "h" THEN None
  ELSE IF KeyAt(l) # None THEN KeyAt(l)
  ELSE IF OptEnds(l) = {} THEN None
  ELSE LET i == Min(OptEnds(l))
           k == KeyAt(Strip(Sub(l, i, Len(l))))
       IN \* an option that is a key type: not something sshd knows, nor a shape it promises to skip
          IF k # None /\ Sub(l, 1, i - 1) \in {<<"ed">>, <<"rsa">>} THEN AnyKey ELSE k

-----------------------------------------------------------------------------
\* What the tool does.

\* parseAuthorizedKey: "err" malformed, "other" another type, or a key
ParseKey(algo, in0) ==
  LET in == Strip(in0) IN
  IF algo # <<"ed">> /\ "anyType" \notin Bugs THEN [key |-> "err", com |-> <<>>]
  ELSE LET b == WordOf(in) IN
       IF b \in {<<"K">>, <<"L">>} THEN [key |-> b[1], com |-> RestOf(in)]
       ELSE IF b = <<"R">> THEN [key |-> "other", com |-> <<>>]
       ELSE [key |-> "err", com |-> <<>>]

\* the quote loop: position after the options; Len + 1 if there is none
RECURSIVE Loop(_, _, _)
Loop(l, i, inq) ==
  IF i > Len(l) THEN Len(l)
  ELSE IF ~inq /\ l[i] = "sp" THEN i
  ELSE LET toggles == IsQuote(l, i) \/ (l[i] = "e" /\ "noEscape" \in Bugs) \/ (l[i] = "q" /\ i > 2 /\ l[i - 2] = "b" /\ "pairs" \in Bugs)
       IN Loop(l, i + 1, IF toggles THEN ~inq ELSE inq)

Scan(l0) ==
  LET l == Strip(l0)
      i == FirstSp(l)
  IN IF l = <<>> \/ l[1] = "h" \/ i = 0 THEN None
     ELSE LET k == ParseKey(Sub(l, 1, i - 1), Sub(l, i, Len(l))) IN
          IF k.key \in {"K", "L"} THEN k
          ELSE IF k.key = "other" THEN None
          ELSE LET j == IF "plainSplit" \in Bugs THEN i ELSE Loop(l, 1, FALSE)
                   r == LStrip(Sub(l, j, Len(l)))
                   s == FirstSp(r)
               IN IF r = <<>> \/ s = 0 THEN None
                  ELSE LET k2 == ParseKey(Sub(r, 1, s - 1), Sub(r, s, Len(r)))
                       IN IF k2.key \in {"K", "L"} THEN k2 ELSE None

Agree == WellFormed => LET d == Decl(Line) IN d = AnyKey \/ Scan(Line) = d
EmitInv == Emit /\ WellFormed =>
             LET d == Decl(Line) IN PrintT("@C" \o ToJson([l |-> Line, key |-> d.key, com |-> d.com]))
=============================================================================
