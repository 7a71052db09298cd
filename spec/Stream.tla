------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Encryption and decryption as a stream (C24).  The tool takes its input  *)
(* piece by piece and passes results on.  Input of an encryption is the    *)
(* plaintext, in units of which U make a block; input of a decryption is   *)
(* the encrypted file: the header, for each block its length and its box,  *)
(* the trailer - and then whatever else is in the source.                  *)
(*                                                                         *)
(* What is passed on may lag behind what was taken by Slack complete       *)
(* blocks; nothing beyond the encrypted file is taken.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Opers,   \* enc, encs: file and stream encryption; dec, decs: decryption; open: only the header
          Max,     \* units of plaintext, at most
          U,       \* units in a block
          Slack,   \* complete blocks that may be held back
          Pieces,  \* how many bytes the source hands out at most (0: as many as asked for)
          Bugs, Emit

VARIABLES op, n, k, piece, got, rel, pc
vars == <<op, n, k, piece, got, rel, pc>>

Enc == op \in {"enc", "encs"}
Ceil(x) == (x + U - 1) \div U
\* the input's length in its units: the plaintext, or header, blocks and trailer
Size == IF Enc THEN n ELSE IF op = "open" THEN 1 ELSE 2 * k + 2
\* what else is in the source
More == IF Enc THEN 0 ELSE 3
\* the complete blocks among the first g units; a last block needs its trailer
Complete(g) == IF Enc THEN g \div U
               ELSE IF op = "open" THEN 0
               ELSE LET c == IF g = 0 THEN 0 ELSE (g - 1) \div 2 IN
                    IF c >= k THEN (IF g >= 2 * k + 2 THEN k ELSE k - 1) ELSE c
Blocks == IF op = "open" THEN 0 ELSE k
Demand(g) == IF Complete(g) > Slack THEN Complete(g) - Slack ELSE 0

Init == /\ op \in Opers /\ n \in 0..Max /\ piece \in Pieces
        \* the last block may be empty where the others are full
        /\ k \in {Ceil(n)} \cup (IF n % U = 0 THEN {Ceil(n) + 1} ELSE {}) /\ k > 0
        /\ got = 0 /\ rel = 0 /\ pc = "run"

\* the tool asks for the next unit only when it does not hold too much
Ask == /\ pc = "run" /\ got < Size + (IF "ahead" \in Bugs THEN More ELSE 0)
       /\ \/ Complete(got) - rel <= Slack
          \/ "hoard" \in Bugs
          \/ "late" \in Bugs /\ Complete(got) - rel <= Slack + 2
       /\ got' = got + 1 /\ UNCHANGED <<op, n, k, piece, rel, pc>>
Pass == /\ pc = "run" /\ rel < Complete(got)
        /\ "hoard" \in Bugs => got >= Size
        /\ rel' = rel + 1 /\ UNCHANGED <<op, n, k, piece, got, pc>>
\* at the end of the input the rest is passed on
End == /\ pc = "run" /\ got >= Size /\ rel >= Complete(got)
       /\ "ahead" \in Bugs => got = Size + More
       /\ rel' = Blocks /\ pc' = "done" /\ UNCHANGED <<op, n, k, piece, got>>
Next == Ask \/ Pass \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* whenever more is asked for (got has just grown), what came before was passed on
Prompt == got > 0 => rel >= Demand(got - 1)
\* never anything made up
Honest == pc = "run" => rel <= Complete(got)
Exact == /\ got <= Size
         /\ pc = "done" => got = Size /\ rel = Blocks
Ends == <>(pc = "done")

EmitInv == Emit /\ pc = "done" =>
  PrintT("@C" \o ToJson([op |-> op, n |-> n, k |-> k, piece |-> piece, size |-> Size,
                         needs |-> [g \in 1..Size + 1 |-> Demand(g - 1)]]))
=============================================================================
