----------------------------- MODULE NonceProof -----------------------------
(***************************************************************************)
(* C05 without a bound on the number of blocks.  EncLife.tla explores all  *)
(* sequences of calls up to a length; here the life of one context is cut  *)
(* down to what the counter of the blocks depends on, and an inductive     *)
(* invariant shows (with Apalache, for sequences of any length and the     *)
(* real limit of 2^32 blocks) that no block number is used twice.          *)
(* C is one block number, arbitrary but fixed: what holds for it holds for *)
(* all.  `uses' counts the blocks sealed under it.                         *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  C,
  \* @type: Set(Str);
  Bugs
VARIABLES
  \* @type: Str;
  st,      \* new, open, failed, closed: a context and its only writer
  \* @type: Int;
  blk,     \* the number of the next block
  \* @type: Int;
  uses     \* how often C was
vars == <<st, blk, uses>>

Last == 4294967295      \* 2^32 - 1
Wrap(n) == IF n > Last THEN 0 ELSE n

ConstInit == C \in 0..Last /\ Bugs = {}
ConstWrap == C \in 0..Last /\ Bugs = {"wrap"}
ConstRetry == C \in 0..Last /\ Bugs = {"retry"}
ConstTwice == C \in 0..Last /\ Bugs = {"twice"}

Init == st = "new" /\ blk = 0 /\ uses = 0

Seal == uses' = IF blk = C THEN uses + 1 ELSE uses

\* the header is written: a second time it is refused
Start == /\ \/ st = "new"
            \/ "twice" \in Bugs /\ st \in {"open", "closed"}
         /\ st' \in {"open", "failed0"}
         /\ blk' = 0 /\ UNCHANGED uses
\* a header that was not written may be tried again; no block was sealed
Again == st = "failed0" /\ st' = "new" /\ UNCHANGED <<blk, uses>>
\* one more full block; the last number is kept for the last block
Block == /\ st = "open"
         /\ IF blk = Last /\ "wrap" \notin Bugs
            THEN st' = "failed" /\ UNCHANGED <<blk, uses>>
            ELSE /\ Seal
                 /\ \/ st' = "open" /\ blk' = Wrap(blk + 1)
                    \/ \* the destination fails
                       /\ st' = IF "retry" \in Bugs THEN "open" ELSE "failed"
                       /\ UNCHANGED blk
\* the last block; then nothing more
Close == /\ st = "open"
         /\ Seal
         /\ st' \in {"closed", "failed"}
         /\ UNCHANGED blk
\* calls that are refused
Refused == st \in {"open", "failed", "closed"} /\ UNCHANGED vars
Next == Start \/ Again \/ Block \/ Close \/ Refused
Spec == Init /\ [][Next]_vars

Unique == uses <= 1

\* inductive: what was used lies before the next number
Inv == /\ st \in {"new", "failed0", "open", "failed", "closed"}
       /\ blk \in 0..Last
       /\ uses \in 0..1
       /\ st \in {"new", "failed0"} => uses = 0
       /\ st = "open" /\ uses = 1 => C < blk
IndInit == /\ st \in {"new", "failed0", "open", "failed", "closed"}
           /\ blk \in 0..Last
           /\ uses \in 0..1
           /\ Inv
=============================================================================
