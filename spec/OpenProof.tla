----------------------------- MODULE OpenProof ------------------------------
(***************************************************************************)
(* C02 without a bound on the number of blocks.  Container.tla applies     *)
(* edits to files of a few blocks; here the file has any number N of them  *)
(* (up to the real 2^32), and whoever has no key hands the decryptor any   *)
(* of its boxes, with any end mark, in any order and as often as he likes  *)
(* - or anything else, which does not open.  A box opens only under the    *)
(* number and end mark it was sealed with.  Inv is inductive (Apalache).   *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  N,
  \* @type: Set(Str);
  Bugs
VARIABLES
  \* @type: Str;
  st,      \* open, done, failed
  \* @type: Int;
  blk,     \* the number the next block must have
  \* @type: Int;
  out,     \* how many blocks were released
  \* @type: Bool;
  good     \* each of them was the one that belongs there
vars == <<st, blk, out, good>>

Limit == 4294967296
ConstInit == N \in 1..Limit /\ Bugs = {}
ConstMark == N \in 1..Limit /\ Bugs = {"mark"}
ConstNumber == N \in 1..Limit /\ Bugs = {"number"}
ConstShort == N \in 1..Limit /\ Bugs = {"short"}

Init == st = "open" /\ blk = 0 /\ out = 0 /\ good = TRUE

\* box j with end mark e is next in the input
Take == /\ st = "open"
        /\ \E j \in 0..(Limit - 1), e \in BOOLEAN :
             /\ j < N
             /\ LET opens == /\ j = blk \/ "number" \in Bugs
                             /\ (e = (j = N - 1)) \/ "mark" \in Bugs
                IN IF opens
                   THEN /\ out' = out + 1
                        /\ good' = (good /\ j = out)
                        /\ blk' = blk + 1
                        /\ st' = IF e THEN "done" ELSE "open"
                   ELSE st' = "failed" /\ UNCHANGED <<blk, out, good>>
\* something that was never sealed, or the end of the input
Other == /\ st = "open"
         /\ st' = IF "short" \in Bugs THEN "done" ELSE "failed"
         /\ UNCHANGED <<blk, out, good>>
Over == st \in {"done", "failed"} /\ UNCHANGED vars
Next == Take \/ Other \/ Over
Spec == Init /\ [][Next]_vars

Inv == /\ st \in {"open", "done", "failed"}
       /\ blk \in 0..Limit /\ out = blk
       /\ good
       /\ out <= N
       /\ st = "open" => out < N
       /\ st = "done" => out = N
IndInit == /\ st \in {"open", "done", "failed"}
           /\ blk \in 0..Limit /\ out \in 0..Limit /\ good \in BOOLEAN
           /\ Inv
\* a prefix is released; all of it when the end is reported
Integrity == good /\ out <= N /\ (st = "done" => out = N)
=============================================================================
