------------------------------ MODULE CutProof ------------------------------
(***************************************************************************)
(* C19 (and the shape of files, C16) without bounds: a stream writer with  *)
(* any block size B is given pieces of any length, in any number.  Inv is  *)
(* inductive (Apalache): no byte is lost or doubled, all blocks but the    *)
(* last are full, and the last one is empty only if there is no plaintext. *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  B,
  \* @type: Set(Str);
  Bugs
VARIABLES
  \* @type: Str;
  st,      \* idle, write (within a call), closed
  \* @type: Int;
  rest,    \* what the call has not yet taken
  \* @type: Int;
  n,       \* bytes in the buffer
  \* @type: Int;
  sealed,  \* bytes in full blocks that were written
  \* @type: Int;
  last,    \* length of the last block, or -1
  \* @type: Int;
  total    \* bytes accepted so far, with those of the call under way
vars == <<st, rest, n, sealed, last, total>>
Max == 1073741824
ConstInit == B \in 1..Max /\ Bugs = {}
ConstEager == B \in 1..Max /\ Bugs = {"eager"}
ConstDrop == B \in 1..Max /\ Bugs = {"drop"}

Init == st = "idle" /\ rest = 0 /\ n = 0 /\ sealed = 0 /\ last = -1 /\ total = 0

Write == /\ st = "idle"
         /\ \E k \in Nat : rest' = k /\ total' = total + k
         /\ st' = "write"
         /\ UNCHANGED <<n, sealed, last>>
\* one turn of its loop
Turn == /\ st = "write" /\ rest > 0
        /\ LET z == IF rest < B - n THEN rest ELSE B - n
               r == rest - z
               flush == n + z = B /\ (r > 0 \/ "eager" \in Bugs)
           IN /\ rest' = r
              /\ n' = IF flush THEN 0 ELSE n + z
              /\ sealed' = IF flush /\ "drop" \notin Bugs THEN sealed + B ELSE sealed
        /\ UNCHANGED <<st, last, total>>
Return == st = "write" /\ rest = 0 /\ st' = "idle" /\ UNCHANGED <<rest, n, sealed, last, total>>
Close == /\ st = "idle" /\ st' = "closed" /\ last' = n
         /\ UNCHANGED <<rest, n, sealed, total>>
Over == st = "closed" /\ UNCHANGED vars
Next == Write \/ Turn \/ Return \/ Close \/ Over
Spec == Init /\ [][Next]_vars

Inv == /\ st \in {"idle", "write", "closed"}
       /\ rest >= 0 /\ n >= 0 /\ n <= B /\ sealed >= 0
       /\ sealed + n + rest = total
       /\ st # "write" => rest = 0
       /\ (sealed > 0 /\ rest = 0) => n > 0
       /\ IF st = "closed" THEN last = n ELSE last = -1
IndInit == /\ st \in {"idle", "write", "closed"}
           /\ rest \in Nat /\ n \in Nat /\ sealed \in Nat /\ last \in Int /\ total \in Nat
           /\ Inv
Exact == st = "closed" => /\ sealed + last = total
                          /\ last <= B
                          /\ last = 0 => total = 0
=============================================================================
