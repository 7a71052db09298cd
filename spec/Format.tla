------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The bytes of a version 3 encrypted file (C16): what a writer puts down, *)
(* field after field, and how a reader that knows only the format finds    *)
(* its way through.  Lengths are in bytes.                                 *)
(*                                                                         *)
(*   magic 7 "SigTool", version 1 (= 3), length of the header 4, header,   *)
(*   checksum 32 (SHA-256 of everything before it), blocks, trailer 64     *)
(* header (protobuf): 1 block size, 2 salt 32, 3 ephemeral key 32,         *)
(*   4 sealed sender signature 64+16, 5 (per recipient) 1 key 32+16,       *)
(*   2 nonce 12                                                            *)
(* block: length word 4 (highest bit: last block), ciphertext, tag 16      *)
(* A plaintext of k full blocks ends with a full last block or with an     *)
(* empty one ("style"); both are in use and mean the same.                 *)
(* The derivations (HKDF-SHA512, AES-256-GCM, X25519, Ed25519ph-like       *)
(* signatures) are those of harness/ref, written from the released source. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Ns, Cs, Rs, Signs, Orders, Bugs, Emit

VARIABLES cf, w, r
vars == <<cf, w, r>>

VarLen(v) == IF v < 128 THEN 1 ELSE IF v < 16384 THEN 2 ELSE IF v < 2097152 THEN 3 ELSE IF v < 268435456 THEN 4 ELSE 5
Bytes(n) == 1 + VarLen(n) + n
KeyEntry == Bytes(Bytes(48) + Bytes(12))
HdrLen(c, k) == (1 + VarLen(c)) + Bytes(32) + Bytes(32) + Bytes(80) + k * KeyEntry

Styles(n, c) == IF n > 0 /\ n % c = 0 THEN {"full", "empty"} ELSE {"plain"}
Init == \E n \in Ns, c \in Cs, k \in Rs, s \in Signs, o \in Orders : \E y \in Styles(n, c) :
          /\ n \div c <= 8
          /\ cf = [n |-> n, c |-> c, k |-> k, sign |-> s, style |-> y, order |-> o]
          /\ w = [pc |-> "head", left |-> n, off |-> 0, hdr |-> 0, blocks |-> <<>>]
          /\ r = [pc |-> "wait", off |-> 0, left |-> 0, i |-> 1, got |-> 0]

\* The writer
Put(x, m) == [x EXCEPT !.off = @ + m]
WHead == w.pc = "head" /\ w' = [Put(w, 7 + 1 + 4 + HdrLen(cf.c, cf.k) + 32) EXCEPT !.hdr = HdrLen(cf.c, cf.k), !.pc = "blocks"]
WBlock == /\ w.pc = "blocks"
          /\ LET m == IF w.left < cf.c THEN w.left ELSE cf.c
                 last == w.left - m = 0 /\ ~(cf.style = "empty" /\ m > 0)
                 word == IF "tagged" \in Bugs THEN m + 16 ELSE m
             IN w' = [Put(w, 4 + m + 16) EXCEPT !.left = @ - m, !.blocks = Append(@, <<word, last>>), !.pc = IF last THEN "trailer" ELSE "blocks"]
WTrailer == w.pc = "trailer" /\ w' = [Put(w, IF "noTrailer" \in Bugs /\ ~cf.sign THEN 0 ELSE 64) EXCEPT !.pc = "done"]
Writer == (WHead \/ WBlock \/ WTrailer) /\ UNCHANGED <<cf, r>>

\* The reader sees the header length, the length words and the end of the file
Start == w.pc = "done" /\ r.pc = "wait" /\ r' = [r EXCEPT !.pc = "head"]
RHead == r.pc = "head" /\ r' = [Put(r, 12 + w.hdr + 32) EXCEPT !.pc = "word"]
RWord == /\ r.pc = "word"
         /\ IF r.i > Len(w.blocks) \/ r.off + 4 > w.off THEN r' = [r EXCEPT !.pc = "bad"]
            ELSE r' = [Put(r, 4 + w.blocks[r.i][1] + 16) EXCEPT !.got = @ + w.blocks[r.i][1], !.i = @ + 1, !.pc = IF w.blocks[r.i][2] THEN "end" ELSE "word"]
REnd == r.pc = "end" /\ r' = [Put(r, 64) EXCEPT !.pc = "done"]
Reader == (Start \/ RHead \/ RWord \/ REnd) /\ UNCHANGED <<cf, w>>

Next == Writer \/ Reader
Spec == Init /\ [][Next]_vars

\* The reader finds all of it and nothing is left over
Found == r.pc = "done" => r.off = w.off /\ r.got = cf.n /\ r.i = Len(w.blocks) + 1
NeverLost == r.pc # "bad"
BlocksFull == \A j \in 1..Len(w.blocks) : ("tagged" \notin Bugs) => w.blocks[j][1] <= cf.c /\ (j < Len(w.blocks) => w.blocks[j][1] = cf.c)
OnlyLast == \A j \in 1..Len(w.blocks) : w.blocks[j][2] => j = Len(w.blocks)

EmitInv == Emit /\ r.pc = "done" =>
  PrintT("@C" \o ToJson([n |-> cf.n, c |-> cf.c, k |-> cf.k, sign |-> cf.sign, style |-> cf.style, order |-> cf.order, hdr |-> w.hdr,
                         len |-> w.off, sizes |-> [j \in 1..Len(w.blocks) |-> w.blocks[j][1]]]))
=============================================================================
