------------------------------ MODULE Secrecy ------------------------------
(***************************************************************************)
(* Confidentiality (C23): what someone who sees two encrypted files and    *)
(* holds some private keys can work out, by every derivation the           *)
(* primitives allow (Dolev and Yao).                                       *)
(*                                                                         *)
(* Terms, of file i and principal x:                                       *)
(*   priv x            a long-term private key (public keys are known)     *)
(*   epk i, esk i      the ephemeral key; salt i                           *)
(*   dh i x            X25519 of esk i and x's key                         *)
(*   kek i x           the key derived from dh i x, salt i and the nonce   *)
(*   entry i x         the file key under kek i x, bound to x              *)
(*   fk i              the file key                                        *)
(*   sbox i, sig i     the sender's signature over epk, salt and fk,       *)
(*                     in a box whose key is derived from fk               *)
(*   dkey i, blk i     the data key from fk and the header; the blocks     *)
(*   mac i, trl i      the keyed hash of the plaintext; its signature      *)
(*   pt i              the plaintext                                       *)
(*   rx i x, from i x  the knowledge that x is a recipient / the sender    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS P,        \* all principals
          Rx,       \* who may be a recipient
          Senders,  \* who may be the sender, or "none"
          Weak,     \* public keys of small order: a key agreement with them has but one outcome
          Bugs, Emit

VARIABLES to, snd, comp, guess, K, done
vars == <<to, snd, comp, guess, K, done>>

I == {1, 2}
FKi(i) == IF "sharedFk" \in Bugs THEN 1 ELSE i

File(i) == {<<"epk", i>>, <<"salt", i>>, <<"sbox", i>>, <<"blk", i>>, <<"trl", i>>} \cup {<<"entry", i, x>> : x \in to[i]}
           \cup (IF "rawFk" \in Bugs THEN {<<"fk", i>>} ELSE {})
           \cup (IF "sigClear" \in Bugs THEN {<<"sig", i>>} ELSE {})

\* weak keys are refused as recipients
Taken == IF "lowOrder" \in Bugs THEN Rx ELSE Rx \ Weak
Init == /\ to \in [I -> (SUBSET Taken) \ {{}}] /\ snd \in Senders /\ comp \in SUBSET (P \ Weak)
        \* the second file's plaintext is known to begin with, and perhaps
        \* that of the first, too, which leaves the question who sent it to whom
        /\ guess \in BOOLEAN
        /\ K = File(1) \cup File(2) \cup {<<"priv", x>> : x \in comp} \cup {<<"pt", 2>>} \cup (IF guess THEN {<<"pt", 1>>} ELSE {})
        /\ done = FALSE

Fk(k, i) == <<"fk", FKi(i)>> \in k
Step(k) ==
  UNION {
    k,
    {<<"esk", i>> : i \in {j \in I : "eskFromSender" \in Bugs /\ <<"priv", snd>> \in k}},
    {<<"dh", i, x>> : i \in {j \in I : <<"epk", j>> \in k}, x \in {y \in P : <<"priv", y>> \in k}},
    {<<"dh", i, x>> : i \in {j \in I : <<"esk", j>> \in k}, x \in P},
    {<<"dh", i, x>> : i \in I, x \in Weak},
    {<<"kek", t[1], t[2]>> : t \in {u \in I \X P : <<"dh", u[1], u[2]>> \in k \/ "kekPublic" \in Bugs}},
    {<<"rx", t[2], t[3]>> : t \in {u \in k : u[1] = "entry" /\ <<"kek", u[2], u[3]>> \in k}},
    {<<"fk", FKi(t[2])>> : t \in {u \in k : u[1] = "entry" /\ <<"kek", u[2], u[3]>> \in k}},
    {<<"dkey", i>> : i \in {j \in I : Fk(k, j) \/ "dkeyPublic" \in Bugs}},
    {<<"pt", i>> : i \in {j \in I : <<"blk", j>> \in k /\ <<"dkey", j>> \in k}},
    {<<"sig", i>> : i \in {j \in I : Fk(k, j)}},
    {<<"mac", i>> : i \in {j \in I : <<"pt", j>> \in k /\ (Fk(k, j) \/ "macPublic" \in Bugs)}},
    {<<"from", i, snd>> : i \in {j \in I : \/ <<"sig", j>> \in k /\ (Fk(k, j) \/ "sigNoKey" \in Bugs)
                                           \/ <<"trl", j>> \in k /\ <<"mac", j>> \in k}} }

Next == /\ ~done
        /\ K' = Step(K) /\ done' = (K' = K)
        /\ UNCHANGED <<to, snd, comp, guess>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Outside == comp \cap to[1] = {}
\* no key but a recipient's reveals anything of the first file: not the
\* sender's, not those of the recipients of the second, whose plaintext is known
Secret == Outside => K \cap ((IF guess THEN {} ELSE {<<"pt", 1>>}) \cup {<<"fk", 1>>, <<"dkey", 1>>, <<"mac", 1>>, <<"sig", 1>>, <<"esk", 1>>}
                              \cup {<<"from", 1, x>> : x \in Senders} \cup {<<"rx", 1, x>> : x \in P}) = {}
\* a recipient does not learn who the others are, nor the ephemeral key
Privacy == \A i \in I : \A x \in P : <<"rx", i, x>> \in K => x \in comp /\ <<"esk", i>> \notin K
\* and a recipient reads it
Readable == done /\ ~Outside => <<"pt", 1>> \in K
EmitInv == Emit /\ done /\ ~guess =>
  PrintT("@C" \o ToJson([to1 |-> to[1], to2 |-> to[2], snd |-> snd, comp |-> comp, reads |-> <<"pt", 1>> \in K]))
=============================================================================
