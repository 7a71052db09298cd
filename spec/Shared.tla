------------------------------- MODULE Shared -------------------------------
(***************************************************************************)
(* Independent operations that run at the same time and share keys,        *)
(* signatures and input bytes (C20).                                       *)
(*                                                                         *)
(* Every process runs one operation, a sequence of accesses to memory      *)
(* cells.  A cell belongs to an object (private key, public key,           *)
(* signature, input) that is either shared by all processes or the         *)
(* process's own; cells made by the operation itself are private.  There   *)
(* is no synchronisation between the processes, so two accesses to a cell  *)
(* by different processes are unordered: one of them being a write is a    *)
(* data race.  Slices are two cells (where they point to, how long they    *)
(* are) that are written one after the other.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ops, NProcs, Objects, Warms, Bugs, Emit

VARIABLES ops, shared, warm, pc, mem, acc, res
vars == <<ops, shared, warm, pc, mem, acc, res>>

AllOps == {"sign", "signfile", "verify", "verifyfile", "hint", "enc", "encs", "dec", "decs", "curvesk", "curvepk", "savepub", "savesig", "reads"}
Rank == [o \in AllOps |-> CHOOSE i \in 1..14 : o = <<"sign", "signfile", "verify", "verifyfile", "hint", "enc", "encs", "dec", "decs", "curvesk", "curvepk", "savepub", "savesig", "reads">>[i]]
Procs == 1..NProcs

R(c) == <<"r", c>>
W(c) == <<"w", c>>
\* derived values are computed for each use ...
Curve(obj) == IF "lazy" \in Bugs
              THEN <<<<"need", obj>>>>        \* ... or kept in the key at the first use
              ELSE <<R(<<obj, "bytes">>)>>
Scratch == IF "global" \in Bugs THEN <<W(<<"pkg", "buf">>), <<"use", <<"pkg", "buf">>>>>> ELSE <<>>
Access(o) ==
  CASE o \in {"sign", "signfile"}     -> <<R(<<"in", "bytes">>)>> \o Scratch \o <<R(<<"sk", "bytes">>), R(<<"sk", "hash">>)>>
    [] o \in {"verify", "verifyfile"} -> <<R(<<"in", "bytes">>)>> \o Scratch \o <<R(<<"pk", "bytes">>), R(<<"sig", "bytes">>)>>
    [] o = "hint"                     -> <<R(<<"pk", "hash">>), R(<<"sig", "hint">>)>>
    [] o \in {"enc", "encs"}          -> <<R(<<"sk", "bytes">>)>> \o Curve("pk") \o <<R(<<"in", "bytes">>)>> \o Scratch
    [] o \in {"dec", "decs"}          -> Curve("sk") \o <<R(<<"pk", "bytes">>), R(<<"in", "bytes">>)>> \o Scratch
    [] o = "curvesk"                  -> Curve("sk")
    [] o = "curvepk"                  -> Curve("pk")
    [] o = "savepub"                  -> <<R(<<"pk", "bytes">>), R(<<"pk", "hash">>)>>
    [] o = "savesig"                  -> <<R(<<"sig", "bytes">>), R(<<"sig", "hint">>)>>
    [] o = "reads"                    -> <<R(<<"in", "bytes">>)>> \o (IF "inplace" \in Bugs THEN <<W(<<"in", "bytes">>)>> ELSE <<>>)

\* the cell an access of process p means
Cell(p, c) == IF c[1] \in shared \/ c[1] = "pkg" THEN <<c[1], c[2], 0>> ELSE <<c[1], c[2], p>>

Init == /\ ops \in [Procs -> Ops] /\ \A p \in Procs \ {1} : Rank[ops[p - 1]] <= Rank[ops[p]]
        /\ shared \in SUBSET Objects /\ warm \in Warms
        /\ pc = [p \in Procs |-> <<1, 0>>]
        /\ mem = [x \in {} |-> 0] /\ acc = {} /\ res = [p \in Procs |-> "right"]

Val(x) == IF x \in DOMAIN mem THEN mem[x] ELSE 0
Set(x, v) == [y \in DOMAIN mem \cup {x} |-> IF y = x THEN v ELSE mem[y]]
Note(p, k, x) == acc' = acc \cup {<<x, p, k>>}

Step(p) ==
  LET l == Access(ops[p]) n == pc[p][1] s == pc[p][2] IN
  /\ n <= Len(l)
  /\ LET a == l[n] x == Cell(p, a[2]) IN
     CASE a[1] = "r" -> Note(p, "r", x) /\ pc' = [pc EXCEPT ![p] = <<n + 1, 0>>] /\ UNCHANGED <<mem, res>>
       [] a[1] = "w" -> Note(p, "w", x) /\ mem' = Set(x, p) /\ pc' = [pc EXCEPT ![p] = <<n + 1, 0>>] /\ UNCHANGED res
       [] a[1] = "use" -> Note(p, "r", x) /\ res' = (IF Val(x) # p THEN [res EXCEPT ![p] = "wrong"] ELSE res) /\ pc' = [pc EXCEPT ![p] = <<n + 1, 0>>] /\ UNCHANGED mem
       [] a[1] = "need" ->
            LET ptr == Cell(p, <<a[2], "ptr">>) len == Cell(p, <<a[2], "len">>) IN
            CASE s = 0 -> \* kept already?
                          /\ Note(p, "r", ptr) /\ UNCHANGED <<mem, res>>
                          /\ pc' = [pc EXCEPT ![p] = IF warm \/ Val(ptr) = 1 THEN <<n, 3>> ELSE <<n, 1>>]
              [] s = 1 -> Note(p, "w", ptr) /\ mem' = Set(ptr, 1) /\ pc' = [pc EXCEPT ![p] = <<n, 2>>] /\ UNCHANGED res
              [] s = 2 -> Note(p, "w", len) /\ mem' = Set(len, 1) /\ pc' = [pc EXCEPT ![p] = <<n, 3>>] /\ UNCHANGED res
              [] s = 3 -> /\ Note(p, "r", len) /\ UNCHANGED mem
                          /\ res' = (IF warm \/ Val(len) = 1 THEN res ELSE [res EXCEPT ![p] = "wrong"])
                          /\ pc' = [pc EXCEPT ![p] = <<n + 1, 0>>]
  /\ UNCHANGED <<ops, shared, warm>>

Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
NoRace == \A a, b \in acc : a[1] = b[1] /\ a[2] # b[2] => a[3] = "r" /\ b[3] = "r"
Right == \A p \in Procs : res[p] = "right"
Ends == \A p \in Procs : pc[p][1] > Len(Access(ops[p]))
EmitInv == Emit /\ Ends => PrintT("@C" \o ToJson([ops |-> ops, shared |-> shared, warm |-> warm]))
=============================================================================
