----------------------------- MODULE Interleave -----------------------------
(***************************************************************************)
(* Operations that take turns (C20): at every call an operation makes to   *)
(* its source, its destination or the caller's callback, others may run    *)
(* for as long as they like before it goes on.                             *)
(*                                                                         *)
(* Every operation works in a buffer: it fills it, calls out, uses what    *)
(* is in it, and so on.  The buffer is its own as long as it is at work.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ops,       \* operations with many calls, and "atom": those with none
          NProcs,
          Segs,      \* calls of an operation at most
          MaxSwitch, \* how often the processor changes hands
          Objs,      \* whether they share their keys and inputs
          Bugs, Emit

VARIABLES ops, obj, pos, buf, mem, pool, sched, sw, res
vars == <<ops, obj, pos, buf, mem, pool, sched, sw, res>>
Procs == 1..NProcs
Len1(o) == IF o \in {"enc", "encs", "dec", "decs"} THEN Segs ELSE IF o \in {"readpriv", "readssh"} THEN 2 ELSE 1
Long == {"enc", "encs", "dec", "decs"}

Init == /\ ops \in [Procs -> Ops] /\ obj \in Objs
        /\ pos = [p \in Procs |-> 0] /\ buf = [p \in Procs |-> 0]
        /\ mem = [c \in 0..NProcs |-> <<0, 0>>] /\ pool = {} /\ sched = <<>> /\ sw = 0
        /\ res = [p \in Procs |-> "right"]

Done(p) == pos[p] >= Len1(ops[p])
\* one turn: use what was filled in, fill in the next
Turn(p) ==
  LET n == pos[p]
      last == n + 1 = Len1(ops[p])
      get == IF n > 0 THEN buf[p] ELSE IF "global" \in Bugs THEN 0 ELSE IF pool # {} THEN CHOOSE c \in pool : TRUE ELSE p
      early == "pool" \in Bugs /\ n + 2 = Len1(ops[p])   \* the buffer is given back after its last filling
  IN /\ ~Done(p)
     /\ res' = IF n > 0 /\ mem[buf[p]] # <<p, n>> THEN [res EXCEPT ![p] = "wrong"] ELSE res
     /\ buf' = [buf EXCEPT ![p] = get]
     /\ mem' = IF last THEN mem ELSE [mem EXCEPT ![get] = <<p, n + 1>>]
     /\ pool' = (IF n = 0 THEN pool \ {get} ELSE pool) \cup (IF early THEN {get} ELSE {})
     /\ pos' = [pos EXCEPT ![p] = n + 1]
     /\ sched' = Append(sched, p)
     /\ LET s == IF sched # <<>> /\ sched[Len(sched)] # p THEN sw + 1 ELSE sw IN s <= MaxSwitch /\ sw' = s
     /\ UNCHANGED <<ops, obj>>
Next == \E p \in Procs : Turn(p)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Right == \A p \in Procs : res[p] = "right"
Ends == \A p \in Procs : Done(p)
EmitInv == Emit /\ Ends => PrintT("@C" \o ToJson([ops |-> ops, obj |-> obj, sched |-> sched]))
=============================================================================
