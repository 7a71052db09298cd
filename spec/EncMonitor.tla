----------------------------- MODULE EncMonitor -----------------------------
(***************************************************************************)
(* The contract of an encryption context, as seen by its caller and its    *)
(* destinations.  A monitor state mon summarises the past; Judge(m, e)     *)
(* is the set of rules that event e breaks after m; After(m, e) is the     *)
(* next monitor state.  The design (EncLife) and recorded executions of    *)
(* the real code (EncTrace) are judged by the same rules.                  *)
(*                                                                         *)
(* An event is one call with what was observed:                            *)
(*   op     "add" | "enc" | "open" | "write" | "close"                     *)
(*   w      the stream writer (0: none)                                    *)
(*   res    "ok" | "err" | "short" | "panic"                               *)
(*   n      plaintext units passed in                                      *)
(*   fired  the source or the destination reported a fault during the call *)
(*   wrote  some bytes reached some destination during the call            *)
(*   hdr    the whole file header has reached the destination of the call  *)
(*   new    the blocks completed at the destination during the call:       *)
(*          identities of their key streams (key and nonce)                *)
(*   whole  the destination holds a complete file of exactly the plaintext *)
(*   closes how often the destination was closed so far                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

NoWriter == [used |-> FALSE, dead |-> FALSE, fault |-> FALSE, fed |-> 0]

MonInit(nw) == [nk |-> 0, started |-> FALSE, tried |-> FALSE, used |-> {},
                w |-> [i \in 1..nw |-> NoWriter]]

RangeS(s) == {s[i] : i \in DOMAIN s}

Starts(m) == m.nk > 0 /\ ~m.started

Rule(name, holds) == IF holds THEN {} ELSE {name}

\* an earlier attempt failed before the header was out: both answers are fine
Open(m) == m.tried

Judge(m, e) ==
  UNION {
    Rule("panic", e.res # "panic"),
    \* C05
    Rule("nonce-reuse", Cardinality(RangeS(e.new)) = Len(e.new) /\ RangeS(e.new) \cap m.used = {}),
    Rule("late-call", e.op \in {"add", "enc", "open"} /\ m.started => e.res # "ok" /\ ~e.wrote),
    \* C07
    Rule("fault-hidden", e.op = "enc" /\ e.fired => e.res # "ok"),
    Rule("fault-hidden", e.op = "close" /\ (e.fired \/ m.w[e.w].fault) => e.res # "ok"),
    Rule("fault-hidden", e.op = "open" /\ e.fired => e.res # "ok"),
    Rule("not-written", e.op \in {"enc"} /\ e.res = "ok" => e.whole /\ e.closes = 1),
    Rule("spurious-error", e.op = "enc" /\ Starts(m) /\ ~Open(m) /\ ~e.fired => e.res = "ok"),
    \* C19
    Rule("not-complete", e.op = "close" /\ e.res = "ok" => e.whole /\ e.closes = 1),
    Rule("early-complete", e.op = "open" \/ (e.op = "write" /\ ~m.w[e.w].dead) => ~e.whole),
    Rule("dead-writer", e.op \in {"write", "close"} /\ m.w[e.w].dead => e.res # "ok" /\ ~e.wrote),
    Rule("short-write", e.op = "write" => e.res # "short"),
    Rule("stream-error", e.op \in {"write", "close"} /\ ~m.w[e.w].dead /\ ~m.w[e.w].fault /\ ~e.fired => e.res = "ok"),
    Rule("open-error", e.op = "open" /\ Starts(m) /\ ~Open(m) /\ ~e.fired => e.res = "ok"),
    Rule("closed-twice", e.closes <= 1),
    Rule("add-error", e.op = "add" /\ ~m.started /\ ~Open(m) => e.res = "ok")
  }

After(m, e) ==
  LET m1 == [m EXCEPT !.used = @ \cup RangeS(e.new)]
      bad == e.res # "ok"
  IN CASE e.op = "add"  -> IF bad THEN m1 ELSE [m1 EXCEPT !.nk = @ + 1]
       [] e.op \in {"enc", "open"} ->
            LET m2 == [m1 EXCEPT !.started = @ \/ e.hdr \/ ~bad,
                                 !.tried = @ \/ (Starts(m) /\ bad)]
            IN IF e.op = "open" /\ ~bad THEN [m2 EXCEPT !.w[e.w] = [NoWriter EXCEPT !.used = TRUE]] ELSE m2
       [] e.op = "write" -> [m1 EXCEPT !.w[e.w].fault = @ \/ e.fired, !.w[e.w].dead = @ \/ bad,
                                       !.w[e.w].fed = @ + (IF bad THEN 0 ELSE e.n)]
       [] e.op = "close" -> [m1 EXCEPT !.w[e.w].fault = @ \/ e.fired, !.w[e.w].dead = TRUE]
       [] OTHER -> m1

\* which rules belong to which property
RulesOf(p) == CASE p = "C05" -> {"panic", "nonce-reuse", "late-call"}
                [] p = "C07" -> {"panic", "fault-hidden", "not-written", "spurious-error"}
                [] p = "C19" -> {"panic", "not-complete", "early-complete", "dead-writer", "short-write",
                                 "stream-error", "open-error", "closed-twice", "fault-hidden"}
                [] OTHER -> {}
AllRules == UNION {RulesOf(p) : p \in {"C05", "C07", "C19"}} \cup {"add-error"}
=============================================================================
