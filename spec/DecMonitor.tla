----------------------------- MODULE DecMonitor -----------------------------
(***************************************************************************)
(* The contract of a decryption context, as seen by its caller.            *)
(*                                                                         *)
(* An event is one call with what was observed:                            *)
(*   op     "setkey" | "decrypt" | "newreader" | "read"                    *)
(*   r      the stream reader (0: none)                                    *)
(*   fit    setkey: the key is a recipient's and the sender is as demanded *)
(*   ask    read: the buffer is not empty                                  *)
(*   res    "ok" | "err" | "eof" | "panic"                                 *)
(*   got    plaintext delivered by this call: 0 none, 1 some,              *)
(*          2 more than was asked for                                      *)
(*   pre    everything this consumer delivered so far is a prefix of the   *)
(*          plaintext                                                      *)
(*   all    ... is exactly the plaintext                                   *)
(*   none   ... is nothing                                                 *)
(*   fired  the source or destination reported a fault (or the source      *)
(*          ended early) during the call                                   *)
(*   drained  after the call the whole file has been read from the source  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

NoReader == [open |-> FALSE, eof |-> FALSE, bad |-> FALSE]

MonInit(nr) == [keyed |-> FALSE, drained |-> FALSE, done |-> FALSE, fault |-> FALSE,
                dec |-> FALSE, users |-> {}, strm |-> FALSE, rekeyed |-> FALSE,
                r |-> [i \in 1..nr |-> NoReader]]

Rule(name, holds) == IF holds THEN {} ELSE {name}

Pristine(m) == ~m.dec /\ m.users = {} /\ ~m.strm /\ ~m.fault
\* reader i is the only one that ever consumed anything
Alone(m, i) == ~m.dec /\ m.users \subseteq {i} /\ ~m.rekeyed /\ ~m.fault

Judge(m, e) ==
  UNION {
    Rule("panic", e.res # "panic"),
    \* C06
    Rule("setkey", e.op = "setkey" => (e.res = "ok") = e.fit),
    Rule("no-key", ~m.keyed /\ e.op \in {"decrypt", "newreader", "read"} => e.res # "ok" /\ e.got = 0),
    Rule("prefix", e.pre),
    Rule("done-not-exact", e.op = "decrypt" /\ e.res = "ok" => e.all),
    Rule("done-not-exact", e.op = "read" /\ e.res = "eof" => e.all \/ (m.drained /\ e.none)),
    Rule("more-data", e.op = "decrypt" /\ m.drained => e.res # "ok" /\ e.got = 0),
    Rule("not-eof", e.op = "decrypt" /\ m.done => e.res = "eof"),
    Rule("not-eof", e.op = "newreader" /\ m.done => e.res \in {"ok", "eof"}),
    Rule("not-eof", e.op = "read" /\ m.done => e.got = 0 /\ (e.ask => e.res = "eof")),
    Rule("after-eof", e.op = "read" /\ m.r[e.r].eof => e.res = "eof" /\ e.got = 0),
    Rule("spurious-error", e.op = "decrypt" /\ m.keyed /\ Pristine(m) /\ ~e.fired => e.res = "ok"),
    Rule("spurious-error", e.op = "newreader" /\ m.keyed /\ Pristine(m) => e.res = "ok"),
    Rule("spurious-error", e.op = "read" /\ Alone(m, e.r) /\ ~e.fired => e.res \in {"ok", "eof"}),
    \* C19
    Rule("read-contract", e.op = "read" => e.got < 2),
    Rule("read-contract", e.op = "read" /\ e.ask /\ e.res = "ok" => e.got = 1),
    \* C07
    Rule("fault-hidden", e.op = "decrypt" /\ e.fired => e.res # "ok"),
    Rule("fault-hidden", e.op = "read" /\ e.fired => e.res # "eof")
  }

After(m, e) ==
  CASE e.op = "setkey" ->
         IF e.res = "ok" THEN [m EXCEPT !.keyed = TRUE, !.rekeyed = @ \/ m.users # {}] ELSE m
    [] e.op = "decrypt" ->
         [m EXCEPT !.dec = @ \/ m.keyed, !.done = @ \/ e.res = "ok", !.drained = @ \/ e.drained, !.fault = @ \/ e.fired]
    [] e.op = "newreader" ->
         IF e.res = "ok" THEN [m EXCEPT !.strm = TRUE, !.r[e.r].open = TRUE] ELSE m
    [] e.op = "read" ->
         [m EXCEPT !.users = @ \cup {e.r}, !.drained = @ \/ e.drained, !.fault = @ \/ e.fired,
                   !.r[e.r].eof = @ \/ e.res = "eof", !.r[e.r].bad = @ \/ e.res = "err"]
    [] OTHER -> m

RulesOf(p) == CASE p = "C06" -> {"panic", "setkey", "no-key", "prefix", "done-not-exact", "more-data", "not-eof", "after-eof", "spurious-error"}
                [] p = "C07" -> {"panic", "fault-hidden", "done-not-exact", "prefix", "spurious-error"}
                [] p = "C19" -> {"panic", "read-contract", "after-eof", "done-not-exact", "prefix", "spurious-error"}
                [] OTHER -> {}
=============================================================================
