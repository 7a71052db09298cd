------------------------------ MODULE CliRules ------------------------------
(***************************************************************************)
(* What a user may rely on about the files a command touches (C12 - C15),  *)
(* as rules over observations.  Cli.tla checks them on the specified       *)
(* programs, CliTrace.tla on what the real program was seen doing.         *)
(*                                                                         *)
(* c, the command: cmd ("gen","sign","verify","enc","dec","test", or the   *)
(*   library's Serialize: "savesk","savepk","savesig"), force,             *)
(*   had/had2 (something went by the name of the first / second output     *)
(*   before), self (the output is the input, under some name), good (all   *)
(*   arguments and inputs are in order), fault (what the environment does  *)
(*   to the run: "none", an operation it fails, "kill")                    *)
(* o, one moment: out/out2 what the output names refer to ("before" what   *)
(*   they referred to before the command, "full" a complete new output,    *)
(*   "other" anything else), inp/others whether the input and all other    *)
(*   files are the same, wide whether group or others may access a secret  *)
(*   file the command made, temps how many other new files there are,      *)
(*   done whether the whole job is done, st ("run","killed","zero",        *)
(*   "nonzero")                                                            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

Ended(o) == o.st \in {"zero", "nonzero"}

\* C12
Atomic(c, o) == o.out \in {"before", "full"} /\ o.out2 \in {"before", "full"}
\* generate writes two files in turn: failing at the second leaves the first
FailKeeps(c, o) == o.st = "nonzero" => IF c.cmd = "gen" THEN o.out2 = "before" ELSE o.out = "before"
NoLitter(c, o) == o.st = "nonzero" /\ c.fault # "unlink" => o.temps = 0
\* C13
Kept(c, o) == IF c.cmd \in {"test", "verify"} THEN o.out = "before" /\ o.temps = 0 ELSE ~c.force => (c.had => o.out = "before") /\ (c.had2 => o.out2 = "before")
                          /\ (c.cmd = "gen" /\ (c.had \/ c.had2) => o.out = "before" /\ o.out2 = "before" /\ o.temps = 0)
KeptFails(c, o) == o.st = "zero" => c.force \/ ~(c.had \/ c.had2)
InputKept(c, o) == c.cmd \in {"enc", "dec"} \/ ~c.self => o.inp = "same"
SelfFails(c, o) == c.self /\ c.cmd \in {"enc", "dec"} => o.st # "zero" /\ o.out = "before"
OthersKept(c, o) == o.others = "same"
\* C14
ZeroDone(c, o) == o.st = "zero" => o.done
DoneZero(c, o) == Ended(o) /\ c.good /\ c.fault = "none" => o.st = "zero"
\* a fault can hide from the command what is wrong with its output's name; it may then do the job
BadFails(c, o) == ~c.good /\ (c.fault = "none" \/ ~o.done) => o.st # "zero"
\* C15
Private(c, o) == ~o.wide

Rules == {"Atomic", "FailKeeps", "NoLitter", "Kept", "KeptFails", "InputKept", "SelfFails", "OthersKept", "ZeroDone", "DoneZero", "BadFails", "Private"}
RulesOf(p) == CASE p = "C12" -> {"Atomic", "FailKeeps", "NoLitter"}
                [] p = "C13" -> {"Kept", "KeptFails", "InputKept", "SelfFails", "OthersKept"}
                [] p = "C14" -> {"ZeroDone", "DoneZero", "BadFails"}
                [] p = "C15" -> {"Private"}
                [] OTHER -> Rules

Holds(r, c, o) ==
  CASE r = "Atomic" -> Atomic(c, o) [] r = "FailKeeps" -> FailKeeps(c, o) [] r = "NoLitter" -> NoLitter(c, o)
    [] r = "Kept" -> Kept(c, o) [] r = "KeptFails" -> KeptFails(c, o) [] r = "InputKept" -> InputKept(c, o) [] r = "SelfFails" -> SelfFails(c, o)
    [] r = "OthersKept" -> OthersKept(c, o) [] r = "ZeroDone" -> ZeroDone(c, o) [] r = "DoneZero" -> DoneZero(c, o)
    [] r = "BadFails" -> BadFails(c, o) [] r = "Private" -> Private(c, o)
Broken(c, o) == {r \in Rules : ~Holds(r, c, o)}
=============================================================================
