------------------------------- MODULE Spell -------------------------------
(***************************************************************************)
(* Spellings of a command line (C14).  What a user means - a command, its  *)
(* options, its arguments - can be written in many ways: options short or  *)
(* long, joined to their values or not, before, among or after the         *)
(* arguments, twice, the command abbreviated.  Read() takes a line apart   *)
(* as the program must; whatever the spelling, the same is meant, and a    *)
(* line that asks for what cannot be done ends with a non-zero status.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDev, Bugs, Emit

Cmds == {"verify", "sign", "encrypt", "decrypt"}
\* options: name -> takes a value
Bools == {"q", "n", "t", "w"}
Has(c) == CASE c = "verify" -> {"q"} [] c = "sign" -> {"o", "w"} [] c = "encrypt" -> {"o", "s", "B", "w"} [] c = "decrypt" -> {"o", "v", "t", "w"}
Causes(c) == CASE c = "verify" -> {"altered", "wrongkey", "nosig", "nofile", "othersig"}
               [] c = "sign" -> {"nofile", "badkey", "nodir"}
               [] c = "encrypt" -> {"nofile", "norcpt", "badsender", "nodir"}
               [] c = "decrypt" -> {"wrongkey", "tampered", "truncated", "wrongsender", "nofile", "nodir"}
Pos(c) == CASE c = "verify" -> <<"PK", "SIG", "FILE">> [] c = "sign" -> <<"KEY", "FILE">> [] c = "encrypt" -> <<"PK", "FILE">> [] c = "decrypt" -> <<"KEY", "FILE">>

Short == [q |-> "-q", o |-> "-o", s |-> "-s", B |-> "-B", v |-> "-v", t |-> "-t", n |-> "", w |-> ""]
Long(c) == [q |-> "--quiet", o |-> IF c = "sign" THEN "--output" ELSE "--outfile", s |-> "--sign", B |-> "--block-size", v |-> "--verify-sender", t |-> "--test",
            n |-> "--no-password", w |-> "--overwrite"]
Value == [o |-> "OUT", s |-> "SENDER", B |-> "BLOCK", v |-> "SENDERPK"]
Word == [verify |-> {"verify", "v", "VER"}, sign |-> {"sign", "s", "Si"}, encrypt |-> {"encrypt", "e", "ENC"}, decrypt |-> {"decrypt", "d", "Decr"}]

VARIABLES cmd, bad, opts, word, form, order, twice, extra, pc
vars == <<cmd, bad, opts, word, form, order, twice, extra, pc>>

Forms == {"short", "long", "long=", "joined"}
Orders == {"before", "after", "among", "dashes", "backwards"}
Dev == (IF word = cmd THEN 0 ELSE 1) + (IF form = "short" THEN 0 ELSE 1) + (IF order = "before" THEN 0 ELSE 1) + (IF twice THEN 1 ELSE 0) + (IF extra THEN 1 ELSE 0)
Init == /\ cmd \in Cmds /\ bad \in Causes(cmd) \cup {"none"} /\ opts \in SUBSET Has(cmd)
        /\ word \in Word[cmd] /\ form \in Forms /\ order \in Orders /\ twice \in BOOLEAN /\ extra \in BOOLEAN
        /\ extra => cmd # "encrypt" \* there it is one more recipient
        /\ bad = "badsender" => "s" \in opts
        /\ bad = "wrongsender" => "v" \in opts
        /\ bad = "nodir" => "o" \in opts /\ "t" \notin opts
        /\ Dev <= MaxDev /\ pc = "line"

\* one token is <<text, value or "">>, joined where the second is not ""
Opt(o) ==
  LET s == Short[o] l == Long(cmd)[o] IN
  IF o \in Bools THEN (IF form = "long=" THEN <<l \o "=true">> ELSE IF form = "long" \/ s = "" THEN <<l>> ELSE <<s>>)
  ELSE CASE form = "short" -> <<s, Value[o]>> [] form = "long" -> <<l, Value[o]>> [] form = "long=" -> <<l \o "=" \o Value[o]>> [] form = "joined" -> <<s \o Value[o]>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
All == opts \cup (IF cmd = "verify" \/ (cmd = "encrypt" /\ "s" \notin opts) THEN {} ELSE {"n"})
RECURSIVE List(_, _)
List(s, names) == IF names = <<>> THEN <<>> ELSE (IF Head(names) \in s THEN <<Opt(Head(names))>> ELSE <<>>) \o List(s, Tail(names))
Names == <<"q", "n", "t", "w", "o", "s", "B", "v">>
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
OptList == LET l == List(All, Names) IN IF twice THEN l \o Rev(l) ELSE l
Args == Pos(cmd) \o (IF extra THEN <<"EXTRA">> ELSE <<>>)
Line ==
  CASE order = "before" -> Cat(OptList) \o Args
    [] order = "backwards" -> Cat(Rev(OptList)) \o Args
    [] order = "after" -> Args \o Cat(OptList)
    [] order = "dashes" -> Cat(OptList) \o <<"--">> \o Args
    [] order = "among" -> <<Args[1]>> \o Cat(OptList) \o SubSeq(Args, 2, Len(Args))

\* taking it apart again
OptOf(t) == {o \in DOMAIN Short : t = Short[o] /\ t # ""} \cup {o \in DOMAIN Short : t = Long(cmd)[o]}
Whole(t) == {o \in Bools : t = Long(cmd)[o] \o "=true"} \cup {o \in DOMAIN Value : t = Long(cmd)[o] \o "=" \o Value[o] \/ t = Short[o] \o Value[o]}
RECURSIVE Read(_, _)
Read(ts, r) ==
  IF ts = <<>> THEN r
  ELSE LET t == Head(ts) IN
       IF t = "--" THEN [r EXCEPT !.args = @ \o Tail(ts)]
       ELSE IF "early" \in Bugs /\ r.args # <<>> THEN [r EXCEPT !.args = @ \o ts]
       ELSE IF \E o \in Has(cmd) \cup {"n"} : o \in OptOf(t)
            THEN LET o == CHOOSE o \in Has(cmd) \cup {"n"} : o \in OptOf(t) IN
                 IF o \in Bools THEN Read(Tail(ts), [r EXCEPT !.opts = IF "toggle" \in Bugs /\ o \in @ THEN @ \ {o} ELSE @ \cup {o}])
                 ELSE Read(Tail(Tail(ts)), [r EXCEPT !.opts = @ \cup {o}])
       ELSE IF \E o \in Has(cmd) \cup {"n"} : o \in Whole(t)
            THEN Read(Tail(ts), [r EXCEPT !.opts = @ \cup {CHOOSE o \in Has(cmd) \cup {"n"} : o \in Whole(t)}])
       ELSE Read(Tail(ts), [r EXCEPT !.args = Append(@, t)])
Meant == [opts |-> All, args |-> Args]

Done == pc = "line" /\ pc' = "done" /\ UNCHANGED <<cmd, bad, opts, word, form, order, twice, extra>>
Next == Done
Spec == Init /\ [][Next]_vars
Same == Read(Line, [opts |-> {}, args |-> <<>>]) = Meant
EmitInv == Emit /\ pc = "done" =>
  PrintT("@C" \o ToJson([cmd |-> cmd, bad |-> bad, opts |-> opts, extra |-> extra, line |-> <<word>> \o Line]))
=============================================================================
