--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The commands of the program as sequences of operations on a file system *)
(* (C12 - C15), run in every situation within a number of deviations from  *)
(* the plain one, with an environment that lets any operation fail, kills  *)
(* the program at any moment, or lets another process create the output.   *)
(***************************************************************************)
EXTENDS CliRules, Sequences, TLC, Json

CONSTANTS Cmds, MaxDev, Faults, Bugs, Emit

VARIABLES sc, pc, dir, ino, rd, sout, st, fault, nwr
vars == <<sc, pc, dir, ino, rd, sout, st, fault, nwr>>

-----------------------------------------------------------------------------
\* Situations
Dests(c) == CASE c = "sign" -> {"file", "stdout", "default"} [] c \in {"enc", "dec"} -> {"file", "stdout"} [] c = "test" -> {"none", "file"}
              [] c = "verify" -> {"none", "quiet"} [] OTHER -> {"file"}
Plain(c) == CASE c \in {"test", "verify"} -> "none" [] OTHER -> "file"
Savers == {"savesk", "savepk", "savesig"}   \* the library's Serialize
OutKinds(c) == CASE c \in Savers -> {"absent", "file", "wide", "blank", "link", "dangling", "dir", "fifo"}
                 [] c = "gen" -> {"absent", "key", "pub", "both", "keydang", "pubdang", "keydir", "pubdir"}
                 [] c = "verify" -> {"absent"}
                 [] c \in {"sign"} -> {"absent", "file", "wide", "blank", "link", "dangling", "dir", "fifo", "self", "hard", "symin"}
                 [] OTHER -> {"absent", "file", "wide", "blank", "link", "dangling", "dir", "fifo", "self", "selfabs", "selfdot", "hard", "symin", "dirlink"}
Probs(c) == CASE c \in {"gen"} \cup Savers -> {"none", "nodir"}
              [] c = "sign" -> {"none", "pw", "nokey", "badpw", "notkey", "nosuchin", "dirin"}
              [] c = "verify" -> {"none", "string", "sshstring", "shadow", "badshadow", "altered", "longer", "otherkey", "badsig", "badhint", "nosig", "nokey", "nosuchin"}
              [] c = "enc" -> {"none", "signed", "user", "two", "norecip", "baduser", "badsecond", "nosender", "badpw", "nosuchin", "badblock", "badauth", "norecips"}
              [] OTHER -> {"none", "signed", "pw", "wrongkey", "badpw", "nokey", "tamperfirst", "tamperlast", "cutfirst", "cutlast", "cuthdr", "emptyin",
                           "demand", "nodemand", "wrongsender", "nosender", "nosuchin", "stamperfirst", "stamperlast", "scutlast"}
Fine == {"none", "pw", "signed", "user", "two", "string", "sshstring", "shadow"}
Odd == {"nshort", "nodd", "ndash", "nabs"}  \* files with unusual names
Inps(c) == CASE c = "enc" -> {"file", "stdin", "fifo", "slow"} \cup Odd [] c \in {"dec", "test"} -> {"file", "stdin", "nofile", "fifo", "slow"} \cup Odd
             [] c \in {"sign", "verify"} -> {"file", "fifo"} \cup Odd [] OTHER -> {"file"}
Sizes(c) == IF c \in {"gen"} \cup Savers THEN {"many"} ELSE {"empty", "one", "many", "big"}

Situations(c) ==
  {s \in [cmd : {c}, force : BOOLEAN, dest : Dests(c), out : OutKinds(c), prob : Probs(c), umask : {"022", "0", "077"}, inp : Inps(c), size : Sizes(c), mode : {"0600", "0666"}] :
     \* replacing what is there is one deviation
     /\ (IF s.force /\ s.out = "absent" THEN 1 ELSE 0) + (IF s.dest # Plain(c) THEN 1 ELSE 0) + (IF s.out # "absent" THEN 1 ELSE 0) + (IF s.prob # "none" THEN 1 ELSE 0)
        + (IF s.umask # "022" THEN 1 ELSE 0) + (IF s.inp # "file" THEN 1 ELSE 0) + (IF s.size # "many" THEN 1 ELSE 0) + (IF s.mode # "0600" THEN 1 ELSE 0) <= MaxDev
     /\ s.inp # "file" => s.out \notin {"self", "selfabs", "selfdot", "hard", "symin", "dirlink"} /\ s.prob \notin {"nosuchin", "dirin"}
     /\ s.prob \in {"nosuchin", "dirin"} => s.out \notin {"self", "selfabs", "selfdot", "hard", "symin", "dirlink"}
     /\ s.size \in {"empty", "one"} => s.prob \notin {"tamperlast", "cutlast", "tamperfirst", "cutfirst", "stamperlast", "stamperfirst", "scutlast"}
     /\ s.prob = "emptyin" => s.size = "many"
     /\ s.cmd \in {"gen"} \cup Savers => s.mode = "0600"
     /\ s.cmd = "savesk" /\ s.umask # "022" => s.out \in {"absent", "wide"}   \* deriving a key costs a second
     /\ s.dest \in {"stdout", "none", "quiet"} => s.out = "absent" /\ ~s.force
     /\ s.dest = "default" => s.out \notin {"self", "hard", "symin"}}

-----------------------------------------------------------------------------
\* Programs
O(op, f, fails) == [op |-> op, f |-> f, fails |-> fails]
Rw(to) == <<O("read", "in", {"tamperfirst", "stamperfirst", "cutfirst", "emptyin", "cuthdr"}), O("write", to, {}), O("read", "in", {"tamperlast", "stamperlast", "cutlast", "scutlast"}), O("write", to, {})>>
Commit(f) == <<O("sync", f, {}), O("close", f, {}), O("rename", f, {})>>
ToFile(s) == s.dest \in {"file", "default"}
Prog(s) ==
  LET to == IF ToFile(s) THEN "out" ELSE "sout"
      If(b, q) == IF b THEN q ELSE <<>>
  IN CASE s.cmd = "gen" ->
            <<O("exists", "out", {}), O("exists", "out2", {}), O("create", "out", {"nodir"}), O("write", "out", {})>> \o Commit("out")
            \o <<O("create", "out2", {}), O("write", "out2", {})>> \o Commit("out2")
       [] s.cmd \in Savers -> <<O("exists", "out", {}), O("create", "out", {"nodir"}), O("write", "out", {})>> \o Commit("out")
       [] s.cmd = "sign" ->
            If(ToFile(s), <<O("exists", "out", {}), O("create", "out", {})>>)
            \o <<O("load", "key", {"nokey", "badpw", "notkey"}), O("load", "in", {"nosuchin", "dirin"}), O("write", to, {})>>
            \o If(ToFile(s), Commit("out"))
       [] s.cmd = "verify" ->
            <<O("load", "key", {"nokey"}), O("load", "sig", {"nosig", "badsig", "badhint", "otherkey", "badshadow"}), O("load", "in", {"nosuchin", "altered", "longer"})>>
       [] s.cmd = "enc" ->
            <<O("load", "key", {"nosender", "badpw"}), O("open", "in", {"nosuchin", "norecips"}), O("load", "auth", {"badauth"})>>
            \o If(ToFile(s), <<O("same", "out", {}), O("exists", "out", {}), O("create", "out", {})>>)
            \o <<O("load", "recip", {"norecip", "baduser", "badblock", "badsecond"})>> \o Rw(to) \o If(ToFile(s), Commit("out"))
       [] s.cmd = "dec" ->
            <<O("load", "key", {"nokey", "badpw"}), O("load", "sender", {"nosender"}), O("open", "in", {"nosuchin"})>>
            \o If(ToFile(s), <<O("same", "out", {}), O("exists", "out", {}), O("create", "out", {})>>)
            \o <<O("load", "hdr", {"wrongkey", "demand", "nodemand", "wrongsender", "cuthdr", "emptyin"})>> \o Rw(to) \o If(ToFile(s), Commit("out"))
       [] s.cmd = "test" ->
            <<O("load", "key", {"nokey", "badpw"}), O("load", "sender", {"nosender"}), O("open", "in", {"nosuchin"}),
              O("load", "hdr", {"wrongkey", "demand", "nodemand", "wrongsender", "cuthdr", "emptyin"})>>
            \o <<O("read", "in", {"tamperfirst", "stamperfirst", "cutfirst", "emptyin", "cuthdr"}), O("read", "in", {"tamperlast", "stamperlast", "cutlast", "scutlast"})>>

\* "direct" is a program that writes the output in place
Prog2(s) == SelectSeq(Prog(s), LAMBDA o : ~(o.op = "same" /\ "noSame" \in Bugs) /\ ~(o.op = "exists" /\ "noExists" \in Bugs)
                                          /\ ~(o.op = "rename" /\ "direct" \in Bugs))

-----------------------------------------------------------------------------
\* The file system: names to inodes (0: none, -1..: links are inodes of kind "link")
Names == {"out", "out2", "in", "tgt", "tmp", "tmp2"}
TmpOf(f) == IF f = "out" THEN "tmp" ELSE "tmp2"
I(kind, data, wide) == [kind |-> kind, data |-> data, wide |-> wide, to |-> "none"]
Link(n) == [kind |-> "link", data |-> "link", wide |-> FALSE, to |-> n]
\* inode 1: the input, 2: what the output was, 3: what the second output was, 4: a link's target, 5..: new ones
Ino0(s) == <<I("reg", "input", s.mode = "0666"),
             CASE s.out \in {"file", "blank", "key", "both"} -> I("reg", "old", FALSE) [] s.out = "wide" -> I("reg", "old", TRUE) [] s.out = "link" -> Link("tgt")
               [] s.out \in {"dangling", "keydang"} -> Link("none") [] s.out \in {"dir", "keydir"} -> I("dir", "old", FALSE) [] s.out = "fifo" -> I("fifo", "old", FALSE)
               [] s.out = "symin" -> Link("in") [] OTHER -> I("none", "", FALSE),
             CASE s.out \in {"pub", "both"} -> I("reg", "old", FALSE) [] s.out = "pubdang" -> Link("none") [] s.out = "pubdir" -> I("dir", "old", FALSE) [] OTHER -> I("none", "", FALSE),
             I("reg", "old", FALSE), I("none", "", FALSE), I("none", "", FALSE)>>
Selfs == {"self", "selfabs", "selfdot", "hard", "dirlink"}
Dir0(s) == [n \in Names |->
             CASE n = "in" -> IF s.prob = "nosuchin" THEN 0 ELSE 1
               [] n = "out" -> IF s.out \in Selfs THEN 1 ELSE IF Ino0(s)[2].kind = "none" THEN 0 ELSE 2
               [] n = "out2" -> IF Ino0(s)[3].kind = "none" THEN 0 ELSE 3
               [] n = "tgt" -> IF s.out = "link" THEN 4 ELSE 0
               [] OTHER -> 0]
RECURSIVE Res(_, _, _)
Res(d, i, n) == IF n = "none" \/ d[n] = 0 THEN 0 ELSE IF i[d[n]].kind = "link" THEN Res(d, i, i[d[n]].to) ELSE d[n]

Secret(f) == sc.cmd \in {"enc", "dec", "savesk"} \/ (sc.cmd = "gen" /\ f = "out")

Init == \E c \in Cmds : \E s \in Situations(c) :
          /\ sc = s /\ pc = 1 /\ dir = Dir0(s) /\ ino = Ino0(s) /\ rd = 0 /\ sout = "" /\ st = "run" /\ fault = "none" /\ nwr = 0

Op == Prog2(sc)[pc]
\* remove what was made so far and exit
Fail == /\ st' = "nonzero"
        /\ dir' = IF "noAbort" \in Bugs \/ fault' = "unlink" THEN dir ELSE [dir EXCEPT !["tmp"] = 0, !["tmp2"] = 0]
        /\ UNCHANGED <<sc, pc, ino, rd, sout, nwr>>
Go == pc' = pc + 1 /\ UNCHANGED <<sc, fault, st>>
Exit == /\ st = "run" /\ pc > Len(Prog2(sc)) /\ st' = "zero" /\ UNCHANGED <<sc, pc, dir, ino, rd, sout, fault, nwr>>
NewIno(f) == IF f = "out" THEN 5 ELSE 6

Refuses ==
  \/ sc.prob \in Op.fails
  \/ Op.op = "same" /\ sc.inp \notin {"stdin", "nofile"} /\ Res(dir, ino, "out") # 0 /\ Res(dir, ino, "out") = Res(dir, ino, "in")
  \/ Op.op = "exists" /\ IF sc.force THEN Op.f = "out" /\ Res(dir, ino, Op.f) # 0 /\ ino[Res(dir, ino, Op.f)].kind # "reg" /\ sc.cmd # "gen"
                         ELSE IF "statOnly" \in Bugs THEN Res(dir, ino, Op.f) # 0 ELSE dir[Op.f] # 0
  \/ Op.op = "create" /\ Res(dir, ino, Op.f) # 0 /\ ino[Res(dir, ino, Op.f)].kind # "reg"
  \/ Op.op = "rename" /\ dir[Op.f] # 0 /\ ino[dir[Op.f]].kind = "dir"

Refuse == /\ st = "run" /\ pc <= Len(Prog2(sc)) /\ Refuses /\ UNCHANGED fault /\ Fail

Does ==
  /\ st = "run" /\ pc <= Len(Prog2(sc)) /\ ~Refuses
  /\ CASE Op.op \in {"exists", "same", "load", "open", "sync", "close"} -> UNCHANGED <<dir, ino, rd, sout, nwr>>
       [] Op.op = "create" ->
            IF "direct" \in Bugs
            THEN LET r == Res(dir, ino, Op.f) IN
                 IF r # 0 THEN ino' = [ino EXCEPT ![r].data = "part"] /\ UNCHANGED <<dir, rd, sout, nwr>>
                 ELSE /\ ino' = [ino EXCEPT ![NewIno(Op.f)] = I("reg", "part", "wideMode" \in Bugs)]
                      /\ dir' = [dir EXCEPT ![Op.f] = NewIno(Op.f)] /\ UNCHANGED <<rd, sout, nwr>>
            ELSE /\ ino' = [ino EXCEPT ![NewIno(Op.f)] = I("reg", "part", ("wideMode" \in Bugs \/ ("inMode" \in Bugs /\ ino[1].wide)) /\ sc.umask # "077")]
                 /\ dir' = [dir EXCEPT ![TmpOf(Op.f)] = NewIno(Op.f)] /\ UNCHANGED <<rd, sout, nwr>>
       [] Op.op = "read" -> rd' = rd + 1 /\ UNCHANGED <<dir, ino, sout, nwr>>
       [] Op.op = "write" ->
            /\ nwr' = nwr + 1
            /\ LET last == \A j \in (pc + 1)..Len(Prog2(sc)) : ~(Prog2(sc)[j].op = "write" /\ Prog2(sc)[j].f = Op.f)
                   d == IF last THEN "full" ELSE "part"
               IN IF Op.f = "sout" THEN sout' = d /\ UNCHANGED <<dir, ino, rd>>
                  ELSE LET i == IF "direct" \in Bugs THEN Res(dir, ino, Op.f) ELSE dir[TmpOf(Op.f)] IN
                       ino' = [ino EXCEPT ![i].data = d] /\ UNCHANGED <<dir, rd, sout>>
       [] Op.op = "rename" -> dir' = [dir EXCEPT ![Op.f] = dir[TmpOf(Op.f)], ![TmpOf(Op.f)] = 0] /\ UNCHANGED <<ino, rd, sout, nwr>>
  /\ Go

\* the environment lets the operation fail
Errs == /\ st = "run" /\ fault = "none" /\ pc <= Len(Prog2(sc)) /\ ~Refuses /\ Op.op \in Faults \cap {"load", "open", "create", "read", "write", "sync", "close", "rename"}
        /\ fault' = Op.op \o ":" \o Op.f
        /\ IF ("ignoreWrite" \in Bugs /\ Op.op = "write") \/ ("ignoreClose" \in Bugs /\ Op.op \in {"close", "sync", "rename"})
              \/ ("readEof" \in Bugs /\ Op.op = "read")
           THEN pc' = pc + 1 /\ UNCHANGED <<sc, dir, ino, rd, sout, st, nwr>>
           ELSE Fail
Litter == /\ "unlink" \in Faults /\ st = "run" /\ fault = "none" /\ pc <= Len(Prog2(sc)) /\ Refuses /\ fault' = "unlink" /\ Fail
Kill == /\ "kill" \in Faults /\ st = "run" /\ fault = "none" /\ st' = "killed" /\ fault' = "kill" /\ UNCHANGED <<sc, pc, dir, ino, rd, sout, nwr>>
\* another process makes the output while the command runs
Appear == /\ "appear" \in Faults /\ st = "run" /\ fault = "none" /\ dir["out"] = 0 /\ pc > 1
          /\ ino' = [ino EXCEPT ![2] = I("reg", "old", FALSE)] /\ dir' = [dir EXCEPT !["out"] = 2] /\ fault' = "appear"
          /\ UNCHANGED <<sc, pc, rd, sout, st, nwr>>
Next == Refuse \/ Does \/ Exit \/ Errs \/ Litter \/ Kill \/ Appear
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Was(n) == IF fault = "appear" /\ n = "out" THEN 2 ELSE Dir0(sc)[n]
Look(n) == LET i == dir[n] w == Was(n) IN
           IF i = w /\ (i = 0 \/ ino[i].data \in {"old", "input", "link"}) THEN "before"
           ELSE IF i # 0 /\ ino[i].kind = "reg" /\ ino[i].data = "full" THEN "full" ELSE "other"
NRead == Cardinality({j \in 1..Len(Prog(sc)) : Prog(sc)[j].op = "read"})
Cmd == [cmd |-> sc.cmd, force |-> sc.force, had |-> sc.cmd # "test" /\ (Dir0(sc)["out"] # 0 \/ fault = "appear"), had2 |-> Dir0(sc)["out2"] # 0,
        self |-> sc.out \in Selfs \cup {"symin"}, fault |-> fault,
        good |-> /\ sc.prob \in Fine
                 /\ \/ sc.out = "absent" \/ sc.cmd = "test"
                    \/ sc.force /\ sc.out \in {"file", "wide", "blank", "link", "dangling", "key", "pub", "both", "keydang", "pubdang"}
                    \/ sc.force /\ sc.cmd = "sign" /\ sc.out \in {"self", "hard", "symin"}]
Obs == [out |-> Look("out"), out2 |-> Look("out2"),
        inp |-> IF Res(dir, ino, "in") = Dir0(sc)["in"] /\ ino[1].data = "input" THEN "same" ELSE "changed",
        others |-> IF dir["tgt"] = Dir0(sc)["tgt"] /\ ino[4].data = "old" THEN "same" ELSE "changed",
        wide |-> \/ ino[5].kind = "reg" /\ ino[5].wide /\ Secret("out") /\ \E n \in Names : dir[n] = 5
                 \/ "direct" \in Bugs /\ Secret("out") /\ dir["out"] # 0 /\ ino[dir["out"]].kind = "reg" /\ ino[dir["out"]].wide /\ ino[dir["out"]].data \notin {"old", "input"},
        temps |-> Cardinality({n \in {"tmp", "tmp2"} : dir[n] # 0}),
        done |-> /\ sc.prob \in Fine /\ rd = NRead
                 /\ IF sc.cmd = "gen" THEN Look("out") = "full" /\ Look("out2") = "full"
                    ELSE IF sc.cmd \in {"verify", "test"} THEN TRUE
                    ELSE IF ToFile(sc) THEN Look("out") = "full" ELSE sout = "full",
        st |-> st]
Safe == Broken(Cmd, Obs) = {}
SafeRace == fault = "appear" => Broken(Cmd, Obs) = {}

\* the harness itself lets every system call of the real program fail
EmitInv == Emit /\ st \in {"zero", "nonzero"} /\ fault = "none" =>
             PrintT("@C" \o ToJson([s |-> sc, c |-> Cmd, st |-> st, out |-> Obs.out, out2 |-> Obs.out2, done |-> Obs.done]))
=============================================================================
