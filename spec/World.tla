------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* Histories of the program: users make keys, sign, verify, encrypt,       *)
(* decrypt, copy, remove and damage files, one command after the other, in *)
(* one directory.  Every file may be used in every place: a signature may  *)
(* be encrypted, an encrypted file signed, a key file decrypted over.      *)
(*                                                                         *)
(* Contents are terms:  <<"none">>  <<"data", d>>  <<"bad", n>>            *)
(*   <<"sk", key, form, passphrase>>   <<"pk", key, form>>                 *)
(*   <<"sig", key, content, name>>                                         *)
(*   <<"enc", recipients, sender, content, n>>                             *)
(* n, the number of the step, makes terms that are never the same bytes    *)
(* different.  A command is put together field by field (so that random    *)
(* walks are cheap); with want, each field is chosen to make it succeed,   *)
(* where possible.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Bases, Kinds, Wants, MaxLen, MaxGen, Bugs, Emit

VARIABLES fs, first, cur, todo, hist
vars == <<fs, first, cur, todo, hist>>

None == <<"none">>
Tag(x) == x[1]
Is(n, t) == n # "-" /\ Tag(fs[n]) = t
There(n) == fs[n] # None

Fields == [gen    |-> <<"base", "pw", "force">>,
           sign   |-> <<"key", "pw", "in", "out", "force">>,
           verify |-> <<"sig", "pub", "in">>,
           enc    |-> <<"rc1", "rc2", "sender", "pw", "in", "out", "force">>,
           dec    |-> <<"in", "key", "pw", "v", "out", "force">>,
           test   |-> <<"in", "key", "pw", "v">>,
           cp     |-> <<"in", "out">>,
           rm     |-> <<"in">>,
           harm   |-> <<"in">>]
Blank == [c |-> "", want |-> FALSE, base |-> "-", key |-> "-", pw |-> "", in |-> "-", out |-> "-", force |-> FALSE, sig |-> "-", pub |-> "-",
          rc1 |-> "-", rc2 |-> "-", sender |-> "-", v |-> "-"]

AllData == {<<"data", "D1">>, <<"data", "D0">>, <<"data", "big">>}
Start(n) ==
  CASE n = "a"     -> AllData
    [] n = "b"     -> {None, <<"data", "D2">>}
    [] n = "k.key" -> {<<"sk", "K", "native", "">>, <<"sk", "K", "native", "p">>}
    [] n = "k.pub" -> {<<"pk", "K", "native">>}
    [] n = "l.key" -> {<<"sk", "L", "ssh", "">>}
    [] n = "l.pub" -> {<<"pk", "L", "ssh">>}
    [] OTHER       -> {None}
RECURSIVE Starts(_)
Starts(ns) == IF ns = {} THEN {<<>>}
              ELSE LET n == CHOOSE n \in ns : TRUE IN {(n :> x) @@ f : x \in Start(n), f \in Starts(ns \ {n})}
Init == fs \in Starts(Names) /\ first = fs /\ cur = Blank /\ todo = <<>> /\ hist = <<>>

-----------------------------------------------------------------------------
\* What a command does.

Opens(kf, pw) == Is(kf, "sk") /\ (fs[kf][3] = "ssh" \/ fs[kf][4] = pw)
Free(n, force) == ~There(n) \/ force \/ "noForce" \in Bugs
Key(n) == IF n = "-" THEN "none" ELSE IF Tag(fs[n]) \in {"sk", "pk"} THEN fs[n][2] ELSE "none"
Rcpts(x) == {Key(n) : n \in {x.rc1, x.rc2} \ {"-"}}
Readable(x) == /\ Is(x.in, "enc") /\ Opens(x.key, x.pw)
               /\ (Key(x.key) \in fs[x.in][2] \/ "anyKey" \in Bugs)
               /\ \/ x.v = "-" /\ fs[x.in][3] = "none"
                  \/ Is(x.v, "pk") /\ fs[x.in][3] # "none" /\ (Key(x.v) = fs[x.in][3] \/ "anySender" \in Bugs)
Ok(x) ==
  CASE x.c = "gen"    -> Free(x.base \o ".key", x.force) /\ Free(x.base \o ".pub", x.force)
    [] x.c = "sign"   -> Opens(x.key, x.pw) /\ There(x.in) /\ Free(x.out, x.force)
    [] x.c = "verify" -> Is(x.pub, "pk") /\ Is(x.sig, "sig") /\ There(x.in) /\ Key(x.pub) = fs[x.sig][2]
                         /\ (fs[x.sig][3] = fs[x.in] \/ "anyContent" \in Bugs)
    [] x.c = "enc"    -> /\ \A n \in {x.rc1, x.rc2} \ {"-"} : Is(n, "pk")
                         /\ (x.sender # "-" => Opens(x.sender, x.pw))
                         /\ There(x.in) /\ x.in # x.out /\ Free(x.out, x.force)
    [] x.c = "dec"    -> Readable(x) /\ x.in # x.out /\ Free(x.out, x.force)
    [] x.c = "test"   -> Readable(x)
    [] x.c = "cp"     -> There(x.in) /\ x.in # x.out
    [] x.c = "rm"     -> There(x.in)
    [] x.c = "harm"   -> There(x.in)

Now == Len(hist) + 1
NewKey == "G" \o ToString(Now)
After(x) ==
  CASE x.c = "gen"  -> [fs EXCEPT ![x.base \o ".key"] = <<"sk", NewKey, "native", x.pw>>, ![x.base \o ".pub"] = <<"pk", NewKey, "native">>]
    [] x.c = "sign" -> [fs EXCEPT ![x.out] = <<"sig", Key(x.key), fs[x.in], x.in>>]
    [] x.c = "enc"  -> [fs EXCEPT ![x.out] = <<"enc", Rcpts(x), Key(x.sender), fs[x.in], Now>>]
    [] x.c = "dec"  -> [fs EXCEPT ![x.out] = fs[x.in][4]]
    [] x.c = "cp"   -> [fs EXCEPT ![x.out] = fs[x.in]]
    [] x.c = "rm"   -> [fs EXCEPT ![x.in] = None]
    [] x.c = "harm" -> IF "harmless" \in Bugs /\ Is(x.in, "enc") THEN [fs EXCEPT ![x.in] = <<"enc", fs[x.in][2], fs[x.in][3], <<"bad", Now>>, Now>>] ELSE [fs EXCEPT ![x.in] = <<"bad", Now>>]
    [] OTHER        -> fs

-----------------------------------------------------------------------------
\* Choosing.

Cand(f) == CASE f = "base" -> Bases [] f = "pw" -> {"", "p"} [] f = "force" -> BOOLEAN
             [] f \in {"rc2", "sender", "v"} -> Names \cup {"-"} [] OTHER -> Names
Fits(f, y) ==
  CASE f \in {"key"} -> Is(y, "sk") /\ (cur.c \in {"dec", "test"} /\ Is(cur.in, "enc") => fs[y][2] \in fs[cur.in][2])
    [] f = "sender" -> y = "-" \/ Is(y, "sk")
    [] f = "pw" -> LET k == IF cur.c = "enc" THEN cur.sender ELSE cur.key IN cur.c = "gen" \/ k = "-" \/ Opens(k, y)
    [] f = "rc1" -> Is(y, "pk")
    [] f = "rc2" -> y = "-" \/ Is(y, "pk")
    [] f = "sig" -> Is(y, "sig")
    [] f = "pub" -> Is(y, "pk") /\ (Is(cur.sig, "sig") => fs[y][2] = fs[cur.sig][2])
    [] f = "in" -> CASE cur.c \in {"dec", "test"} -> Is(y, "enc")
                     [] cur.c = "verify" -> Is(cur.sig, "sig") => fs[cur.sig][3] = fs[y]
                     [] OTHER -> There(y)
    [] f = "v" -> IF Is(cur.in, "enc") /\ fs[cur.in][3] # "none" THEN Is(y, "pk") /\ fs[y][2] = fs[cur.in][3] ELSE y = "-"
    [] f = "out" -> y # cur.in
    [] f = "force" -> y \/ (cur.out # "-" /\ ~There(cur.out))
    [] OTHER -> TRUE
Useful(f) == LET s == {y \in Cand(f) : Fits(f, y)} IN IF cur.want /\ s # {} THEN s ELSE Cand(f)

Gens == Cardinality({i \in DOMAIN hist : hist[i].c = "gen"})
Choose == /\ cur.c = "" /\ Len(hist) < MaxLen
          /\ \E c \in Kinds, w \in Wants : /\ (c = "gen" => Gens < MaxGen)
                                           /\ (c \in {"cp", "rm", "harm"} => w <= 1)   \* fewer of these
                                           /\ cur' = [Blank EXCEPT !.c = c, !.want = w # 0] /\ todo' = Fields[c]
          /\ UNCHANGED <<fs, first, hist>>
Field == /\ cur.c # "" /\ todo # <<>>
         /\ \E y \in Useful(Head(todo)) : cur' = [cur EXCEPT ![Head(todo)] = y]
         /\ todo' = Tail(todo) /\ UNCHANGED <<fs, first, hist>>
Run == /\ cur.c # "" /\ todo = <<>>
       /\ LET ok == Ok(cur) IN
          /\ fs' = IF ok THEN After(cur) ELSE fs
          /\ hist' = Append(hist, [c |-> cur.c, x |-> cur, ok |-> ok, had |-> cur.out # "-" /\ There(cur.out),
                                   kk |-> Key(cur.key), vk |-> Key(cur.v), pk |-> Key(cur.pub), rk |-> Rcpts(cur), sk |-> Key(cur.sender),
                                   ci |-> IF cur.in = "-" THEN None ELSE fs[cur.in],
                                   fs |-> fs'])
       /\ cur' = Blank /\ UNCHANGED <<first, todo>>
Next == Choose \/ Field \/ Run
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What users rely on, said about histories only.

Good(i, c) == hist[i].c = c /\ hist[i].ok
\* what comes out of a decryption went into an encryption to that key, by
\* the sender that was asked for
Authentic == \A i \in DOMAIN hist : (Good(i, "dec") \/ Good(i, "test")) =>
  \E j \in 1..(i - 1) : /\ Good(j, "enc") /\ hist[i].kk \in hist[j].rk
                        /\ hist[j].sk = hist[i].vk
                        /\ (Good(i, "dec") => hist[i].fs[hist[i].x.out] = hist[j].ci)
\* what verifies was signed, with that key, and is that content
Signed == \A i \in DOMAIN hist : Good(i, "verify") =>
  \E j \in 1..(i - 1) : Good(j, "sign") /\ hist[j].kk = hist[i].pk /\ hist[j].ci = hist[i].ci
\* nothing is replaced unasked, an input never, and a failure changes nothing
Before(i) == IF i = 1 THEN first ELSE hist[i - 1].fs
Kept == \A i \in DOMAIN hist :
  LET x == hist[i].x
      diff == {n \in Names : hist[i].fs[n] # Before(i)[n]} IN
  /\ ~hist[i].ok => diff = {}
  /\ x.c \in {"verify", "test"} => diff = {}
  /\ x.c \in {"sign", "enc", "dec"} => diff \subseteq {x.out} /\ (hist[i].ok /\ hist[i].had => x.force)
  /\ x.c \in {"enc", "dec"} => x.in \notin diff
  /\ x.c = "gen" => diff \subseteq {x.base \o ".key", x.base \o ".pub"} /\ (\A n \in diff : Before(i)[n] # None => x.force)
EmitInv == Emit /\ cur.c = "" /\ Len(hist) = MaxLen =>
  PrintT("@C" \o ToJson([first |-> first, steps |-> [i \in DOMAIN hist |-> [x |-> hist[i].x, ok |-> hist[i].ok, fs |-> hist[i].fs]]]))
=============================================================================
