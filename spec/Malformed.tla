----------------------------- MODULE Malformed -----------------------------
(***************************************************************************)
(* Reading hostile input (C11).  Every kind of input is a record of fields,*)
(* each in some class ("ok" or a malformation).  A reader is a sequence of *)
(* steps: a check rejects classes of a field, a use hands a field to a     *)
(* primitive that only tolerates some classes (the nonce of an AEAD, the   *)
(* cost of a KDF, the length of a slice).  Crash: a use is reached with a  *)
(* class it does not tolerate.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, MaxMal, Bugs, Emit

VARIABLES kind, mal, pos, res
vars == <<kind, mal, pos, res>>

AllKinds == {"priv", "ssh", "pub", "sig", "hdr", "body"}

B64 == {"missing", "empty", "null", "notb64", "nopad", "len1", "len11", "short", "long", "huge", "list", "map", "int", "binary", "dup", "multi", "alias"}
Num == {"missing", "null", "zero", "neg", "one", "nonpow2", "big29", "big31", "big40", "over", "float", "string", "hex", "list", "dup"}
Whole == {"blank", "nul", "scalar", "list", "deep", "bomb", "tabs", "bom", "utf16", "twodocs", "unterminated", "directive", "junk", "crlf", "merge", "cut", "dupall", "tag"}

Fields(k) ==
  CASE k = "priv" -> {"esk", "salt", "algo", "Z", "r", "p", "comment", "whole", "cb"}
    [] k = "pub"  -> {"pk", "hash", "comment", "whole"}
    [] k = "sig"  -> {"signature", "pkhash", "comment", "whole"}
    [] k = "ssh"  -> {"pem", "magic", "kdf", "cipher", "salt", "nkeys", "outer", "sect", "ktype", "inner", "privlen", "pad", "strlen", "cb"}
    [] k = "hdr"  -> {"magic", "ver", "vlen", "sum", "chunk", "salt", "pk", "sender", "keys", "dkey", "nonce", "proto"}
    [] k = "body" -> {"lw", "first", "last", "tag", "trailer", "tail"}

Classes(k, f) ==
  CASE f \in {"esk", "pk", "hash", "signature", "pkhash"} /\ k # "hdr" -> B64
    [] k = "priv" /\ f = "salt" -> B64
    [] f \in {"Z", "r", "p"} -> Num
    [] f = "algo" -> {"missing", "other", "list", "null"}
    [] f = "comment" -> {"list", "map", "huge", "binary", "int"}
    [] f = "whole" -> Whole
    [] f = "cb" -> {"nil", "error", "huge"}
    [] f = "pem" -> {"cut", "type", "legacy", "nob64", "empty", "twice", "header"}
    [] f = "magic" -> {"other", "cut"}
    [] f = "kdf" -> {"none", "bcrypt", "other"}
    [] f = "cipher" -> {"none", "ctr", "cbc", "other"}
    [] k = "ssh" /\ f = "salt" -> {"none", "nosalt", "rounds0", "short", "trail", "badlen"}
    [] f = "nkeys" -> {"0", "2", "max"}
    [] f = "outer" -> {"empty", "long", "rsa"}
    [] f = "sect" -> {"empty", "len1", "len8", "odd", "check", "long"}
    [] f = "ktype" -> {"rsa", "empty", "cert"}
    [] f = "inner" -> {"empty", "short", "other"}
    [] f = "privlen" -> {"0", "31", "32", "63", "65", "huge"}
    [] f = "pad" -> {"bad", "none", "all"}
    [] f = "strlen" -> {"max", "cut", "sign"}
    [] f = "ver" -> {"0", "2", "4", "255"}
    [] f = "vlen" -> {"0", "31", "less", "more", "limit", "over", "max"}
    [] f = "sum" -> {"bad", "cut"}
    [] f = "chunk" -> {"0", "1", "max", "over", "u32", "u64", "dup"}
    [] k = "hdr" /\ f \in {"salt", "pk", "sender"} -> {"missing", "short", "long", "dup", "wire", "zero", "huge"}
    [] f = "keys" -> {"none", "empty", "twice", "many", "wire"}
    [] f = "dkey" -> {"missing", "len32", "len33", "short", "long", "huge", "zero"}
    [] f = "nonce" -> {"missing", "short", "long", "huge", "dup"}
    [] f = "proto" -> {"junk", "group", "overlong", "field0", "unknown", "cut", "deep", "trail"}
    [] f = "lw" -> {"cut", "zero", "chunk+1", "max", "eofmax", "sign"}
    [] f = "first" -> {"cut", "empty", "missing"}
    [] f = "last" -> {"cut", "empty", "missing", "noeof"}
    [] f = "tag" -> {"bad", "cut"}
    [] f = "trailer" -> {"cut", "missing", "bad"}
    [] f = "tail" -> {"junk", "again"}

-----------------------------------------------------------------------------
\* The readers.  need: reject these classes.  use: tolerates all but these.
Need(f, bad) == [op |-> "need", f |-> f, cl |-> bad]
Use(f, bad) == [op |-> "use", f |-> f, cl |-> bad]
Drop(seq, b) == IF b \in Bugs THEN <<>> ELSE seq

NotText == {"list", "map"}
B64Bad == {"notb64", "nopad", "binary", "multi"}
Empty == {"missing", "empty", "null"}
WrongLen == {"len1", "len11", "short", "long", "huge"}
WholeBad == {"blank", "nul", "scalar", "list", "deep", "bomb", "tabs", "utf16", "unterminated", "directive", "junk", "cut", "tag"}

Steps(k) ==
  CASE k = "priv" ->
         <<Need("cb", {"error", "huge"}), Need("whole", WholeBad), Need("comment", NotText), Need("esk", NotText), Need("salt", NotText), Need("algo", {"list"}),
           Need("Z", {"over", "string", "list", "float"}), Need("r", {"over", "string", "list", "float"}), Need("p", {"over", "string", "list", "float"}),
           Need("salt", Empty), Need("esk", Empty), Need("salt", B64Bad), Need("esk", B64Bad)>>
         \o Drop(<<Need("Z", {"missing", "null", "zero", "neg", "one", "big29", "big40"}), Need("r", {"missing", "null", "zero", "neg", "big29", "big31", "big40"}),
                   Need("p", {"missing", "null", "zero", "neg", "big29", "big31", "big40"})>>, "noParams")
         \o Drop(<<Need("salt", WrongLen)>>, "noSaltLen")
         \o <<Need("Z", {"nonpow2", "big31"}), Need("r", {"nonpow2"}), Need("p", {"nonpow2"}),
              Use("Z", {"big29", "big40"}), Use("r", {"zero", "missing", "null", "big29"}), Use("p", {"zero", "missing", "null", "big29", "big40"}), Use("salt", {"len1", "len11"}),
              Need("esk", WrongLen \cup {"int", "alias"}), Need("salt", {"int", "alias"})>>
    [] k = "pub" -> <<Need("whole", WholeBad), Need("comment", NotText), Need("pk", NotText), Need("hash", NotText), Need("pk", Empty), Need("pk", B64Bad)>>
         \o Drop(<<Need("pk", WrongLen \cup {"int", "alias"})>>, "noPkLen")
         \o <<Use("pk", WrongLen)>>
    [] k = "sig" -> <<Need("whole", WholeBad), Need("comment", NotText), Need("signature", NotText), Need("pkhash", NotText), Need("signature", B64Bad), Need("pkhash", B64Bad)>>
    [] k = "ssh" ->
         <<Need("pem", {"cut", "type", "legacy", "nob64", "empty"}), Need("magic", {"other", "cut"}), Need("strlen", {"max", "cut", "sign"}),
           Need("nkeys", {"0", "2", "max"}), Need("kdf", {"none", "other"}), Need("cipher", {"none", "other"})>>
         \o Drop(<<Need("cb", {"nil"})>>, "noCallback")
         \o <<Use("cb", {"nil"}), Need("cb", {"error", "huge"}), Need("salt", {"none", "nosalt", "rounds0", "short", "badlen", "trail"})>>
         \o Drop(<<Need("sect", {"odd", "len1", "len8", "empty"})>>, "noBlockLen")
         \o <<Use("sect", {"odd", "len1", "len8"}), Need("sect", {"check", "long"}), Need("ktype", {"rsa", "empty", "cert"})>>
         \o Drop(<<Need("privlen", {"0", "31", "32", "63", "65", "huge"})>>, "noPrivLen")
         \o <<Need("pad", {"bad", "all"}), Use("privlen", {"0", "31"})>>
    [] k = "hdr" ->
         <<Need("magic", {"other", "cut"}), Need("ver", {"0", "2", "4", "255"}), Need("vlen", {"0", "31", "over", "max", "less", "more", "limit"}),
           Need("sum", {"bad", "cut"}), Need("proto", {"junk", "group", "overlong", "field0", "cut"}), Need("salt", {"wire"}), Need("pk", {"wire"}), Need("sender", {"wire"}), Need("keys", {"wire"})>>
         \o Drop(<<Need("chunk", {"0", "over", "u32", "u64"})>>, "noChunk")
         \o <<Need("salt", {"missing", "short", "long", "huge"}), Need("keys", {"none", "empty"}), Need("dkey", {"missing", "len32", "short"}),
              Need("pk", {"missing", "short", "long", "zero", "huge"}), Need("dkey", {"len33", "long", "huge", "zero"}), Need("nonce", {"missing", "short", "long", "huge"}),
              Need("sender", {"missing", "short", "long", "zero", "huge"}), Use("chunk", {"0", "over", "u32"})>>
    [] k = "body" ->
         <<Need("first", {"missing"}), Need("lw", {"cut", "zero", "chunk+1", "max", "eofmax", "sign"}), Need("first", {"cut", "empty"}), Need("tag", {"bad", "cut"}),
           Need("last", {"cut", "missing", "noeof"}), Need("trailer", {"cut", "missing"})>>

Init == /\ kind \in Kinds /\ mal = <<>> /\ pos = 0 /\ res = ""
Malform == /\ pos = 0 /\ Len(mal) < MaxMal
           /\ \E f \in Fields(kind) : /\ \A i \in DOMAIN mal : mal[i][1] # f
                                      /\ \E c \in Classes(kind, f) : mal' = Append(mal, <<f, c>>)
           /\ UNCHANGED <<kind, pos, res>>
ClassOf(f) == IF \E i \in DOMAIN mal : mal[i][1] = f THEN mal[CHOOSE i \in DOMAIN mal : mal[i][1] = f][2] ELSE "ok"
Step == /\ res = "" /\ pos < Len(Steps(kind))
        /\ LET s == Steps(kind)[pos + 1] IN
           /\ pos' = pos + 1
           /\ res' = IF ClassOf(s.f) \in s.cl THEN (IF s.op = "need" THEN "err" ELSE "crash") ELSE ""
        /\ UNCHANGED <<kind, mal>>
Finish == /\ res = "" /\ pos = Len(Steps(kind)) /\ res' = "obj" /\ UNCHANGED <<kind, mal, pos>>
Next == Malform \/ Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Finish)

NoCrash == res # "crash"
\* every reading comes to an end, one way or the other
Ends == <>(res # "")
\* Classes for which the format does not say whether the reader takes or
\* refuses them (it only must not crash).  The outcome is compared for single
\* malformations; for combinations the replay looks for crashes alone.
Loose == {<<k, "whole", c>> : k \in {"priv", "pub", "sig"}, c \in {"blank", "scalar", "tag", "utf16", "twodocs", "merge", "cut", "dupall"}}
         \cup {<<k, f, "alias">> : k \in {"priv", "pub", "sig"}, f \in {"esk", "salt", "pk", "hash", "signature", "pkhash"}}
         \cup {<<k, "comment", "binary">> : k \in {"priv", "pub", "sig"}}
         \cup {<<"priv", f, c>> : f \in {"Z", "r", "p"}, c \in {"hex", "float", "dup"}}
         \cup {<<"ssh", f, c>> : f \in {"cb", "salt", "sect", "pad"}, c \in {"error", "nil", "huge", "short", "nosalt", "odd", "none", "rounds0", "badlen"}}
         \cup {<<"hdr", f, c>> : f \in {"chunk", "pk", "salt", "sender", "proto", "nonce", "dkey"}, c \in {"1", "dup", "group", "deep", "trail", "unknown", "zero"}}
         \cup {<<"hdr", f, c>> : f \in {"dkey", "nonce"}, c \in {"missing", "len32", "len33", "short", "long", "huge"}}  \* of either recipient
         \cup {<<"body", "tail", "again">>, <<"body", "trailer", "bad">>}
Told == IF Len(mal) > 1 \/ \E i \in DOMAIN mal : <<kind, mal[i][1], mal[i][2]>> \in Loose THEN "any" ELSE res
EmitInv == Emit /\ res # "" => PrintT("@C" \o ToJson([kind |-> kind, mal |-> mal, res |-> Told]))
=============================================================================
