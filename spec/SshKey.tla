------------------------------- MODULE SshKey ------------------------------
(***************************************************************************)
(* OpenSSH private key containers (C10).  A container is a record of       *)
(* fields; Dev deviates single fields from what OpenSSH writes.  The       *)
(* reader is modelled stage by stage; at the end its verdict must be that  *)
(* of Decl, which only looks at the container as a whole.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ciphers,    \* <<kdf, cipher>> pairs written by OpenSSH for this key
          Passes,     \* what the caller's callback does
          Comments, MaxDev, Bugs, Emit

VARIABLES pc, c, devs, pass, res
vars == <<pc, c, devs, pass, res>>

Ciph == {<<"none", "none">>, <<"bcrypt", "aes256-ctr">>, <<"bcrypt", "aes256-cbc">>}
ComAll == {"none", "word", "words", "uni", "long", "pad0"}
ComFew == {"word", "pad0"}
PassAll == {"right", "wrong", "empty", "nocb", "cberr", "prefix", "nl"}
PassFew == {"right", "wrong", "nocb"}

\* what ssh-keygen -a and other implementations write into the KDF options
OptsFine == {"salt1", "salt8", "salt17", "salt64", "rounds2", "rounds16", "rounds300"}
OptsOk == {"ok"} \cup OptsFine
\* deviations: field and value
Devs == { <<"pem", v>> : v \in {"type", "legacy", "cut", "nob64", "crlf"} }
   \cup { <<"magic", v>> : v \in {"version", "cut"} }
   \cup { <<"kdf", v>> : v \in {"none", "bcrypt", "scrypt", "empty"} }
   \cup { <<"cipher", v>> : v \in {"none", "aes256-ctr", "aes256-cbc", "aes128-ctr", "chacha20-poly1305@openssh.com", "empty"} }
   \cup { <<"opts", v>> : v \in {"empty", "nosalt", "rounds0", "short", "trail"} \cup OptsFine }
   \cup { <<"nkeys", v>> : v \in {"0", "2", "max"} }
   \cup { <<"check", v>> : v \in {"ne", "ne1"} }
   \cup { <<"ktype", v>> : v \in {"ssh-rsa", "ssh-ed25519-cert-v01@openssh.com", "empty", "sk-ssh-ed25519@openssh.com", "ssh-ed2551"} }
   \cup { <<"priv", v>> : v \in {"0", "32", "63", "65", "96"} }
   \cup { <<"pad", v>> : v \in {"first", "last", "zero", "shifted"} }
   \cup { <<"block", v>> : v \in {"cut1", "cutBs", "empty", "ext1"} }
   \cup { <<"all", v>> : v \in {"half", "hdr", "trail"} }

Good(ci, com) == [pem |-> "ok", magic |-> "ok", kdf |-> ci[1], cipher |-> ci[2], made |-> ci, opts |-> "ok", nkeys |-> "1", check |-> "eq",
                  ktype |-> "ssh-ed25519", priv |-> "64", pad |-> "ok", block |-> "ok", all |-> "ok", com |-> com]

Init == /\ pc = "dev" /\ \E ci \in Ciphers, com \in Comments : c = Good(ci, com)
        /\ devs = <<>> /\ pass \in Passes /\ res = ""

FieldNo(f) == CHOOSE i \in 1..12 : <<"pem", "magic", "kdf", "cipher", "opts", "nkeys", "check", "ktype", "priv", "pad", "block", "all">>[i] = f
\* with comment "pad0" the private section needs no padding
Applies(d) == /\ \A i \in DOMAIN devs : FieldNo(devs[i][1]) < FieldNo(d[1])
              /\ (d[1] \in {"kdf", "cipher"} => c[d[1]] # d[2])
              /\ (d[1] = "pad" => c.com # "pad0")
              /\ (d[1] = "opts" => c.made[1] = "bcrypt")
              /\ (d[2] = "rounds300" => c.com = "word" /\ pass = "right" /\ devs = <<>>)   \* takes seconds
              /\ c.opts # "rounds300"
Dev == /\ pc = "dev" /\ Len(devs) < MaxDev
       /\ \E d \in Devs : /\ Applies(d)
                          /\ c' = [c EXCEPT ![d[1]] = d[2]]
                          /\ devs' = Append(devs, d)
       /\ UNCHANGED <<pc, pass, res>>

-----------------------------------------------------------------------------
\* What must come out.

Enc == c.made[1] = "bcrypt"
Clean == c.pem \in {"ok", "crlf"} /\ c.magic = "ok" /\ <<c.kdf, c.cipher>> = c.made /\ c.opts \in OptsOk /\ c.nkeys = "1" /\ c.check = "eq"
         /\ c.ktype = "ssh-ed25519" /\ c.priv = "64" /\ c.pad = "ok" /\ c.block = "ok" /\ c.all = "ok"
\* ext1 on an unencrypted or ctr block adds one byte of garbage padding; on
\* cbc it breaks the block length.  Both are errors.
Decl == IF Clean THEN (IF Enc => pass = "right" THEN "key" ELSE "err")
        ELSE "err"
\* bytes after the end of the container: OpenSSH ignores or rejects them
Loose == c.all = "trail" \/ c.opts = "trail"

-----------------------------------------------------------------------------
\* What the reader does, stage by stage.

Go(next) == pc' = next /\ UNCHANGED res
Fail == pc' = "done" /\ res' = "err"
Stage(n, bad, next) == pc = n /\ (IF bad THEN Fail ELSE Go(next)) /\ UNCHANGED <<c, devs, pass>>

SPem    == Stage("dev", c.pem \in {"type", "legacy", "cut", "nob64"}, "magic")
SMagic  == Stage("magic", c.magic # "ok", "hdr")
SHdr    == Stage("hdr", c.all # "ok", "nkeys")
SNkeys  == Stage("nkeys", c.nkeys # "1" /\ "nkeys" \notin Bugs, "cipher")
SCipher == Stage("cipher", <<c.kdf, c.cipher>> \notin Ciph, IF c.kdf = "bcrypt" THEN "pass" ELSE "sect")
SPass   == Stage("pass", pass \in {"nocb", "cberr"}, "kdf")
SKdf    == Stage("kdf", c.opts \notin OptsOk \/ pass = "empty" \/ c.made[1] # "bcrypt", "len")
\* the sections come out as they were only if key and mode are right
SLen    == Stage("len", c.cipher = "aes256-cbc" /\ c.block \in {"cut1", "ext1"}, "sect")
Garbled == (c.kdf = "bcrypt" /\ (pass # "right" \/ <<c.kdf, c.cipher>> # c.made)) \/ (c.kdf = "none" /\ Enc)
SSect   == Stage("sect", c.block = "empty" \/ ((Garbled \/ c.check # "eq") /\ "check" \notin Bugs), "ktype")
SKtype  == Stage("ktype", c.ktype # "ssh-ed25519", "key")
\* cutting the block cuts the padding, and what is before it if that is not enough
SKey    == Stage("key", c.priv # "64", "pad")
SPad    == Stage("pad", c.pad # "ok" \/ c.block = "ext1" \/ c.block = "cutBs" \/ (c.block = "cut1" /\ c.com = "pad0"), "ok")
SOk     == pc = "ok" /\ pc' = "done" /\ res' = "key" /\ UNCHANGED <<c, devs, pass>>
Next == Dev \/ SPem \/ SMagic \/ SHdr \/ SNkeys \/ SCipher \/ SPass \/ SKdf \/ SLen \/ SSect \/ SKtype \/ SKey \/ SPad \/ SOk
Spec == Init /\ [][Next]_vars

Done == pc = "done"
\* cut1 takes one byte of padding; what is left is still 1, 2, 3, ...
Grey == Loose \/ (c.block = "cut1" /\ c.com # "pad0")
Right == Done /\ ~Grey => res = Decl
\* never a key without the passphrase
Locked == Done /\ res = "key" => (Enc => pass = "right")
EmitInv == Emit /\ Done => PrintT("@C" \o ToJson([made |-> c.made, com |-> c.com, devs |-> devs, pass |-> pass, want |-> IF Grey THEN "any" ELSE Decl]))
=============================================================================
