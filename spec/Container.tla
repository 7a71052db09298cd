----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* The sigtool v3 encrypted file, its decryptor and its adversaries.       *)
(*                                                                         *)
(* Cryptography is symbolic: a sealed box is a record naming everything    *)
(* its key, nonce and additional data depend on, and opening succeeds only *)
(* when all of it matches.  Two honest files A and B are made (B is only   *)
(* there to splice from), then the adversary edits A, then some private    *)
(* key opens the result, block by block, like the implementation does.     *)
(*                                                                         *)
(* "Outsider" edits need no secret.  "Insider" edits need a recipient's    *)
(* key: the insider knows the file key of A and B and so can seal blocks   *)
(* and rewrite the header, but cannot sign as the sender.                  *)
(*                                                                         *)
(* Every finished behaviour is printed (Emit) and replayed against the     *)
(* real library by the harness.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Shapes,     \* <<number of full non-final blocks, length of last>>
          KeyLists,   \* sequences of recipients of A
          SignA,      \* who may have authenticated A: subset of {"none","S"}
          SignB,      \* the same for B
          EditKinds,  \* names of the enabled adversary actions
          MaxEdits,
          Rxs, Wants, \* private keys and demanded senders used for opening
          Bugs,       \* deliberately broken decryptors (non-vacuity runs)
          Emit

CSZ == 2              \* block size in units

VARIABLES
  base,    \* the configuration of A (and who signed B)
  file,    \* the file as the adversary left it
  hist,    \* edits so far
  insider, \* an insider edit was used
  pc, rx, want,
  root, dk, auth, idx, log, out, res

vars == <<base, file, hist, insider, pc, rx, want, root, dk, auth, idx, log, out, res>>

-----------------------------------------------------------------------------
(* Construction *)

NoSig == [by |-> "none", salt |-> "-", epk |-> "-", root |-> "-"]
HSig(by, f) == IF by = "none" THEN NoSig
               ELSE [by |-> by, salt |-> f, epk |-> f, root |-> f]

\* id stands for the random nonce: two entries for one key differ
Wrap(f, to, id) == [root |-> f, salt |-> f, epk |-> f, to |-> to, id |-> id]
BadWrap         == [root |-> "bad", salt |-> "bad", epk |-> "bad", to |-> "bad", id |-> 0]

Hdr(f, keys, by) ==
  [ok |-> TRUE,               \* magic, version, length and checksum fine
   csz |-> CSZ, salt |-> f, epk |-> f, xtra |-> 0,
   sender |-> [root |-> f, salt |-> f, sig |-> HSig(by, f), len |-> 64],
   keys |-> [i \in 1..Len(keys) |-> Wrap(f, keys[i], i)]]

\* the data key: the header (through its checksum) is mixed in
DK(r, h) == IF "hdrNotMixed" \in Bugs THEN <<r>> ELSE <<r, h>>

Src(f, i, n) == IF n = 0 THEN <<>> ELSE <<f, i, n>>

Box(k, i, n, eof, src) == [k |-> "box", dk |-> k, i |-> i, n |-> n, eof |-> eof, src |-> src]
BadBox(n) == [k |-> "bad", dk |-> <<>>, i |-> 0, n |-> n, eof |-> FALSE, src |-> <<>>]

Chunk(k, i, n, eof, src) == [n |-> n, eof |-> eof, box |-> Box(k, i, n, eof, src)]

ShLen(sh, i) == IF i < sh[1] THEN CSZ ELSE sh[2]
Chunks(f, k, sh) ==
  [j \in 1..(sh[1]+1) |-> Chunk(k, j-1, ShLen(sh, j-1), j = sh[1]+1, Src(f, j-1, ShLen(sh, j-1)))]

LogOf(cs) == [j \in 1..Len(cs) |-> <<cs[j].n, cs[j].eof, cs[j].box.src>>]

RndTrl == [by |-> "rnd", dk |-> <<>>, log |-> <<>>]
Trl(by, k, cs) == IF by = "none" THEN RndTrl ELSE [by |-> by, dk |-> k, log |-> LogOf(cs)]

NoCut == [k |-> "none", i |-> 0]

Honest(f, keys, by, sh) ==
  LET h == Hdr(f, keys, by)
      c == Chunks(f, DK(f, h), sh)
  IN [hdr |-> h, chunks |-> c, trl |-> Trl(by, DK(f, h), c), cut |-> NoCut, junk |-> 0]

ShapeB == <<1, 1>>
KeysB  == <<"r1", "r2">>
FileA == Honest("A", base.keys, base.sig, base.sh)
FileB == Honest("B", KeysB, base.sigB, ShapeB)

SelectNE(s) == SelectSeq(s, LAMBDA x: x # <<>>)
PlainOf(cs) == SelectNE([j \in 1..Len(cs) |-> cs[j].box.src])
Orig(f) == IF f = "A" THEN PlainOf(FileA.chunks)
           ELSE IF f = "B" THEN PlainOf(FileB.chunks) ELSE <<>>
SignerOf(f) == IF f = "A" THEN base.sig ELSE IF f = "B" THEN base.sigB ELSE "E"
KeysOf(f) == IF f = "A" THEN base.keys ELSE IF f = "B" THEN KeysB ELSE <<"r1">>
Range(s) == {s[i] : i \in DOMAIN s}

-----------------------------------------------------------------------------
(* Adversary *)

E(op, f, a, b) == [op |-> op, f |-> f, a |-> a, b |-> b]

RemoveAt(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
InsAt(s, i, x) == SubSeq(s, 1, i-1) \o <<x>> \o SubSeq(s, i, Len(s))
SwapAt(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]

WithHdr(F, h) == [F EXCEPT !.hdr = h]
WithChunks(F, c) == [F EXCEPT !.chunks = c]

HdrFields == {"csz+", "csz-", "salt", "pk", "sender", "xtra", "magic", "ver", "vlen"}

FlipHdr(F, f, fix) ==
  LET h == F.hdr
      g == CASE f = "csz+"   -> [h EXCEPT !.csz = h.csz + 1]
             [] f = "csz-"   -> [h EXCEPT !.csz = IF h.csz = 0 THEN 0 ELSE h.csz - 1]
             [] f = "salt"   -> [h EXCEPT !.salt = "bad"]
             [] f = "pk"     -> [h EXCEPT !.epk = "bad"]
             [] f = "sender" -> [h EXCEPT !.sender.root = "bad"]
             [] f = "xtra"   -> [h EXCEPT !.xtra = h.xtra + 1]
             [] OTHER        -> [h EXCEPT !.ok = FALSE]
  IN WithHdr(F, IF fix = 1 THEN g ELSE [g EXCEPT !.ok = FALSE])

\* the set of <<edit, resulting file>> open to someone without any key
Outsider(F) ==
  LET h == F.hdr
      c == F.chunks
      nk == Len(h.keys)
      nc == Len(c)
      B == FileB
      K(s) == s \cap EditKinds # {}
      one(k, S) == IF k \in EditKinds THEN S ELSE {}
  IN UNION {
    one("FlipHdr", {<<E("FlipHdr", f, 0, b), FlipHdr(F, f, b)>> : f \in HdrFields, b \in {0, 1}}),
    one("KeyCorrupt", {<<E("KeyCorrupt", p, i, 0), WithHdr(F, [h EXCEPT !.keys[i] = BadWrap])>> : i \in 1..nk, p \in {"dkey", "nonce"}}),
    one("DropKey", {<<E("DropKey", "", i, 0), WithHdr(F, [h EXCEPT !.keys = RemoveAt(h.keys, i)])>> : i \in 1..nk}),
    one("SwapKey", {<<E("SwapKey", "", i, i+1), WithHdr(F, [h EXCEPT !.keys = SwapAt(h.keys, i, i+1)])>> : i \in 1..(IF nk = 0 THEN 0 ELSE nk-1)}),
    one("DupKey", {<<E("DupKey", "", i, 0), WithHdr(F, [h EXCEPT !.keys = Append(h.keys, h.keys[i])])>> : i \in 1..nk}),
    one("KeyFromB", {<<E("KeyFromB", "", i, 0), WithHdr(F, [h EXCEPT !.keys = InsAt(h.keys, i, B.hdr.keys[1])])>> : i \in 1..(nk+1)}),
    one("HdrFromB", {<<E("HdrFromB", "", 0, 0), WithHdr(F, B.hdr)>>}),
    one("SenderFromB", {<<E("SenderFromB", "", 0, 0), WithHdr(F, [h EXCEPT !.sender = B.hdr.sender])>>}),
    one("PartFromB", {<<E("PartFromB", "salt", 0, 0), WithHdr(F, [h EXCEPT !.salt = "B"])>>,
                      <<E("PartFromB", "pk", 0, 0), WithHdr(F, [h EXCEPT !.epk = "B"])>>,
                      <<E("PartFromB", "keys", 0, 0), WithHdr(F, [h EXCEPT !.keys = B.hdr.keys])>>,
                      <<E("PartFromB", "allbutkeys", 0, 0), WithHdr(F, [B.hdr EXCEPT !.keys = h.keys])>>}),
    one("DropChunk", {<<E("DropChunk", "", i, 0), WithChunks(F, RemoveAt(c, i))>> : i \in 1..nc}),
    one("DupChunk", {<<E("DupChunk", "", i, 0), WithChunks(F, InsAt(c, i, c[i]))>> : i \in 1..nc}),
    one("SwapChunk", {<<E("SwapChunk", "", ij[1], ij[2]), WithChunks(F, SwapAt(c, ij[1], ij[2]))>> :
                        ij \in {x \in (1..nc) \X (1..nc) : x[1] < x[2]}}),
    one("SetLen", {<<E("SetLen", "", i, n), WithChunks(F, [c EXCEPT ![i].n = n])>> : i \in 1..nc, n \in {x \in 0..(CSZ+1) : \E j \in 1..nc : TRUE}}),
    one("FlipEof", {<<E("FlipEof", "", i, 0), WithChunks(F, [c EXCEPT ![i].eof = ~c[i].eof])>> : i \in 1..nc}),
    one("MkEof", {<<E("MkEof", "", i, 0), WithChunks(F, SubSeq([c EXCEPT ![i].eof = TRUE], 1, i))>> : i \in 1..nc}),
    one("FlipBox", {<<E("FlipBox", p, i, 0), WithChunks(F, [c EXCEPT ![i].box = BadBox(c[i].box.n)])>> : i \in 1..nc, p \in {"body", "tag"}}),
    one("SpliceB", {<<E("SpliceB", "", i, j), WithChunks(F, [c EXCEPT ![i] = B.chunks[j]])>> : i \in 1..nc, j \in 1..2}),
    one("InsB", {<<E("InsB", "", i, j), WithChunks(F, InsAt(c, i, B.chunks[j]))>> : i \in 1..(nc+1), j \in 1..2}),
    one("RawEof", {<<E("RawEof", p, i, b), WithChunks(F,
                      LET x == [n |-> 0, eof |-> TRUE, box |-> BadBox(0)]
                      IN IF b = 1 THEN Append(SubSeq(c, 1, i-1), x) ELSE InsAt(c, i, x))>> :
                      i \in 1..(nc+1), b \in {0, 1}, p \in {"bare", "tag"}}),
    one("Cut", {<<E("Cut", "hdr", 0, 0), [F EXCEPT !.cut = [k |-> "hdr", i |-> 0]]>>}
               \cup {<<E("Cut", k, i, 0), [F EXCEPT !.cut = [k |-> k, i |-> i]]>> : i \in 1..nc, k \in {"len0", "len", "body"}}
               \cup {<<E("Cut", k, 0, 0), [F EXCEPT !.cut = [k |-> k, i |-> 0]]>> : k \in {"trl0", "trl"}}),
    one("Trl", {<<E("Trl", p, 0, 0), [F EXCEPT !.trl = IF p = "B" THEN B.trl ELSE [F.trl EXCEPT !.by = "bad"]]>> : p \in {"flip", "zero", "B"}}),
    one("Junk", IF F.junk = 0 THEN {<<E("Junk", "", 0, 0), [F EXCEPT !.junk = 1]>>} ELSE {})
  }

\* Re-seal every block of F that the insider can open, under header g
RootOf(h) == h.salt
Reseal(F, g) ==
  LET r == RootOf(g)
      c == F.chunks
  IN [F EXCEPT !.hdr = g,
        !.chunks = [j \in 1..Len(c) |-> Chunk(DK(r, g), j-1, c[j].n, c[j].eof, c[j].box.src)]]

\* block i replaced by one sealed by the insider
Put(F, i, n, eof, src) ==
  [F EXCEPT !.chunks[i] = Chunk(DK(RootOf(F.hdr), F.hdr), i-1, n, eof, src)]

Evil(i, n) == Src("E", i-1, n)

InsiderOK(F) == RootOf(F.hdr) \in {"A", "B"} /\ F.hdr.ok
                /\ \A j \in 1..Len(F.chunks) : F.chunks[j].box.k = "box" /\ F.chunks[j].n = F.chunks[j].box.n

InsiderEdits(F) ==
  LET h == F.hdr
      c == F.chunks
      nc == Len(c)
      r == RootOf(h)
      last == IF nc = 0 THEN 0 ELSE nc
      one(k, S) == IF k \in EditKinds THEN S ELSE {}
      nosender == [root |-> r, salt |-> r, sig |-> NoSig, len |-> 64]
  IN IF ~InsiderOK(F) \/ nc = 0 THEN {} ELSE UNION {
    one("Reseal", {<<E("Reseal", "", i, 0), Put(F, i, c[i].n, c[i].eof, Evil(i, c[i].n))>> : i \in 1..nc}),
    one("ResealAll", {<<E("ResealAll", "", 0, 0),
            [F EXCEPT !.chunks = [j \in 1..nc |-> Chunk(DK(r, h), j-1, c[j].n, c[j].eof, Evil(j, c[j].n))]]>>}),
    one("ResealLen", {<<E("ResealLen", "", i, n), Put(F, i, n, c[i].eof, Evil(i, n))>> : i \in 1..nc, n \in 0..(CSZ+1)}),
    one("SealAppend", {<<E("SealAppend", "", nc, n),
            [F EXCEPT !.chunks = Append([c EXCEPT ![nc] = Chunk(DK(r, h), nc-1, c[nc].n, FALSE, c[nc].box.src)],
                                        Chunk(DK(r, h), nc, n, TRUE, Evil(nc+1, n)))]>> : n \in 0..CSZ}),
    one("SealTrunc", {<<E("SealTrunc", "", i, 0),
            [F EXCEPT !.chunks = Append(SubSeq(c, 1, i-1), Chunk(DK(r, h), i-1, c[i].n, TRUE, c[i].box.src))]>> : i \in 1..nc}),
    one("SealEmpty", {<<E("SealEmpty", "", i, 0),
            [F EXCEPT !.chunks = Append(SubSeq(c, 1, i-1), Chunk(DK(r, h), i-1, 0, TRUE, <<>>))]>> : i \in 1..nc}),
    one("Rehdr", {<<E("Rehdr", "drop", 0, 0), Reseal(F, [h EXCEPT !.keys = SubSeq(h.keys, 1, 1)])>>,
                  <<E("Rehdr", "csz", 0, 0), Reseal(F, [h EXCEPT !.csz = h.csz + 1])>>,
                  <<E("Rehdr", "xtra", 0, 0), Reseal(F, [h EXCEPT !.xtra = h.xtra + 1])>>,
                  <<E("Rehdr", "strip", 0, 0), Reseal(F, [h EXCEPT !.sender = nosender])>>,
                  <<E("Rehdr", "ownsig", 0, 0), Reseal(F, [h EXCEPT !.sender.sig = HSig("E", r)])>>,
                  <<E("Rehdr", "junksig", 0, 0), Reseal(F, [h EXCEPT !.sender.sig = HSig("bad", r)])>>,
                  <<E("Rehdr", "partzero", 0, 0), Reseal(F, [h EXCEPT !.sender.sig = HSig("bad", r)])>>,
                  <<E("Rehdr", "sigB", 0, 0), Reseal(F, [h EXCEPT !.sender = [root |-> r, salt |-> r, sig |-> FileB.hdr.sender.sig, len |-> 64]])>>,
                  <<E("Rehdr", "shortsig", 0, 0), Reseal(F, [h EXCEPT !.sender.len = 63])>>,
                  <<E("Rehdr", "shortzero", 0, 0), Reseal(F, [h EXCEPT !.sender = [nosender EXCEPT !.len = 0]])>>,
                  <<E("Rehdr", "nosender", 0, 0), Reseal(F, [h EXCEPT !.sender.root = "bad"])>>}),
    one("TrlOwn", {<<E("TrlOwn", "", 0, 0), [F EXCEPT !.trl = [by |-> "E", dk |-> DK(r, h), log |-> LogOf(c)]]>>}),
    one("TrlHdr", {<<E("TrlHdr", "", 0, 0), [F EXCEPT !.trl = [by |-> "hdrsig", dk |-> <<>>, log |-> <<>>]]>>})
  }

\* a file made from scratch by the adversary, to r1, possibly claiming S
Forged(kind) ==
  LET sig == CASE kind = "none" -> NoSig
               [] kind = "own"  -> HSig("E", "E")
               [] OTHER         -> FileA.hdr.sender.sig
      h == [Hdr("E", <<"r1">>, "none") EXCEPT !.sender.sig = sig]
      c == Chunks("E", DK("E", h), base.sh)
  IN [hdr |-> h, chunks |-> c, trl |-> Trl("E", DK("E", h), c), cut |-> NoCut, junk |-> 0]
Forgeries == IF "Forge" \in EditKinds
             THEN {<<E("Forge", k, 0, 0), Forged(k)>> : k \in {"none", "own", "copy"}} ELSE {}

-----------------------------------------------------------------------------
Init ==
  /\ base \in [sh : Shapes, keys : KeyLists, sig : SignA, sigB : SignB]
  /\ file = Honest("A", base.keys, base.sig, base.sh)
  /\ hist = <<>> /\ insider = FALSE
  /\ pc = "edit" /\ rx = "-" /\ want = "-"
  /\ root = "-" /\ dk = <<>> /\ auth = FALSE /\ idx = 0
  /\ log = <<>> /\ out = <<>> /\ res = "-"

dvars == <<rx, want, root, dk, auth, idx, log, out, res>>

EditOut ==
  /\ pc = "edit" /\ Len(hist) < MaxEdits
  /\ file.cut = NoCut
  /\ \E e \in Outsider(file) :
       /\ e[2] # file
       /\ file' = e[2] /\ hist' = Append(hist, e[1])
  /\ UNCHANGED <<base, insider, pc, dvars>>

EditIn ==
  /\ pc = "edit" /\ Len(hist) < MaxEdits
  /\ file.cut = NoCut
  /\ \E e \in InsiderEdits(file) \cup (IF hist = <<>> THEN Forgeries ELSE {}) :
       /\ e[2] # file
       /\ file' = e[2] /\ hist' = Append(hist, e[1])
  /\ insider' = TRUE
  /\ UNCHANGED <<base, pc, dvars>>

\* --- the decryptor ---

Unwrappable(h, who) ==
  {i \in 1..Len(h.keys) : (h.keys[i].to = who \/ "wrapUnbound" \in Bugs)
                            /\ h.keys[i].salt = h.salt /\ h.keys[i].epk = h.epk}

HdrReadable(F) ==
  /\ F.hdr.ok /\ F.cut.k # "hdr"
  /\ F.hdr.csz > 0 /\ Len(F.hdr.keys) > 0

SenderFieldOpens(h, r) == h.sender.root = r /\ h.sender.salt = h.salt

HSigValid(h, r, w) ==
  LET s == h.sender.sig IN s.by = w /\ s.salt = h.salt /\ s.epk = h.epk /\ s.root = r /\ h.sender.len = 64

Fail == /\ pc' = "done" /\ res' = "err"

Open(who, w) ==
  /\ pc = "edit"
  /\ rx' = who /\ want' = w
  /\ UNCHANGED <<base, file, hist, insider, idx, log, out>>
  /\ LET h == file.hdr
         u == Unwrappable(h, who)
     IN IF ~HdrReadable(file) \/ u = {}
        THEN Fail /\ UNCHANGED <<root, dk, auth>>
        ELSE LET i == CHOOSE x \in u : \A y \in u : x <= y
                 r == h.keys[i].root
                 signed == h.sender.sig.by # "none" \/ h.sender.len # 64
                 good == /\ SenderFieldOpens(h, r)
                         /\ IF signed THEN w # "none" /\ HSigValid(h, r, w)
                            ELSE w = "none" \/ "unsignedOk" \in Bugs
             IN IF ~good /\ "senderUnchecked" \notin Bugs
                THEN Fail /\ UNCHANGED <<root, dk, auth>>
                ELSE /\ root' = r /\ dk' = DK(r, h) /\ auth' = signed
                     /\ pc' = "chunk" /\ res' = res

Opens(k, i, c) ==
  /\ c.box.k = "box" /\ c.box.dk = k
  /\ (c.box.i = i \/ "noIdx" \in Bugs)
  /\ c.box.n = c.n
  /\ (c.box.eof = c.eof \/ "noAD" \in Bugs)

ReadChunk ==
  /\ pc = "chunk"
  /\ UNCHANGED <<base, file, hist, insider, rx, want, root, dk, auth>>
  /\ LET j == idx + 1
         cutHere == file.cut.k \in {"len0", "len", "body"} /\ file.cut.i = j
     IN IF j > Len(file.chunks) \/ cutHere
        THEN Fail /\ UNCHANGED <<idx, log, out>>
        ELSE LET c == file.chunks[j]
                 skip == "emptyEof" \in Bugs /\ c.n = 0 /\ c.eof
                 odd == "lastEmptyFails" \in Bugs /\ c.n = 0
             IN IF odd \/ (~skip /\ (c.n > file.hdr.csz \/ (c.n = 0 /\ ~c.eof) \/ ~Opens(dk, idx, c)))
                THEN Fail /\ UNCHANGED <<idx, log, out>>
                ELSE /\ log' = Append(log, <<c.n, c.eof, c.box.src>>)
                     /\ idx' = idx + 1
                     /\ IF c.eof
                        THEN pc' = "trailer" /\ out' = out
                        ELSE pc' = "chunk" /\ out' = (IF c.n = 0 THEN out ELSE Append(out, c.box.src))
                     /\ res' = res

\* the last block is delivered only after the trailer was checked
ReadTrailer ==
  /\ pc = "trailer"
  /\ pc' = "done"
  /\ UNCHANGED <<base, file, hist, insider, rx, want, root, dk, auth, idx, log>>
  /\ LET last == log[Len(log)]
         t == file.trl
         follows == idx = Len(file.chunks)     \* otherwise other bytes stand where the trailer should
         good == \/ ~auth
                 \/ "trailerUnchecked" \in Bugs
                 \/ follows /\ t.by = want /\ t.dk = dk /\ t.log = log
     IN IF (file.cut.k \in {"trl0", "trl"} /\ follows) \/ ~good
        THEN res' = "err" /\ out' = out
        ELSE IF ~follows /\ file.cut.k # "none"     \* depends on how many bytes are left
        THEN res' = "any" /\ out' = out
        ELSE res' = "ok" /\ out' = (IF last[3] = <<>> THEN out ELSE Append(out, last[3]))

OpenSome == \E who \in Rxs, w \in Wants : Open(who, w)

Next == EditOut \/ EditIn \/ OpenSome \/ ReadChunk \/ ReadTrailer
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the properties demand of the finished attempt *)

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

Origin == file.hdr.salt           \* which encryption the header belongs to
Pristine == file = FileA \/ file = FileB
WhichFile == IF file = FileB THEN "B" ELSE "A"

\* "ok":   must succeed with exactly the original plaintext
\* "none": must fail and release nothing
\* "exact": may fail; success only with exactly the original plaintext
\* "free": no demand (the insider may do as it likes)
Must(who, w) ==
  LET o == IF Origin \in {"A", "B", "E"} THEN Origin ELSE "A"
      by == SignerOf(o)
      named == who \in Range(KeysOf(o))
      fits == (by = "none" /\ w = "none") \/ (by # "none" /\ w = by)
  IN IF who = "x" THEN "none"
     ELSE IF Pristine
     THEN LET p == WhichFile
              sg == SignerOf(p)
          IN IF who \in Range(KeysOf(p)) /\ ((sg = "none" /\ w = "none") \/ (sg # "none" /\ w = sg)) THEN "ok" ELSE "none"
     ELSE IF insider
     THEN IF w = "none" THEN "free" ELSE IF o # "E" /\ by = w THEN "exact" ELSE "fail"
     ELSE IF ~named THEN "none"
     ELSE IF ~fits THEN "none" ELSE "exact"

PlainFor == LET o == IF Pristine THEN WhichFile ELSE Origin IN Orig(IF o \in {"A", "B"} THEN o ELSE "A")

Done == pc = "done"
RoundTrip == Done /\ Must(rx, want) = "ok" => res = "ok" /\ out = PlainFor
NoAccess  == Done /\ Must(rx, want) = "none" => res = "err" /\ out = <<>>
SenderAuth == Done /\ Must(rx, want) = "fail" => res = "err"
Integrity == Done /\ res = "ok" /\ Must(rx, want) = "exact" => out = PlainFor
Prefix    == ~insider /\ pc # "edit" => IsPrefix(out, PlainFor)

-----------------------------------------------------------------------------
Case == [sh |-> base.sh, keys |-> base.keys, sig |-> base.sig, sigB |-> base.sigB,
         edits |-> hist, rx |-> rx, want |-> want, ins |-> insider,
         must |-> Must(rx, want), res |-> res,
         orig |-> (IF Pristine THEN WhichFile ELSE Origin),
         out |-> [j \in 1..Len(out) |-> out[j][3]]]
EmitInv == Emit /\ Done => PrintT("@C" \o ToJson(Case))

-----------------------------------------------------------------------------
(* model parameters *)
ShFile == {<<0,0>>, <<0,1>>, <<1,0>>, <<1,1>>, <<2,0>>, <<2,1>>}
ShAll  == ShFile \cup {<<0,2>>, <<1,2>>, <<2,2>>}
ShDeep == ShAll \cup {<<3,0>>, <<3,1>>, <<3,2>>, <<4,1>>}
ShTwo  == {<<1,0>>, <<2,1>>}
ShTwoB == {<<0,1>>, <<2,0>>, <<1,2>>}
ShFew  == {<<0,0>>, <<1,0>>, <<1,1>>, <<2,2>>}
K1 == {<<"r1">>}
K2 == {<<"r1","r2">>}
K12 == {<<"r1">>, <<"r1","r2">>, <<"r2","r1">>}
KAll == {<<"r1">>, <<"r2">>, <<"r1","r2">>, <<"r2","r1">>, <<"r1","r1">>, <<"r2","r1","r2">>}
OutKinds == {"FlipHdr","KeyCorrupt","DropKey","SwapKey","DupKey","KeyFromB","HdrFromB","SenderFromB","PartFromB",
             "DropChunk","DupChunk","SwapChunk","SetLen","FlipEof","MkEof","FlipBox","SpliceB","InsB","RawEof",
             "Cut","Trl","Junk"}
InKinds == {"Reseal","ResealAll","ResealLen","SealAppend","SealTrunc","SealEmpty","Rehdr","TrlOwn","TrlHdr","Forge"}
KeyKinds == {"KeyCorrupt","DropKey","SwapKey","DupKey","KeyFromB","PartFromB","HdrFromB"}
AllKinds == OutKinds \cup InKinds
SenderKinds == InKinds \cup {"HdrFromB","SenderFromB","PartFromB","Trl","MkEof","RawEof","DropChunk","SpliceB"}
=============================================================================
