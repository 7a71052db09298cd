------------------------------ MODULE DecLife ------------------------------
(***************************************************************************)
(* The design of the decryption context: SetPrivateKey, Decrypt,           *)
(* NewStreamReader and Read in any order, over one honest file whose       *)
(* source may end early or fail at a chosen component, into destinations   *)
(* that may fail.                                                          *)
(***************************************************************************)
EXTENDS DecMonitor, TLC, Json

\* Files: set of <<sizes of the blocks, signed>>; a block holds CSZ units, the
\* last one 0..CSZ.  SrcFaults: <<component, kind>> with component 0: no
\* fault, b: block b, 100: trailer; kind "cut" or "err".
CONSTANTS Files, SrcFaults, DstFaults, ReadLens, MaxReaders, MaxOps, Ops, Keys, Pre, Bugs, Emit

CSZ == 2
VARIABLES file, srcf, key, eof, strm, pos, hm, rd, hist, mon, viol
vars == <<file, srcf, key, eof, strm, pos, hm, rd, hist, mon, viol>>

\* constant definitions for the configurations
F(s, a) == [sz |-> s, signed |-> a]
FileAll == {F(s, a) : s \in {<<0>>, <<1>>, <<2>>, <<2, 0>>, <<2, 1>>, <<2, 2, 1>>}, a \in BOOLEAN}
FileSome == {F(<<0>>, TRUE), F(<<2, 1>>, TRUE), F(<<2, 0>>, FALSE)}
FileTwo == {F(<<2, 2, 1>>, TRUE), F(<<2, 1>>, FALSE)}
NoSrc == {<<0, "none">>}
AllSrc == {<<0, "none">>} \cup {<<b, k>> : b \in {1, 2, 3, 100}, k \in {"cut", "err"}}
FewSrc == {<<0, "none">>, <<1, "cut">>, <<2, "err">>, <<100, "cut">>}
KeyAll == {<<"right", "S">>, <<"right", "none">>, <<"right", "T">>, <<"wrong", "S">>, <<"wrong", "none">>}
KeyFit == {<<"right", "fit">>}

NewR == [open |-> FALSE, blk |-> 0, unread |-> 0, err |-> "none", out |-> 0, bad |-> FALSE]

NB == Len(file.sz)
Sum(a, b) == LET RECURSIVE S(_)
                 S(i) == IF i > b THEN 0 ELSE file.sz[i] + S(i + 1)
             IN S(a)
Total == Sum(1, NB)

Init == /\ file \in Files
        /\ srcf \in {x \in SrcFaults : x[1] \in {0, 100} \/ x[1] <= Len(file.sz)}
        /\ key = FALSE /\ eof = FALSE /\ strm = FALSE /\ pos = 0 /\ hm = 0
        /\ rd = [i \in 1..MaxReaders |-> NewR]
        /\ hist = <<>> /\ mon = MonInit(MaxReaders) /\ viol = {}

Ev(op, r, fit, ask, res, got, pre, all, none, fired, drained) ==
  [op |-> op, r |-> r, fit |-> fit, ask |-> ask, res |-> res, got |-> got, pre |-> pre, all |-> all,
   none |-> none, fired |-> fired, drained |-> drained]
Log(call, e) == /\ hist' = Append(hist, call)
                /\ viol' = viol \cup Judge(mon, e)
                /\ mon' = After(mon, e)
Call(op, r, n, who, want, f) == [op |-> op, r |-> r, n |-> n, who |-> who, want |-> want, f |-> f]

Drained(p) == p >= NB
SetKey(k) ==
  /\ "setkey" \in Ops
  /\ LET want == IF k[2] = "fit" THEN (IF file.signed THEN "S" ELSE "none") ELSE k[2]
         fit == k[1] = "right" /\ want = (IF file.signed THEN "S" ELSE "none")
         c == Call("setkey", 0, 0, k[1], want, "none")
     IN IF fit
        THEN key' = TRUE /\ hm' = 0 /\ Log(c, Ev("setkey", 0, TRUE, FALSE, "ok", 0, TRUE, FALSE, TRUE, FALSE, FALSE))
        ELSE key' = (key \/ ("keepKey" \in Bugs /\ k[1] = "right")) /\ hm' = hm
             /\ Log(c, Ev("setkey", 0, FALSE, FALSE, "err", 0, TRUE, FALSE, TRUE, FALSE, FALSE))
  /\ UNCHANGED <<file, srcf, eof, strm, pos, rd>>

\* Outcome of decrypting one block with block number blk at source position p
\* (blocks consumed so far) and h blocks in the running hash:
\* res "ok" | "err", fired, new position, new hash count
SrcHit(p) == srcf[1] = p + 1
TrlHit == srcf[1] = 100
Block(blk, p, h) ==
  IF p >= NB THEN [res |-> "err", fired |-> TrlHit, pos |-> p, hm |-> h, last |-> FALSE]
  ELSE IF SrcHit(p) THEN [res |-> IF "eofOnCut" \in Bugs /\ srcf[2] = "cut" THEN "end" ELSE "err",
                          fired |-> TRUE, pos |-> p, hm |-> h, last |-> FALSE]
  ELSE IF blk # p THEN [res |-> "err", fired |-> FALSE, pos |-> p + 1, hm |-> h, last |-> FALSE]
  ELSE IF p + 1 < NB THEN [res |-> "ok", fired |-> FALSE, pos |-> p + 1, hm |-> h + 1, last |-> FALSE]
  ELSE IF TrlHit THEN [res |-> "err", fired |-> TRUE, pos |-> p + 1, hm |-> h + 1, last |-> TRUE]
  ELSE IF file.signed /\ h + 1 # NB THEN [res |-> "err", fired |-> FALSE, pos |-> p + 1, hm |-> h + 1, last |-> TRUE]
  ELSE [res |-> "ok", fired |-> FALSE, pos |-> p + 1, hm |-> h + 1, last |-> TRUE]

\* the whole loop of Decrypt: o is what has been delivered so far
RECURSIVE Loop(_, _, _, _, _)
Loop(i, p, h, o, df) ==
  LET b == Block(i, p, h)
  IN IF b.res = "err" THEN [res |-> "err", fired |-> b.fired, pos |-> b.pos, hm |-> b.hm, out |-> o, eof |-> FALSE]
     ELSE IF b.res = "end" THEN [res |-> "ok", fired |-> b.fired, pos |-> b.pos, hm |-> b.hm, out |-> o, eof |-> TRUE]
     ELSE IF file.sz[i + 1] > 0 /\ ((df = "blk1" /\ i = 0) \/ (df = "blk2" /\ i >= 1))
     THEN [res |-> IF "hideFault" \in Bugs /\ b.last THEN "ok" ELSE "err", fired |-> TRUE, pos |-> b.pos, hm |-> b.hm, out |-> o, eof |-> FALSE]
     ELSE IF b.last THEN [res |-> "ok", fired |-> FALSE, pos |-> b.pos, hm |-> b.hm, out |-> o + file.sz[i + 1], eof |-> TRUE]
     ELSE Loop(i + 1, b.pos, b.hm, o + file.sz[i + 1], df)

Decrypt(df) ==
  /\ "decrypt" \in Ops
  /\ LET c == Call("decrypt", 0, 0, "", "", df) IN
     IF ~key \/ strm
     THEN Log(c, Ev("decrypt", 0, FALSE, FALSE, "err", 0, TRUE, FALSE, TRUE, FALSE, Drained(pos))) /\ UNCHANGED <<eof, pos, hm>>
     ELSE IF ~mon.keyed   \* a half set key: no cipher
     THEN Log(c, Ev("decrypt", 0, FALSE, FALSE, "panic", 0, TRUE, FALSE, TRUE, FALSE, Drained(pos))) /\ UNCHANGED <<eof, pos, hm>>
     ELSE IF eof /\ "eofAgain" \notin Bugs
     THEN Log(c, Ev("decrypt", 0, FALSE, FALSE, "eof", 0, TRUE, FALSE, TRUE, FALSE, Drained(pos))) /\ UNCHANGED <<eof, pos, hm>>
     ELSE IF eof
     THEN Log(c, Ev("decrypt", 0, FALSE, FALSE, "ok", 0, TRUE, Total = 0, TRUE, FALSE, Drained(pos))) /\ UNCHANGED <<eof, pos, hm>>
     ELSE LET l == Loop(0, pos, hm, 0, df)
          IN /\ eof' = l.eof /\ pos' = l.pos /\ hm' = l.hm
             /\ Log(c, Ev("decrypt", 0, FALSE, FALSE, l.res, IF l.out > 0 THEN 1 ELSE 0, TRUE, l.out = Total, l.out = 0, l.fired, Drained(l.pos)))
  /\ UNCHANGED <<file, srcf, key, strm, rd>>

NewReader ==
  /\ "newreader" \in Ops
  /\ \E i \in 1..MaxReaders :
     /\ ~rd[i].open /\ \A j \in 1..(i-1) : rd[j].open
     /\ LET c == Call("newreader", i, 0, "", "", "none")
            ev(res) == Ev("newreader", i, FALSE, FALSE, res, 0, TRUE, FALSE, TRUE, FALSE, FALSE) IN
        IF ~key THEN Log(c, ev("err")) /\ UNCHANGED <<strm, rd>>
        ELSE IF eof THEN Log(c, ev("eof")) /\ UNCHANGED <<strm, rd>>
        ELSE /\ Log(c, ev("ok")) /\ strm' = TRUE
             /\ rd' = [rd EXCEPT ![i] = [NewR EXCEPT !.open = TRUE]]
  /\ UNCHANGED <<file, srcf, key, eof, pos, hm>>

Min(a, b) == IF a < b THEN a ELSE b
Read(i, n) ==
  /\ "read" \in Ops /\ rd[i].open
  /\ LET x == rd[i]
         c == Call("read", i, n, "", "", "none")
         ev(res, k, fired, p) == Ev("read", i, FALSE, n > 0, res, IF k > 0 THEN 1 ELSE 0, ~(x.bad /\ k > 0), ~x.bad /\ x.out + k = Total, x.out + k = 0, fired, Drained(p))
     IN IF x.err # "none" THEN Log(c, ev(x.err, 0, FALSE, pos)) /\ UNCHANGED <<eof, pos, hm, rd>>
        ELSE IF x.unread > 0
        THEN LET k == Min(n, x.unread) IN
             /\ rd' = [rd EXCEPT ![i].unread = @ - k, ![i].out = @ + k]
             /\ Log(c, ev("ok", k, FALSE, pos)) /\ UNCHANGED <<eof, pos, hm>>
        ELSE IF eof
        THEN rd' = [rd EXCEPT ![i].err = "eof"] /\ Log(c, ev("eof", 0, FALSE, pos)) /\ UNCHANGED <<eof, pos, hm>>
        ELSE LET b == Block(x.blk, pos, hm) IN
             /\ pos' = b.pos /\ hm' = b.hm
             /\ IF b.res = "err"
                THEN \* with a shared block buffer, what others have not returned yet is lost
                     rd' = [j \in 1..MaxReaders |-> IF j = i THEN [rd[j] EXCEPT !.err = "err"]
                              ELSE [rd[j] EXCEPT !.bad = @ \/ ("sharedBuf" \in Bugs /\ rd[j].unread > 0)]]
                     /\ Log(c, ev("err", 0, b.fired, b.pos)) /\ UNCHANGED eof
                ELSE IF b.res = "end"
                THEN rd' = [rd EXCEPT ![i].err = "eof"] /\ Log(c, ev("eof", 0, b.fired, b.pos)) /\ eof' = TRUE
                ELSE LET z == file.sz[x.blk + 1]
                         k == Min(n, z)
                     IN /\ eof' = b.last
                        /\ IF z = 0
                           THEN rd' = [rd EXCEPT ![i].err = "eof", ![i].blk = @ + 1] /\ Log(c, ev("eof", 0, b.fired, b.pos))
                           ELSE /\ rd' = [rd EXCEPT ![i].unread = z - k, ![i].out = @ + k, ![i].blk = @ + 1]
                                /\ Log(c, ev("ok", k, b.fired, b.pos))
  /\ UNCHANGED <<file, srcf, key, strm>>

Next == /\ Len(hist) < MaxOps
        /\ \/ \E k \in Keys : SetKey(k)
           \* with Pre, histories start by setting the right key
           \/ /\ ~(Pre /\ hist = <<>>)
              /\ \/ \E f \in DstFaults : Decrypt(f)
                 \/ NewReader
                 \/ \E i \in 1..MaxReaders, n \in ReadLens : Read(i, n)
Spec == Init /\ [][Next]_vars

NoViolation == viol = {}
Done == Len(hist) = MaxOps
EmitInv == Emit /\ Done => PrintT("@C" \o ToJson([sz |-> file.sz, signed |-> file.signed, comp |-> srcf[1], kind |-> srcf[2], ops |-> hist]))
=============================================================================
