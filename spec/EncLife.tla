------------------------------ MODULE EncLife ------------------------------
(***************************************************************************)
(* The design of the encryption context: caller actions AddRecipient,      *)
(* Encrypt, NewStreamWriter, Write and Close in any order, sources and     *)
(* destinations that fail at a chosen point.  One action per public call;  *)
(* inside a call the components (header, blocks, trailer, close) go out in *)
(* order until the destination fails.                                      *)
(***************************************************************************)
EXTENDS EncMonitor, TLC, Json

CONSTANTS MaxOps, EncLens, WriteLens, MaxWriters, Faults, SrcFaults, Ops, Pre, Bugs, Emit

CSZ == 2

VARIABLES nk, started, stream, runs, ws, hist, mon, viol
vars == <<nk, started, stream, runs, ws, hist, mon, viol>>

\* ws[i]: open, buffered units, next block number, err, fed units, destination
NewW == [open |-> FALSE, buf |-> 0, blk |-> 0, err |-> FALSE, fed |-> 0, out |-> 0, fault |-> "none",
         hdr |-> FALSE, eof |-> FALSE, trl |-> FALSE, closes |-> 0, dfail |-> FALSE]

Init == /\ nk = 0 /\ started = FALSE /\ stream = FALSE /\ runs = 0
        /\ ws = [i \in 1..MaxWriters |-> NewW]
        /\ hist = <<>> /\ mon = MonInit(MaxWriters) /\ viol = {}

\* Key stream identity of block b of the context's data key.  There is one
\* key per header, and a second run writes the same header again.
KS(b) == b

\* sequence of component writes; a fault point names the component at which the
\* destination starts to fail: "hdr", "blk1" (first block), "blk2" (second or later), "trl", "cls"
HitBlk(f, b) == (f = "blk1" /\ b = 0) \/ (f = "blk2" /\ b >= 1)

Ev(op, w, res, n, fired, wrote, hdr, new, whole, closes) ==
  [op |-> op, w |-> w, res |-> res, n |-> n, fired |-> fired, wrote |-> wrote, hdr |-> hdr,
   new |-> new, whole |-> whole, closes |-> closes]

Log(call, e) == /\ hist' = Append(hist, call)
                /\ viol' = viol \cup Judge(mon, e)
                /\ mon' = After(mon, e)

Call(op, w, n, f, s) == [op |-> op, w |-> w, n |-> n, f |-> f, s |-> s]

Add == /\ "add" \in Ops
       /\ IF started
          THEN nk' = nk /\ Log(Call("add", 0, 0, "none", "ok"), Ev("add", 0, "err", 0, FALSE, FALSE, FALSE, <<>>, FALSE, 0))
          ELSE nk' = nk + 1 /\ Log(Call("add", 0, 0, "none", "ok"), Ev("add", 0, "ok", 0, FALSE, FALSE, FALSE, <<>>, FALSE, 0))
       /\ UNCHANGED <<started, stream, runs, ws>>

\* blocks of an input of n units read by the file interface
NBlocks(n) == (n \div CSZ) + 1
Seqn(a, b) == [i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> KS(a + i - 1)]

\* Encrypt n units; f: destination fault; s: source fault ("ok", "err0": at once, "err1": after the first block)
Enc(n, f, s) ==
  /\ "enc" \in Ops
  /\ LET refused == (started \/ stream) /\ "restart" \notin Bugs
         c == Call("enc", 0, n, f, s)
         sent == IF s = "err0" \/ (s = "err1" /\ n < CSZ) THEN 0 ELSE IF s = "err1" THEN 1 ELSE NBlocks(n)
         \* last block that reaches the destination
         out == IF f = "blk1" THEN 0 ELSE IF f = "blk2" /\ sent > 1 THEN 1 ELSE sent
         hitblk == out < sent
         srcfail == s # "ok" /\ ~hitblk
         whole == s = "ok" /\ ~hitblk /\ f \notin {"trl", "hdr"}
         fired == f = "hdr" \/ hitblk \/ srcfail \/ (s = "ok" /\ f \in {"trl", "cls"})
         closed == s = "ok" /\ ~hitblk /\ f \notin {"trl", "hdr"}
         res == IF fired /\ "hideFault" \notin Bugs THEN "err" ELSE "ok"
     IN IF refused \/ nk = 0
        THEN /\ Log(c, Ev("enc", 0, "err", n, FALSE, FALSE, FALSE, <<>>, FALSE, 0))
             /\ UNCHANGED <<nk, started, stream, runs, ws>>
        ELSE IF f = "hdr"
        THEN /\ Log(c, Ev("enc", 0, "err", n, TRUE, FALSE, FALSE, <<>>, FALSE, 0))
             /\ UNCHANGED <<nk, started, stream, runs, ws>>
        ELSE /\ started' = TRUE /\ runs' = runs + 1
             /\ Log(c, Ev("enc", 0, res, n, fired, TRUE, TRUE, Seqn(0, out - 1), whole, IF closed THEN 1 ELSE 0))
             /\ UNCHANGED <<nk, stream, ws>>

OpenW(f) ==
  /\ "open" \in Ops
  /\ \E i \in 1..MaxWriters :
     /\ ~ws[i].open /\ \A j \in 1..(i-1) : ws[j].open
     /\ LET refused == started /\ "restart" \notin Bugs
            c == Call("open", i, 0, f, "ok")
        IN IF refused \/ nk = 0
           THEN /\ Log(c, Ev("open", i, "err", 0, FALSE, FALSE, FALSE, <<>>, FALSE, 0))
                /\ UNCHANGED <<nk, started, stream, runs, ws>>
           ELSE IF f = "hdr"
           THEN /\ Log(c, Ev("open", i, "err", 0, TRUE, FALSE, FALSE, <<>>, FALSE, 0))
                /\ UNCHANGED <<nk, started, stream, runs, ws>>
           ELSE /\ started' = TRUE /\ stream' = TRUE /\ runs' = runs + 1
                /\ ws' = [ws EXCEPT ![i] = [NewW EXCEPT !.open = TRUE, !.hdr = TRUE, !.fault = f]]
                /\ Log(c, Ev("open", i, "ok", 0, FALSE, TRUE, TRUE, <<>>, FALSE, 0))
                /\ UNCHANGED nk

\* number of full blocks flushed when n units are added to b buffered ones:
\* a block goes out only when more data follows it
Flushed(b, n) == IF b + n = 0 THEN 0 ELSE (b + n - 1) \div CSZ

Write(i, n) ==
  /\ "write" \in Ops /\ ws[i].open
  /\ LET w == ws[i]
         k == IF n = 0 THEN 0 ELSE Flushed(w.buf, n)
         c == Call("write", i, n, "none", "ok")
         dead == w.err /\ "notSticky" \notin Bugs
         \* the first block of this call that the destination rejects
         hits == {b \in w.blk .. (w.blk + k - 1) : HitBlk(w.fault, b)}
     IN IF dead
        THEN /\ Log(c, Ev("write", i, "err", n, FALSE, FALSE, FALSE, <<>>, FALSE, w.closes))
             /\ UNCHANGED <<nk, started, stream, runs, ws>>
        ELSE IF hits # {}
        THEN LET b == CHOOSE x \in hits : \A y \in hits : x <= y
             IN /\ ws' = [ws EXCEPT ![i].err = TRUE, ![i].blk = b, ![i].dfail = TRUE]
                /\ Log(c, Ev("write", i, "err", n, TRUE, b > w.blk, FALSE, Seqn(w.blk, b - 1), FALSE, w.closes))
                /\ UNCHANGED <<nk, started, stream, runs>>
        ELSE /\ ws' = [ws EXCEPT ![i].buf = w.buf + n - CSZ * k, ![i].blk = w.blk + k, ![i].fed = w.fed + n]
             /\ Log(c, Ev("write", i, "ok", n, FALSE, k > 0, FALSE, Seqn(w.blk, w.blk + k - 1), FALSE, w.closes))
             /\ UNCHANGED <<nk, started, stream, runs>>

Close(i) ==
  /\ "close" \in Ops /\ ws[i].open
  /\ LET w == ws[i]
         c == Call("close", i, 0, "none", "ok")
         dead == w.err /\ "notSticky" \notin Bugs
         hit == HitBlk(w.fault, w.blk)
     IN IF dead
        THEN /\ Log(c, Ev("close", i, "err", 0, FALSE, FALSE, FALSE, <<>>, FALSE, w.closes))
             /\ UNCHANGED <<nk, started, stream, runs, ws>>
        ELSE IF hit
        THEN /\ ws' = [ws EXCEPT ![i].err = TRUE, ![i].dfail = TRUE]
             /\ Log(c, Ev("close", i, "err", 0, TRUE, FALSE, FALSE, <<>>, FALSE, w.closes))
             /\ UNCHANGED <<nk, started, stream, runs>>
        ELSE IF w.fault = "trl"
        THEN /\ ws' = [ws EXCEPT ![i].err = TRUE, ![i].blk = w.blk + 1, ![i].dfail = TRUE]
             /\ Log(c, Ev("close", i, "err", 0, TRUE, TRUE, FALSE, <<KS(w.blk)>>, FALSE, w.closes))
             /\ UNCHANGED <<nk, started, stream, runs>>
        ELSE /\ ws' = [ws EXCEPT ![i].err = TRUE, ![i].closes = w.closes + 1, ![i].blk = w.blk + 1]
             /\ Log(c, Ev("close", i, IF w.fault = "cls" THEN "err" ELSE "ok", 0, w.fault = "cls", TRUE, FALSE,
                          <<KS(w.blk)>>, TRUE, w.closes + 1))
             /\ UNCHANGED <<nk, started, stream, runs>>

Next == /\ Len(hist) < MaxOps
        /\ \/ Add
           \* with Pre, histories start with a recipient
           \/ /\ ~(Pre /\ hist = <<>>)
              /\ \/ \E n \in EncLens, f \in Faults, s \in SrcFaults : Enc(n, f, s)
                 \/ \E f \in Faults : OpenW(f)
                 \/ \E i \in 1..MaxWriters, n \in WriteLens : Write(i, n)
                 \/ \E i \in 1..MaxWriters : Close(i)
Spec == Init /\ [][Next]_vars

NoViolation == viol = {}
Done == Len(hist) = MaxOps
EmitInv == Emit /\ Done => PrintT("@C" \o ToJson([ops |-> hist]))
=============================================================================
