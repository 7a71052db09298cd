-------------------------------- MODULE Sig --------------------------------
(***************************************************************************)
(* Signatures: sign, save and read back, alter, verify (C08).              *)
(*                                                                         *)
(* Cryptography is symbolic: a signature verifies exactly when it was made *)
(* over the digest in question with the private half of the key.  The      *)
(* digest of a file covers its content and its length, however the content *)
(* reaches the program (regular file, link, pipe, device).                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Contents, Keys, Apis, Kinds, SigEdits, MaxEdits, Bugs, Emit

VARIABLES pc,
          by, over, api, kind,     \* who signed what, how
          sig,                     \* the signature as it is now
          edits,                   \* what was done to it
          vk, vc, vapi, vkind,     \* what it is checked against
          ok, match
vars == <<pc, by, over, api, kind, sig, edits, vk, vc, vapi, vkind, ok, match>>

\* configurations
C3 == {<<>>, <<0>>, <<1>>, <<0, 0>>, <<0, 1>>, <<1, 0>>, <<0, 1, 0>>}
CFew == {<<>>, <<0>>, <<0, 1>>}
ByteEdits == {"flipR", "flipS", "cut", "extend", "otherR", "otherS", "addL", "zero"}
HintEdits == {"flipHint", "otherHint", "noHint", "cutHint"}
AllEdits == ByteEdits \cup HintEdits \cup {"save"}

OtherKey(k) == CHOOSE x \in Keys : x # k
\* the other signature an attacker has at hand: by the same key, other content
OtherC(c) == IF c = <<1>> THEN <<0, 1>> ELSE <<1>>

Digest(c, k) == IF "emptyPipe" \in Bugs /\ k = "fifo" THEN <<<<>>, 0>>
                ELSE IF "noTail" \in Bugs THEN <<IF c = <<>> THEN c ELSE <<c[1]>>, Len(c)>>
                ELSE <<c, Len(c)>>

Init == /\ pc = "sign" /\ by \in Keys /\ over \in Contents /\ api \in Apis /\ kind \in Kinds
        /\ (kind # "file" => api # "msg")
        /\ sig = [r |-> "own", s |-> "own", ln |-> 0, hint |-> "own"]
        /\ edits = <<>>
        /\ vk = "" /\ vc = <<>> /\ vapi = "" /\ vkind = "" /\ ok = FALSE /\ match = FALSE

Toggle(x, a) == IF x = a THEN "own" ELSE IF x = "own" THEN a ELSE "bad"

Apply(x, e) ==
  CASE e = "flipR"  -> [x EXCEPT !.r = Toggle(@, "flip")]
    [] e = "flipS"  -> [x EXCEPT !.s = Toggle(@, "flip")]
    [] e = "otherR" -> [x EXCEPT !.r = "other"]
    [] e = "otherS" -> [x EXCEPT !.s = "other"]
    [] e = "addL"   -> [x EXCEPT !.s = "bad"]
    [] e = "zero"   -> [x EXCEPT !.r = "bad", !.s = "bad"]
    [] e = "cut"    -> [x EXCEPT !.ln = 1, !.s = "bad"]
    [] e = "extend" -> [x EXCEPT !.ln = 2]
    [] e = "flipHint"  -> [x EXCEPT !.hint = "bad"]
    [] e = "otherHint" -> [x EXCEPT !.hint = "other"]
    [] e = "noHint"    -> [x EXCEPT !.hint = "bad"]
    [] e = "cutHint"   -> [x EXCEPT !.hint = IF "prefixHint" \in Bugs THEN @ ELSE "bad"]
    [] OTHER -> x

\* each edit at most once, none on a signature of the wrong length
Edit == /\ pc = "sign" /\ Len(edits) < MaxEdits
        /\ \E e \in SigEdits :
             /\ ~\E i \in DOMAIN edits : edits[i] = e
             /\ (sig.ln # 0 => e \in HintEdits \cup {"save"})
             /\ sig' = Apply(sig, e) /\ edits' = Append(edits, e)
        /\ UNCHANGED <<pc, by, over, api, kind, vk, vc, vapi, vkind, ok, match>>

Valid(k, c, vkd) ==
  /\ sig.ln = 0 \/ ("lax" \in Bugs /\ sig.ln = 2)
  /\ k = by
  /\ \/ sig.r = "own" /\ sig.s = "own" /\ Digest(c, vkd) = Digest(over, kind)
     \/ sig.r = "other" /\ sig.s = "other" /\ Digest(c, vkd) = Digest(OtherC(over), "file")

Match(k) == IF sig.hint = "own" THEN k = by ELSE IF sig.hint = "other" THEN k = OtherKey(by) ELSE FALSE

Verify == /\ pc = "sign" /\ pc' = "done"
          /\ vk' \in Keys /\ vc' \in Contents /\ vapi' \in Apis /\ vkind' \in Kinds
          /\ (vkind' # "file" => vapi' # "msg")
          /\ match' = Match(vk')
          /\ ok' = (Valid(vk', vc', vkind') /\ (vapi' = "cli" => Match(vk')))
          /\ UNCHANGED <<by, over, api, kind, sig, edits>>

Next == Edit \/ Verify
Spec == Init /\ [][Next]_vars

Done == pc = "done"
Net == [i \in 1..Len(edits) |-> edits[i]]
Untouched == \A i \in DOMAIN edits : edits[i] = "save"
BytesUntouched == \A i \in DOMAIN edits : edits[i] \in HintEdits \cup {"save"}

\* accepted content was signed by that key
NoForgery == Done /\ ok => vk = by /\ (vc = over \/ (vc = OtherC(over) /\ {"otherR", "otherS"} \subseteq {edits[i] : i \in DOMAIN edits}))
\* an altered signature is not accepted for the signed content
Exact == Done /\ ok /\ vc = over /\ ~BytesUntouched => FALSE
\* an untouched one is
Accepts == Done /\ Untouched /\ vk = by /\ vc = over => ok /\ match
HintExact == Done /\ (\A i \in DOMAIN edits : edits[i] \notin HintEdits) => (match <=> vk = by)
HintAltered == Done /\ (\E i \in DOMAIN edits : edits[i] \in HintEdits) /\ vk = by => ~match

EmitInv == Emit /\ Done =>
  PrintT("@C" \o ToJson([by |-> by, over |-> over, api |-> api, kind |-> kind, edits |-> edits,
                         vk |-> vk, vc |-> vc, vapi |-> vapi, vkind |-> vkind, ok |-> ok, match |-> match]))
=============================================================================
