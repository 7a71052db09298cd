"""What each property's check runs."""
from concurrent.futures import ThreadPoolExecutor
import json, os
from vlib import VERIF, THOROUGH, SEED, CheckError

CHECKS = {}


def check(prop):
    def f(fn):
        CHECKS[prop] = fn
        return fn
    return f


def known(prop):
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop and k["status"] == "open"]


# --- the container: C01 .. C04 ------------------------------------------

CINVS = ["RoundTrip", "NoAccess", "SenderAuth", "Integrity", "Prefix", "EmitInv"]
CRYPTO = ["AES-256-GCM, HMAC-SHA256, HKDF, X25519 and Ed25519 are ideal in the specification; the code's use of them is exercised on the real primitives",
          "TLC's exhaustive search covers the stated constants; larger files are covered by replay with several block sizes"]


def container(c, cases, **kw):
    k = dict(Shapes="<- ShAll", KeyLists="<- K12", SignA='{"none","S"}', SignB='{"S"}', EditKinds="<- AllKinds",
             MaxEdits="1", Rxs='{"r1","x"}', Wants='{"none","S","T"}', Bugs="{}", Emit="TRUE" if cases else "FALSE")
    name = kw.pop("name")
    exp = kw.pop("expect", None)
    k.update(kw)
    return c.tlc("Container", k, CINVS, name=name, emit=cases, expect_violation=exp, timeout=1500)


@check("C01")
def c01(c):
    f = c.work + "/cases"
    container(c, f, name="roundtrip", Shapes="<- ShDeep", KeyLists="<- KAll", EditKinds="{}", MaxEdits="0",
              Rxs='{"r1","r2"}', SignA='{"none","S"}')
    container(c, None, name="broken-reader", Shapes="<- ShFew", EditKinds="{}", MaxEdits="0", Bugs='{"lastEmptyFails"}', expect=["RoundTrip"])
    c.assumptions += CRYPTO
    c.harness("container", cases=f, needs_bin=True)


@check("C02")
def c02(c):
    f = c.work + "/cases"
    container(c, f, name="outsider-1", EditKinds="<- OutKinds", Rxs='{"r1","r2"}', SignB='{"none","S"}')
    container(c, f, name="outsider-2", EditKinds="<- OutKinds", MaxEdits="2", KeyLists="<- K2", Rxs='{"r1"}', Wants='{"none","S"}',
              Shapes="<- ShAll" if THOROUGH else ("<- ShTwo" if SEED % 2 else "<- ShTwoB"), SignB='{"S"}')
    for b in ("emptyEof", "noIdx", "noAD"):
        container(c, None, name="broken-" + b, EditKinds="<- OutKinds", Shapes="<- ShFew", KeyLists="<- K1", Rxs='{"r1"}', Bugs='{"%s"}' % b,
                  expect=["Integrity", "Prefix"])
    c.prove("OpenProof", "Integrity", ("ConstMark", "ConstNumber", "ConstShort"))
    c.assumptions += CRYPTO
    c.harness("container", cases=f, needs_bin=True)


@check("C03")
def c03(c):
    f = c.work + "/cases"
    container(c, f, name="sender-1", Rxs='{"r1"}', SignB='{"none","S"}')
    container(c, f, name="sender-2", EditKinds="<- SenderKinds", MaxEdits="2", KeyLists="<- K2", Rxs='{"r1"}',
              Shapes="<- ShAll" if THOROUGH else "<- ShFew", SignB='{"S"}')
    if THOROUGH:
        container(c, f, name="sender-3", EditKinds="<- InKinds", MaxEdits="3", KeyLists="<- K2", Rxs='{"r1"}', Wants='{"S"}', Shapes="<- ShTwo", SignA='{"S"}')
    for b, i in (("trailerUnchecked", "Integrity"), ("unsignedOk", "NoAccess"), ("senderUnchecked", "NoAccess")):
        container(c, None, name="broken-" + b, Shapes="<- ShFew", KeyLists="<- K1", Rxs='{"r1"}', Bugs='{"%s"}' % b,
                  expect=[i, "SenderAuth"])
    c.assumptions += CRYPTO
    c.harness("container", cases=f, needs_bin=True)


@check("C04")
def c04(c):
    f = c.work + "/cases"
    container(c, f, name="access-1", Shapes="<- ShFew", KeyLists="<- KAll", EditKinds="<- OutKinds", Rxs='{"r1","r2","x"}', Wants='{"none","S"}')
    container(c, f, name="access-2", Shapes="<- ShTwo", KeyLists="<- KAll", EditKinds="<- KeyKinds", MaxEdits="3" if THOROUGH else "2",
              Rxs='{"r1","r2","x"}', Wants='{"none","S"}')
    container(c, None, name="broken-wrap", Shapes="<- ShFew", EditKinds="<- KeyKinds", Bugs='{"wrapUnbound"}', expect=["NoAccess"])
    c.assumptions += CRYPTO
    c.harness("container", cases=f, needs_bin=True)


# --- life cycles: C05 C06 C07 C19 ---------------------------------------

def judge(c, module, prop, f, rules_key, consts=None, timeout=1500):
    """Judge the recorded executions in f with spec/<module>.tla."""
    d = json.load(open(f + ".desc"))
    if d["n"] == 0:
        raise CheckError("no executions recorded")
    out = f + ".bad"
    k = {"File": '"%s"' % f, "Prop": '"%s"' % prop}
    k.update(consts or {})
    i = c.tlc(module, k, ["Report"], emit=out, name="%s-%s" % (module, prop), timeout=timeout)
    want = d["events"] + d["n"]
    if i["states"] != want:
        raise CheckError("%s: judged %d of %d states" % (module, i["states"], want))
    c.traces += d["n"]
    c.counts["executions_judged_by_" + module] = c.counts.get("executions_judged_by_" + module, 0) + d["n"]
    bad = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
    c.nviol += len(bad)
    ev = {}
    if bad:
        ids = {b["id"] for b in bad}
        for l in open(f):
            j = json.loads(l)
            if j["id"] in ids:
                ev[j["id"]] = j["ev"]
    seen = {}
    for b in bad:
        rules = sorted(b["rules"])
        key = d.get("keys", {}).get(str(b["id"]), rules_key) + ":" + "+".join(rules)
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 3:
            continue
        desc = d["desc"][str(b["id"])]
        c.violations.append(dict(key=key, msg="rules broken: %s; history: %s" % (", ".join(rules), "; ".join(map(str, desc))),
                                 replay=dict(rules=rules, history=desc, events=ev[b["id"]]), cmd=module))
    c.log("%s judged %d executions for %s: %d break a rule" % (module, d["n"], prop, len(bad)))


ALLF = '{"none","hdr","blk1","blk2","trl","cls"}'


def enclife(c, f, name, expect=None, **kw):
    k = dict(MaxOps="5", EncLens="{0,2,3}", WriteLens="{0,1,2,5}", MaxWriters="1", Faults='{"none"}', SrcFaults='{"ok"}',
             Ops='{"add","enc","open","write","close"}', Pre="FALSE", Bugs="{}", Emit="TRUE" if f else "FALSE")
    k.update(kw)
    return c.tlc("EncLife", k, ["NoViolation", "EmitInv"], name=name, emit=f, expect_violation=expect, timeout=1500)


@check("C05")
def c05(c):
    f = c.work + "/cases"
    enclife(c, f, "any-order", MaxWriters="1", MaxOps="5", WriteLens="{1,3}", EncLens="{0,3}")
    enclife(c, f, "restart", MaxWriters="2", MaxOps="7" if THOROUGH else "6", WriteLens="{1,3}", EncLens="{0,3}", Pre="TRUE")
    enclife(c, f, "faults", Faults=ALLF, SrcFaults='{"ok","err1"}', WriteLens="{3,5}", EncLens="{3}",
            MaxOps="5", MaxWriters="2", Pre="TRUE")
    enclife(c, None, "broken-restart", Bugs='{"restart"}', MaxOps="4", expect=["NoViolation"])
    c.prove("NonceProof", "Unique", ("ConstWrap", "ConstRetry", "ConstTwice"))
    c.assumptions += CRYPTO[:1]
    t = c.work + "/traces"
    c.harness("enclife", cases=f, extra={"traces": t})
    judge(c, "EncTrace", "C05", t, "enc")
    c.harness("encfresh")


def declife(c, f, name, expect=None, **kw):
    k = dict(Files="<- FileSome", SrcFaults="<- NoSrc", DstFaults='{"none"}', ReadLens="{0,1,3}", MaxReaders="2", MaxOps="5",
             Ops='{"setkey","decrypt","newreader","read"}', Keys="<- KeyAll", Pre="FALSE", Bugs="{}", Emit="TRUE" if f else "FALSE")
    k.update(kw)
    return c.tlc("DecLife", k, ["NoViolation", "EmitInv"], name=name, emit=f, expect_violation=expect, timeout=1500)


@check("C06")
def c06(c):
    f = c.work + "/cases"
    declife(c, f, "any-order", MaxOps="5" if THOROUGH else "4", Files="<- FileAll" if THOROUGH else "<- FileSome", ReadLens="{1,3}", DstFaults='{"none","blk1"}')
    declife(c, f, "any-order-deep", MaxOps="6" if THOROUGH else "5", Files="<- FileTwo" if THOROUGH else "<- FileSome", MaxReaders="1", ReadLens="{3}")
    declife(c, f, "consumers", MaxOps="8" if THOROUGH else "7", Keys="<- KeyFit", Pre="TRUE", ReadLens="{1,3}", Files="<- FileTwo")
    declife(c, None, "broken-keep-key", Bugs='{"keepKey"}', MaxOps="3", expect=["NoViolation"])
    declife(c, None, "broken-shared-buffer", Bugs='{"sharedBuf"}', Keys="<- KeyFit", Pre="TRUE", Files="<- FileTwo", MaxOps="6", expect=["NoViolation"])
    declife(c, None, "broken-eof-again", Bugs='{"eofAgain"}', MaxOps="4", expect=["NoViolation"])
    c.assumptions += CRYPTO[:1]
    t = c.work + "/traces"
    c.harness("declife", cases=f, extra={"traces": t})
    judge(c, "DecTrace", "C06", t, "dec")


@check("C07")
def c07(c):
    f, g = c.work + "/ecases", c.work + "/dcases"
    enclife(c, f, "enc-faults", Faults=ALLF, SrcFaults='{"ok","err0","err1"}', WriteLens="{1,5}", EncLens="{0,1,2,3,4,5}",
            MaxOps="3", MaxWriters="1", Pre="TRUE")
    enclife(c, f, "enc-faults-deep", Faults=ALLF, SrcFaults='{"ok","err1"}', WriteLens="{1,5}", EncLens="{3,4}" if THOROUGH else "{3}",
            MaxOps="5" if THOROUGH else "4", MaxWriters="1", Pre="TRUE")
    enclife(c, f, "enc-streams", Faults=ALLF, WriteLens="{0,1,2,3,5}", EncLens="{}", MaxOps="6" if THOROUGH else "5", MaxWriters="1", Pre="TRUE")
    enclife(c, None, "broken-hide-fault", Bugs='{"hideFault"}', Faults=ALLF, MaxOps="3", expect=["NoViolation"])
    declife(c, g, "dec-faults", SrcFaults="<- AllSrc", DstFaults='{"none","blk1","blk2"}', Keys="<- KeyFit", Pre="TRUE", Files="<- FileAll",
            MaxOps="6" if THOROUGH else "5", MaxReaders="1", ReadLens="{1,3}")
    declife(c, None, "broken-eof-on-cut", Bugs='{"eofOnCut"}', SrcFaults="<- AllSrc", Keys="<- KeyFit", MaxOps="3", expect=["NoViolation"])
    declife(c, None, "broken-hide-dst", Bugs='{"hideFault"}', DstFaults='{"none","blk1","blk2"}', Keys="<- KeyFit", MaxOps="3", expect=["NoViolation"])
    t, u = c.work + "/etraces", c.work + "/dtraces"
    c.harness("enclife", cases=f, extra={"traces": t})
    judge(c, "EncTrace", "C07", t, "enc")
    c.harness("declife", cases=g, extra={"traces": u})
    judge(c, "DecTrace", "C07", u, "dec")
    c.harness("far")


@check("C19")
def c19(c):
    f, g = c.work + "/ecases", c.work + "/dcases"
    enclife(c, f, "writers", WriteLens="{0,1,2,3,5}", Ops='{"add","open","write","close"}', MaxOps="7" if THOROUGH else "6", Pre="TRUE")
    enclife(c, f, "writers-faults", WriteLens="{1,3,5}", Faults=ALLF, Ops='{"add","open","write","close"}', MaxOps="6", Pre="TRUE")
    enclife(c, None, "broken-not-sticky", Bugs='{"notSticky"}', MaxOps="5", expect=["NoViolation"])
    declife(c, g, "readers", Ops='{"setkey","newreader","read"}', Keys="<- KeyFit", Pre="TRUE", Files="<- FileAll", MaxReaders="1",
            ReadLens="{0,1,2,3}", MaxOps="8" if THOROUGH else "7")
    declife(c, g, "readers-faults", Ops='{"setkey","newreader","read"}', Keys="<- KeyFit", Pre="TRUE", SrcFaults="<- AllSrc", MaxReaders="1",
            ReadLens="{0,1,3}", MaxOps="6", Files="<- FileAll")
    c.prove("CutProof", "Exact", ("ConstEager", "ConstDrop"))
    t, u = c.work + "/etraces", c.work + "/dtraces"
    c.harness("enclife", cases=f, extra={"traces": t})
    judge(c, "EncTrace", "C19", t, "enc")
    c.harness("declife", cases=g, extra={"traces": u})
    judge(c, "DecTrace", "C19", u, "dec")
    c.harness("partition")


# --- signatures: C08 ------------------------------------------------------

@check("C08")
def c08(c):
    f = c.work + "/cases"
    inv = ["NoForgery", "Exact", "Accepts", "HintExact", "HintAltered", "EmitInv"]

    def run(name, expect=None, **kw):
        k = dict(Contents="<- CFew", Keys='{"A","B"}', Apis='{"msg","file"}', Kinds='{"file"}', SigEdits="<- AllEdits", MaxEdits="0",
                 Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("Sig", k, inv, name=name, emit=None if expect else f, expect_violation=expect)

    run("contents", Contents="<- C3", Kinds='{"file","fifo","link"}')
    run("altered", MaxEdits="3" if THOROUGH else "2")
    run("program", Apis='{"file","cli"}', Kinds='{"file","fifo","link"}', Contents="<- C3" if THOROUGH else "<- CFew")
    run("program-altered", Apis='{"cli"}', MaxEdits="2" if THOROUGH else "1")
    run("broken-pipe", expect=["NoForgery", "Exact"], Bugs='{"emptyPipe"}', Kinds='{"file","fifo"}')
    run("broken-digest", expect=["NoForgery"], Bugs='{"noTail"}', Contents="<- C3")
    run("broken-length", expect=["Exact"], Bugs='{"lax"}', MaxEdits="1")
    run("broken-hint", expect=["HintAltered"], Bugs='{"prefixHint"}', MaxEdits="1")
    c.harness("sig", cases=f, needs_bin=True)


# --- authorized_keys: C18 -------------------------------------------------

@check("C18")
def c18(c):
    f, g = c.work + "/lines", c.work + "/files"

    def lines(name, expect=None, **kw):
        k = dict(Alphabet="<- AlphaAll", MaxFree="5", Tails="<- TailNone", Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("AuthKeys", k, ["Agree", "EmitInv"], name=name, emit=None if expect else f, expect_violation=expect, timeout=1500)

    lines("any-line", MaxFree="6" if THOROUGH else "5")
    lines("options", Alphabet="<- AlphaOpt", Tails="<- TailKey", MaxFree="7" if THOROUGH else "6")
    lines("quotes", Alphabet="<- AlphaQuote", Tails="<- TailOne", MaxFree="10" if THOROUGH else "8")
    lines("backslashes", Alphabet="<- AlphaEscape", Tails="<- TailOne", MaxFree="10" if THOROUGH else "8")
    lines("broken-pairs", Bugs='{"pairs"}', Alphabet="<- AlphaEscape", Tails="<- TailOne", expect=["Agree"])
    lines("broken-type", Bugs='{"anyType"}', expect=["Agree"])
    lines("broken-escape", Bugs='{"noEscape"}', Alphabet="<- AlphaQuote", Tails="<- TailOne", expect=["Agree"])
    lines("broken-split", Bugs='{"plainSplit"}', Alphabet="<- AlphaQuote", Tails="<- TailOne", expect=["Agree"])
    c.tlc("AuthFile", dict(Kinds="<- KindsAll", MaxLines="4" if THOROUGH else "3", Eols='{"lf","crlf","mixed"}', Emit="TRUE"), ["Exact", "EmitInv"], name="files", emit=g)
    c.tlc("AuthFile", dict(Kinds="<- KindsFew", MaxLines="6" if THOROUGH else "5", Eols='{"mixed"}', Emit="TRUE"), ["Exact", "EmitInv"], name="longer-files", emit=g)
    c.harness("authline", cases=f)
    c.harness("authfile", cases=g)


# --- key files: C09 C10 C11 -----------------------------------------------

@check("C09")
def c09(c):
    f = c.work + "/cases"
    inv = ["RoundTrip", "OnlySaved", "EmitInv"]

    def run(name, expect=None, **kw):
        k = dict(Pws="<- PwFew", EditKinds="<- AllEdits", MaxEdits="0", Comments="<- ComNone", Kinds='{"priv"}', Readers='{"make","read","unmarshal"}',
                 Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("KeyFile", k, inv, name=name, emit=None if expect else f, expect_violation=expect)

    run("passphrases", Pws="<- PwAll", Readers='{"make","read","cli"}')
    run("comments", Pws='{"", "a"}' if THOROUGH else '{"a"}', Comments="<- Com3" if THOROUGH else "<- Com2", Kinds='{"priv","pub"}')
    run("program-comments", Pws='{"a"}', Comments="<- Com1", Kinds='{"priv","pub"}', Readers='{"cli"}')
    run("altered", MaxEdits="2", Pws='{"", "a"}')
    run("mixed", MaxEdits="5", EditKinds='{"escOther","saltOther","nOther","rOther","pOther","escFlip","n"}', Pws='{"a","b"}', Readers='{"make"}')
    if THOROUGH:
        run("altered-3", MaxEdits="3", Pws='{"a","b"}', Readers='{"make"}')
    run("broken-passphrase", expect=["OnlySaved"], Bugs='{"ignorePw"}')
    run("broken-tag", expect=["OnlySaved"], Bugs='{"noTag"}', MaxEdits="1")
    run("broken-cost", expect=["OnlySaved"], Bugs='{"ignoreN"}', MaxEdits="1")
    run("broken-detection", expect=["RoundTrip"], Bugs='{"contains"}', Comments="<- Com1")
    c.assumptions += ["scrypt, SHA-512 and AES-256-GCM are ideal in the specification; most files are replayed at a low scrypt cost, a sample at the real one"]
    c.harness("keyfile", cases=f, needs_bin=True)


@check("C10")
def c10(c):
    f, g, h = c.work + "/containers", c.work + "/lines", c.work + "/forms"

    def cont(name, expect=None, **kw):
        k = dict(Ciphers="<- Ciph", Passes="<- PassFew", Comments="<- ComFew", MaxDev="1", Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("SshKey", k, ["Right", "Locked", "EmitInv"], name=name, emit=None if expect else f, expect_violation=expect)

    cont("containers", Passes="<- PassAll", Comments="<- ComAll")
    cont("containers-2", MaxDev="3" if THOROUGH else "2", Passes="<- PassAll" if THOROUGH else '{"right"}', Comments="<- ComFew" if THOROUGH else '{"word"}')
    cont("broken-check", Bugs='{"check"}', expect=["Right", "Locked"])
    cont("broken-nkeys", Bugs='{"nkeys"}', expect=["Right"])

    c.tlc("SshPub", dict(Alphabet="<- Alpha", MaxLen="6" if THOROUGH else "5", Bugs="{}", Emit="TRUE"), ["Agree", "EmitInv"], name="public", emit=g)
    c.tlc("SshPub", dict(Alphabet='{"sp","ed","K","w","nl","crlf"}', MaxLen="9" if THOROUGH else "8", Bugs="{}", Emit="TRUE"), ["Agree", "EmitInv"], name="public-long", emit=g)
    c.tlc("SshPub", dict(Alphabet="<- Alpha", MaxLen="4", Bugs='{"threeParts"}', Emit="FALSE"), ["Agree"], name="broken-three", expect_violation=["Agree"])

    c.tlc("KeyForms", dict(Keys='{"A","B"}', PrivForms='{"native","native-pw","ssh","ssh-ctr","ssh-cbc"}',
                           PubForms='{"native","ssh","ssh-com","auth","str","str-ssh","derived"}', Uses='{"sign","encrypt","sender"}', Emit="TRUE"),
          ["Same", "EmitInv"], name="forms", emit=h)
    c.harness("sshkey", cases=f)
    c.harness("sshpub", cases=g)
    c.harness("keyforms", cases=h)
    c.harness("sshkeygen")


@check("C11")
def c11(c):
    f = c.work + "/cases"

    def run(name, expect=None, emit=True, inv=("NoCrash", "EmitInv"), **kw):
        k = dict(Kinds="<- AllKinds", MaxMal="1", Bugs="{}", Emit="TRUE" if emit and not expect else "FALSE")
        k.update(kw)
        c.tlc("Malformed", k, list(inv), name=name, emit=f if emit and not expect else None, expect_violation=expect, timeout=1500)

    run("one-field")
    c.tlc("Malformed", dict(Kinds="<- AllKinds", MaxMal="1", Bugs="{}", Emit="FALSE"), ["NoCrash"], props=["Ends"], name="ends")
    run("two-fields", MaxMal="2")
    if THOROUGH:
        run("three-fields", MaxMal="3", emit=False)
    for b in ("noParams", "noSaltLen", "noPkLen", "noCallback", "noBlockLen", "noPrivLen", "noChunk"):
        run("broken-" + b, expect=["NoCrash"], Bugs='{"%s"}' % b)
    c.harness("malformed", cases=f, needs_bin=True)


# --- the program: C12 C13 C14 C15 -----------------------------------------

ALLCMDS = '{"gen","sign","verify","enc","dec","test","savesk","savepk","savesig"}'
ALLFAULTS = '{"load","open","create","read","write","sync","close","rename","unlink","kill"}'


def cli(c, f, name, expect=None, inv=("Safe", "EmitInv"), **kw):
    k = dict(Cmds=ALLCMDS, MaxDev="1", Faults=ALLFAULTS, Bugs="{}", Emit="TRUE" if f else "FALSE")
    k.update(kw)
    return c.tlc("Cli", k, list(inv), name=name, emit=f, expect_violation=expect)


def par(fns, n=4):
    """Run independent model runs side by side."""
    with ThreadPoolExecutor(n) as x:
        for r in [x.submit(fn) for fn in fns]:
            r.result()


def clirun(c, f, faults="", fdev=0, **kw):
    t = c.work + "/traces-%d" % len(c.models)
    c.harness("cli", cases=f, extra={"traces": t, "faults": faults, "fdev": fdev}, needs_bin=True, **kw)
    judge(c, "CliTrace", c.prop, t, "run")


def world(c, walks, gens=0, selftest=False):
    """Histories of the program (World.tla): every pair of commands among few files, random walks among more."""
    f = c.work + "/histories"
    names = '{"a","b","a.sig","k.key","k.pub","l.key","l.pub"}'
    inv = ["Authentic", "Signed", "Kept", "EmitInv"]

    def run(name, expect=None, **kw):
        sim = kw.pop("simulate", None)
        k = dict(Names=names, Bases='{"k","l"}', Kinds='{"sign","verify","enc","dec","test","cp","rm","harm"}', Wants="{0,1,2,3,4}",
                 MaxLen="14", MaxGen="0", Bugs="{}", Emit="FALSE")
        k.update(kw)
        c.tlc("World", k, inv, name=name, simulate=sim, depth=400, emit=f if k["Emit"] == "TRUE" else None, expect_violation=expect)

    few = dict(Names='{"a","b","k.key","k.pub"}', Bases='{"k"}', Wants="{1}", MaxLen="2")
    if selftest:
        run("history-pairs-1", Kinds='{"enc","dec","test","harm"}', **few)
        run("history-pairs-2", Kinds='{"sign","verify","harm","cp"}', **few)
        par([lambda b=b, e=e: run("broken-" + b, expect=[e], simulate=3000, Bugs='{"%s"}' % b) for b, e in
             (("anyKey", "Authentic"), ("anySender", "Authentic"), ("anyContent", "Signed"), ("harmless", "Authentic"), ("noForce", "Kept"))], 2)
    run("histories", simulate=walks // 8, Emit="TRUE")
    if gens:
        run("histories-gen", simulate=gens // 8, Kinds='{"gen","sign","verify","enc","dec","test","cp"}', Wants="{1,2,3}", MaxLen="9", MaxGen="1", Emit="TRUE")
    c.harness("world", cases=f, needs_bin=True)


@check("C12")
def c12(c):
    f = c.work + "/cases"
    cli(c, f, "situations", MaxDev="2" if THOROUGH else "1")
    par([lambda b=b, n=n: cli(c, None, "broken-" + n, expect=["Safe"], Bugs='{"%s"}' % b) for n, b in
         (("direct", "direct"), ("abort", "noAbort"), ("write", "ignoreWrite"))])
    clirun(c, f, faults="error+kill" + ("+two" if THOROUGH else ""), fdev=2 if THOROUGH else 1)
    c.harness("clisignals", needs_bin=True)


@check("C13")
def c13(c):
    f, g = c.work + "/cases", c.work + "/races"
    cli(c, f, "situations", MaxDev="3" if THOROUGH else "2", Faults="{}")
    cli(c, g, "races", MaxDev="1", Faults="{}")
    par([lambda b=b, n=n, q=q: cli(c, None, "broken-" + n, expect=["Safe"], MaxDev="2", Faults=q, Bugs=b) for n, b, q in
         (("same", '{"noSame"}', "{}"), ("exists", '{"noExists"}', "{}"), ("stat", '{"statOnly"}', "{}"), ("race", "{}", '{"appear"}'))])
    clirun(c, f, faults="error" if THOROUGH else "", fdev=1)
    clirun(c, g, faults="appear", fdev=1)
    c.harness("clinobody", needs_bin=True)
    world(c, 16000 if THOROUGH else 800)


@check("C14")
def c14(c):
    f, g = c.work + "/cases", c.work + "/args"
    cli(c, f, "situations", MaxDev="3" if THOROUGH else "2", Faults="{}")
    c.tlc("Args", dict(MaxLen="4" if THOROUGH else "3", Bugs="{}", Emit="TRUE"), ["NoFreeZero", "EmitInv"], name="command-lines", emit=g)
    par([lambda b=b, n=n, q=q: cli(c, None, "broken-" + n, expect=["Safe"], Faults=q, Bugs=b) for n, b, q in
         (("close", '{"ignoreClose"}', ALLFAULTS), ("write", '{"ignoreWrite"}', ALLFAULTS), ("read", '{"readEof"}', ALLFAULTS))])
    c.tlc("Args", dict(MaxLen="2", Bugs='{"anyWord"}', Emit="FALSE"), ["NoFreeZero"], name="broken-word", expect_violation=["NoFreeZero"])
    clirun(c, f, faults="error+short" + ("+intr" if THOROUGH else ""), fdev=2 if THOROUGH else 1)
    c.harness("cliargs", cases=g, needs_bin=True)
    h = c.work + "/spell"
    c.tlc("Spell", dict(MaxDev="3" if THOROUGH else "2", Bugs="{}", Emit="TRUE"), ["Same", "EmitInv"], name="spellings", emit=h)
    for b in ("early", "toggle"):
        c.tlc("Spell", dict(MaxDev="2", Bugs='{"%s"}' % b, Emit="FALSE"), ["Same"], name="broken-" + b, expect_violation=["Same"])
    c.harness("clispell", cases=h, needs_bin=True)
    world(c, 40000 if THOROUGH else 1600, 400 if THOROUGH else 16, selftest=True)


@check("C15")
def c15(c):
    f = c.work + "/cases"
    cli(c, f, "situations", MaxDev="3" if THOROUGH else "2", Cmds='{"gen","enc","dec","savesk"}', Faults="{}")
    par([lambda b=b, n=n: cli(c, None, "broken-" + n, expect=["Safe"], Faults="{}", Bugs='{"%s"}' % b, MaxDev="2") for n, b in
         (("mode", "wideMode"), ("input-mode", "inMode"), ("direct", "direct"))])
    clirun(c, f, faults="error", fdev=1)


@check("C17")
def c17(c):
    f = c.work + "/cases"
    inv = ["Exact", "NoneMissing", "NoOutput", "Works", "EmitInv"]

    def run(name, expect=None, **kw):
        k = dict(LineKinds="<- AllLines", MaxLines="2", Args="<- AllArgs", MaxArgs="1", Auths='{"there"}', Signs="{FALSE}", Pads="{FALSE}", Times="{1}", Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("Recip", k, inv, name=name, emit=None if expect else f, expect_violation=expect)

    run("lines", Args="<- UserArgs", MaxLines="3" if THOROUGH else "2", MaxArgs="1", LineKinds="<- AllLines")
    run("arguments", LineKinds="<- FewLines", MaxLines="1", MaxArgs="2", Signs="{TRUE}")
    run("longer", LineKinds='{"a","b"}', MaxLines="2", Args="<- FewArgs", MaxArgs="4" if THOROUGH else "3", Auths='{"there","absent"}')
    run("three-lines", LineKinds="<- FewLines", MaxLines="4" if THOROUGH else "3", Args='{"alice","bob"}', MaxArgs="2")
    run("many", LineKinds='{"a","dup"}', MaxLines="1", Args="<- FewArgs", MaxArgs="2", Pads="{TRUE}")
    run("times", LineKinds='{"a","dup"}', MaxLines="1", Args="<- FewArgs", MaxArgs="2" if THOROUGH else "1", Times="{2, 255, 256, 257, 512}")
    run("no-file", MaxLines="0", Auths='{"absent","empty","dir","nohome"}', MaxArgs="2", Signs="{FALSE,TRUE}")
    par([lambda b=b, q=q: run("broken-" + b, expect=q, Bugs='{"%s"}' % b, MaxLines="1", MaxArgs="2", Signs="{TRUE}") for b, q in
         (("prefix", ["Exact", "NoneMissing"]), ("fold", ["Exact", "NoneMissing"]), ("lastWord", ["Exact", "NoneMissing"]), ("file", ["Exact", "NoneMissing"]),
          ("skip", ["NoneMissing"]), ("lastErr", ["NoneMissing"]), ("lastOnly", ["Exact"]), ("sender", ["Exact"]))]
        + [lambda: run("broken-cap", expect=["Exact"], Bugs='{"cap"}', MaxLines="1", MaxArgs="1", Pads="{TRUE}"),
           lambda: run("broken-exit", expect=["NoneMissing"], Bugs='{"exitErrs"}', MaxLines="1", MaxArgs="1", Pads="{TRUE}", Times="{256}")])
    c.harness("recip", cases=f, needs_bin=True)


@check("C16")
def c16(c):
    f, g = c.work + "/cases", c.work + "/docs"
    inv = ["Found", "NeverLost", "BlocksFull", "OnlyLast", "EmitInv"]
    ns, cs = "{0, 1, 15, 16, 17, 32, 127, 128, 129, 256, 1000, 1023, 1024, 1025, 3072, 4096, 5000}", "{1, 16, 127, 128, 512, 1000, 1024, 4096, 16383, 16384, 131072}"

    def run(name, expect=None, **kw):
        k = dict(Ns=ns, Cs=cs, Rs="{1}", Signs="{TRUE, FALSE}", Orders='{"12345"}', Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("Format", k, inv, name=name, emit=None if expect else f, expect_violation=expect)

    run("layouts", Rs="{1, 3, 8}" if THOROUGH else "{1, 3}")
    run("large", Ns="{131071, 131072, 131073, 300000, 1048576}", Cs="{65536, 131072, 1048576, 2097152}")
    run("huge", Ns="{0, 1000, 5000000}", Cs="{4194303, 4194304, 4194305, 8388608, 16777216, 134217728}")
    run("many", Ns="{100}", Cs="{64}", Rs="{2, 5, 10, 17, 40, 130}")
    run("orders", Ns="{0, 1000, 1024}", Cs="{512}", Rs="{1, 2}", Orders='{"54321", "21345", "51234", "13524", "23451"}')
    run("broken-tagged", expect=["Found", "NeverLost"], Bugs='{"tagged"}')
    run("broken-trailer", expect=["Found"], Bugs='{"noTrailer"}')
    c.tlc("Docs", dict(Kinds='{"pub","sig"}', Quotes='{"plain","double","single","fold","literal"}', Frames='{"plain","start","comments","nonl","crlf","flow"}', Emit="TRUE"),
          ["Once", "EmitInv"], name="documents", emit=g)
    c.tlc("Docs", dict(Kinds='{"priv"}', Quotes='{"plain","double","single"}' if THOROUGH else '{"plain","double"}', Frames='{"plain","comments","crlf"}' if THOROUGH else '{"plain"}', Emit="TRUE"),
          ["Once", "EmitInv"], name="private-key-documents", emit=g)
    c.harness("format", cases=f)
    c.harness("siglong")
    c.harness("docs", cases=g)
    c.harness("fixtures", extra={"dir": VERIF + "/fixtures"}, needs_bin=True)
    c.harness("formatcli", needs_bin=True)


# --- C20: operations at the same time -----------------------------------

@check("C20")
def c20(c):
    f = c.work + "/cases"
    ops = '{"sign", "signfile", "verify", "verifyfile", "hint", "enc", "encs", "dec", "decs", "curvesk", "curvepk", "savepub", "savesig", "reads"}'
    few = '{"sign", "verify", "enc", "dec", "reads"}'

    def run(name, expect=None, **kw):
        k = dict(Ops=ops, NProcs="2", Objects='{"sk", "pk", "sig", "in"}', Warms="{FALSE}", Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("Shared", k, ["NoRace", "Right", "EmitInv"], name=name, emit=None if expect else f, expect_violation=expect)

    run("pairs", Objects='{"sk", "pk", "sig", "in"}' if THOROUGH else '{"sk", "pk"}')
    run("pairs-all", Objects='{"sig", "in"}', Ops='{"sign", "verify", "hint", "encs", "dec", "savesig", "reads"}', Warms="{TRUE, FALSE}")
    run("three", NProcs="3", Ops=few, Objects='{"sk", "pk", "in"}' if THOROUGH else '{"sk"}')
    if THOROUGH:
        run("four", NProcs="4", Ops=few, Objects='{"sk"}')
    run("broken-lazy", expect=["NoRace"], Bugs='{"lazy"}')
    c.tlc("Shared", dict(Ops='{"enc"}', NProcs="2", Objects='{"pk"}', Warms="{FALSE}", Bugs='{"lazy"}', Emit="FALSE"), ["Right"], name="broken-lazy-torn", expect_violation=["Right"])
    c.tlc("Shared", dict(Ops='{"sign", "verify"}', NProcs="2", Objects='{"pk"}', Warms="{FALSE}", Bugs='{"global"}', Emit="FALSE"), ["Right"], name="broken-global", expect_violation=["Right"])
    run("broken-inplace", expect=["NoRace"], Bugs='{"inplace"}', Ops='{"reads", "verify"}')
    g = c.work + "/turns"
    atoms = '"sign", "signfile", "verify", "verifyfile", "hint", "curvesk", "curvepk", "savepub", "savesig", "reads"'

    def turns(name, expect=None, **kw):
        k = dict(Ops='{"enc", "encs", "dec", "decs", "readpriv", "readssh"}', NProcs="2", Segs="12", MaxSwitch="4" if THOROUGH else "3", Objs="{TRUE, FALSE}", Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("Interleave", k, ["Right", "EmitInv"], name=name, emit=None if expect else g, expect_violation=expect)

    turns("turns")
    turns("turns-atoms", Ops='{"enc", "encs", "dec", "decs", %s}' % atoms, MaxSwitch="2")
    turns("turns-three", Ops='{"enc", "dec", "decs"}', NProcs="3", Segs="8" if THOROUGH else "5", Objs="{FALSE}", MaxSwitch="4" if THOROUGH else "3")
    turns("broken-pool", expect=["Right"], Bugs='{"pool"}', Ops='{"enc", "dec"}')
    turns("broken-buffer", expect=["Right"], Bugs='{"global"}', Ops='{"enc", "dec"}')
    c.harness("interleave", cases=g)
    log = c.work + "/race"
    c.assumptions += ["a data race is what the Go race detector reports: it sees unordered conflicting accesses of the executions run, whatever their timing"]
    c.harness("shared", cases=f, race=True, env=dict(GORACE="log_path=%s exitcode=0 halt_on_error=0 history_size=3" % log))
    c.races(log)


# --- C21: randomness ------------------------------------------------------

@check("C21")
def c21(c):
    f = c.work + "/cases"
    allf = '{"never", "first", "second", "last", "mid", "b31", "b32", "b64", "b95", "b96", "b107", "next"}'

    def run(name, expect=None, emit=f, **kw):
        k = dict(Opers='{"enc", "encs", "senc", "sencs", "newkey"}', Ks="{1, 2, 5}", Chunks="{0, 1, 7, 31}", Fails=allf, Runs="1", Bugs="{}",
                 Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("Rand", k, ["Full", "Own", "Honest", "EmitInv"], name=name, emit=None if expect else emit, expect_violation=expect)

    run("operations")
    run("repeated", Runs="3" if THOROUGH else "2", Ks="{2}", Chunks="{0, 1}")
    run("saving", Opers='{"save", "save0", "savel"}', Chunks="{0, 1, 7}" if THOROUGH else "{0, 5}", Fails='{"never", "first", "mid", "last"}')
    run("broken-short", expect=["Full"], Bugs='{"shortOk"}')
    run("broken-error", expect=["Full", "Honest"], Bugs='{"ignoreErr"}')
    run("broken-reuse", expect=["Own"], Bugs='{"reuse"}', Runs="2")
    run("broken-derive", expect=["Own"], Bugs='{"derive"}')
    c.assumptions += ["the operating system's source of randomness, crypto/rand.Reader, is replaced by a known stream; its own quality is assumed",
                      "crypto/rand ends the process when its source fails, and sigtool panics: both count as failing"]
    c.harness("rand", cases=f, env=dict(GODEBUG="cryptocustomrand=1"))


@check("C22")
def c22(c):
    f = c.work + "/cases"
    secs = ["e", "a", "A", "asp", "spa", "atab", "a0", "aa", "uni", "nfd", "bin", "pct", "quo", "dol", "hash", "long", "long2"]

    def st(v):
        return "{" + ", ".join('"%s"' % x for x in v) + "}"

    def run(name, expect=None, **kw):
        k = dict(Cmds='{"sign", "enc", "dec"}', Ways='{"nopw", "env", "tty"}', Forms='{"native", "sshctr", "sshcbc", "sshplain"}', Secs=st(secs),
                 Typed=st(secs + ["fixed", "intr"]), Envs=st(secs + ["anl", "acr"]), Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("Pass", k, ["OnlyRight", "Right", "Exact", "NoTyping", "Ends", "EmitInv"], name=name, emit=None if expect else f, expect_violation=expect)

    run("use")
    run("generate", Cmds='{"gen"}', Typed='{"a", "asp", "fixed", "intr"}')
    run("generate-other", Cmds='{"gen"}', Ways='{"tty"}', Typed='{"e", "A", "a", "a0", "long", "long2", "uni", "nfd", "intr"}' if THOROUGH else '{"e", "long", "long2", "nfd"}')
    run("broken-trim", expect=["Exact", "Right"], Bugs='{"trim"}')
    run("broken-fold", expect=["OnlyRight"], Bugs='{"fold"}')
    run("broken-short", expect=["OnlyRight"], Bugs='{"short"}')
    for b in ("noConfirm", "firstWins", "lastWins"):
        run("broken-" + b, expect=["Exact"], Bugs='{"%s"}' % b, Cmds='{"gen"}', Typed='{"a", "asp", "fixed", "intr"}')
    c.assumptions += ["the keys used have a low cost of derivation; keys made by generate have the real one",
                      "with -E and an unset variable, or with both -E and --no-password, the passphrase is not judged"]
    c.harness("pass", cases=f, needs_bin=True)


@check("C23")
def c23(c):
    f = c.work + "/cases"

    def run(name, expect=None, **kw):
        k = dict(P='{"A", "B", "S"}', Rx='{"A", "B"}', Senders='{"S", "none"}', Weak="{}", Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("Secrecy", k, ["Secret", "Privacy", "Readable", "EmitInv"], name=name, emit=None if expect else f, expect_violation=expect)

    run("use")
    run("own-recipient", Rx='{"A", "S"}')
    run("weak-key", P='{"A", "B", "S", "W"}', Rx='{"A", "B", "W"}', Weak='{"W"}', Emit="FALSE")
    run("broken-lowOrder", expect=["Secret", "Privacy"], P='{"A", "B", "S", "W"}', Rx='{"A", "B", "W"}', Weak='{"W"}', Bugs='{"lowOrder"}')
    if THOROUGH:
        run("more", P='{"A", "B", "C", "S"}', Rx='{"A", "B", "C"}')
    for b in ("sharedFk", "rawFk", "eskFromSender", "kekPublic", "dkeyPublic", "macPublic"):
        run("broken-" + b, expect=["Secret"], Bugs='{"%s"}' % b)
    run("broken-signature", expect=["Secret"], Bugs='{"sigClear", "sigNoKey"}')
    c.assumptions += ["X25519, Ed25519, AES-GCM, HKDF, SHA-2 and HMAC are ideal: what the model cannot derive, nobody can",
                      "the trailer tells a file with a sender from one without: the sizes, this and the number of recipients are not secret",
                      "the time operations take is not judged"]
    c.harness("secrecy", cases=f, env=dict(GODEBUG="cryptocustomrand=1"), needs_bin=True)


# --- C24: streaming -------------------------------------------------------

@check("C24")
def c24(c):
    f = c.work + "/cases"

    def run(name, expect=None, **kw):
        k = dict(Opers='{"enc", "encs", "dec", "decs", "open"}', Max="14" if THOROUGH else "9", U="2", Slack="1", Pieces="{0, 1, 7, 1000}", Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("Stream", k, ["Prompt", "Honest", "Exact", "EmitInv"], props=() if expect else ("Ends",), name=name, emit=None if expect else f, expect_violation=expect)

    run("use")
    run("broken-hoard", expect=["Prompt"], Bugs='{"hoard"}')
    run("broken-late", expect=["Prompt"], Bugs='{"late"}')
    run("broken-ahead", expect=["Exact"], Bugs='{"ahead"}', Opers='{"dec", "decs", "open"}')
    c.assumptions += ["memory in use is what the Go runtime counts as live after a collection, for the program its largest resident set",
                      "a block may be held back until the one after it is complete"]
    c.harness("stream", cases=f, needs_bin=True)


# --- C25: resources -------------------------------------------------------

@check("C25")
def c25(c):
    f = c.work + "/cases"

    def run(name, expect=None, **kw):
        k = dict(Opers='{"sign", "verify", "readsk", "readpk", "readsig", "savesk", "savepk", "savesig", "enc", "encs", "dec", "decs"}',
                 Repeat="3" if THOROUGH else "2", Bugs="{}", Emit="FALSE" if expect else "TRUE")
        k.update(kw)
        c.tlc("Resources", k, ["Clean", "Once", "Right", "EmitInv"], props=() if expect else ("Ends",), name=name, emit=None if expect else f, expect_violation=expect)

    run("use")
    run("broken-leak", expect=["Clean"], Bugs='{"leak"}')
    run("broken-double", expect=["Once"], Bugs='{"double"}')
    run("broken-forget", expect=["Clean"], Bugs='{"forget"}')
    c.assumptions += ["what is open, mapped and running is what /proc/self and the Go runtime say; collection is off, so that nothing is swept up before it is seen",
                      "something lost once and for all (a cache, say) is no loss: only what grows with every use counts"]
    c.harness("resources", cases=f)
