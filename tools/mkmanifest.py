#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
import checks

NOTE = {
 "C01": "TLC enumerates every file shape, recipient list and sender within Container.tla's constants; each is replayed on the real encryptor and decryptor (file and stream) at many real block sizes, up to the documented limits. Trusts the Go runtime and that lengths not sampled behave like the classes they belong to.",
 "C02": "TLC checks the integrity and prefix invariants against all single and double outsider edits (ideal cryptography); every such behaviour is applied to files made by the real encryptor and opened by the real decryptor, both interfaces; plus all truncations, all bit flips of small files and far-apart block edits.",
 "C03": "As C02 for edits by an insider who knows the file key: TLC checks sender authentication over single and double (thorough: triple) edits; each is replayed on the real decryptor.",
 "C04": "TLC checks the access invariants over recipient lists and key-entry edits; each behaviour is replayed with real keys (library and program); plus files with many recipients opened from every position.",
 "C05": "TLC explores all call sequences on an encryption context (bounded length, every component of the destination or source may fail) and checks that no key stream is used twice; each is run on the real encryptor, the recorded execution is judged by the same rules in TLC. The wrap of the 32-bit block number is reached through reflection where the field exists.",
 "C06": "TLC explores all call sequences on a decryption context with all keys and file kinds; each is run on the real decryptor and the recorded execution judged by the same rules in TLC. Sequences are bounded (7-8 calls).",
 "C07": "TLC explores both life cycles with a fault at every component of source and destination; each run on the real code at every byte class of the fault, judged in TLC. Faults between the sampled bytes of a component are assumed alike.",
 "C08": "TLC checks NoForgery and Exact over contents, names, interfaces and edit sequences with ideal signatures; each behaviour is replayed with real keys and files, library and program; plus single-position changes of long contents.",
 "C09": "TLC checks RoundTrip and OnlySaved over passphrases, comments, readers and edit sequences of the saved file; each replayed on the real code. Most cases use cheap scrypt parameters written by the reference implementation, samples the real ones.",
 "C10": "TLC checks a declarative reading of OpenSSH containers and public key lines against the reader's steps; each behaviour becomes a byte-exact container for the real reader; plus ssh-keygen files where installed and all single bit flips.",
 "C11": "TLC checks that no reader step is handed a value it does not tolerate, for one and two malformed fields (and that every reader ends); each becomes real bytes read in a child process with limited memory and time, by the library and the program; plus structural mutations.",
 "C12": "TLC checks the commands on a model file system with failure or death at every operation; the real program runs under ptrace with every system call as failure or death point, and TLC judges the observed states by the same rules.",
 "C13": "As C12, in every situation of existing outputs and aliases of the input (link, symlink, relative names), with another process creating the output meanwhile. World.tla adds histories of commands (random walks replayed with the real program). One finding in a dependency is listed as known.",
 "C14": "As C12 for the exit status: all situations and a fault at each operation; plus command lines over the full vocabulary and in all spellings (Spell.tla), and World.tla's histories of commands.",
 "C15": "As C12 for file modes: every umask and existing mode in the model, observed at every system call of the real program.",
 "C16": "TLC checks the format's layouts (field orders, end styles, documents); an independent implementation writes all layouts for the real code to read and reads what the real code writes; fixtures of the released version.",
 "C17": "TLC enumerates authorized_keys contents and recipient arguments; the real program is run on each and the set of keys that can open its output is compared with the set named.",
 "C18": "TLC compares what a line means (declarative) with the scanner on all token strings within the bounds; each is parsed by the real code.",
 "C19": "TLC explores all partitions within the bounds with and without faults; each run on the real stream reader and writer and judged in TLC; plus long random partitions.",
 "C20": "TLC finds conflicting unordered accesses in all pairs and triples of operations and all ways of sharing; each combination is run on the real code under the Go race detector and its results compared with those of a run alone. Schedules are those the Go runtime produces, and (Interleave.tla) all turns at I/O calls with a bounded number of switches.",
 "C21": "TLC checks which random values each operation draws with sources that deliver in pieces or fail; on the real code crypto/rand.Reader is replaced and every bit of the stream flipped to see what depends on it.",
 "C22": "TLC enumerates command, key form, passphrase channel and passphrase; the real program runs each on a pseudo-terminal of the harness.",
 "C23": "TLC computes a Dolev-Yao closure for every set of compromised keys; on real files every string an outsider can derive is tried in every role, random fields are compared under a fixed random stream, and program runs are searched for canaries. Absence of leaks is shown only for the derivations tried.",
 "C24": "TLC explores all deliveries and requests within the bounds and checks that only one block is held back; each is run on the real code with sources that deliver in pieces and destinations that note what has arrived; live memory is measured at several block sizes and lengths, the program with pipes.",
 "C25": "TLC explores all operations with every cause of failure, repeated; each is repeated on the real code with garbage collection off, and descriptors, mappings, goroutines, names and Close calls are counted. Causes of failure are those the harness can arrange from outside.",
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup", "checks": [], "not_applicable": []}
tech = getattr(checks, "TECH", {})
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "env VERIF_TIER=thorough bin/check " + i,
            "technique": tech.get(i, "TLA+ specification model-checked with TLC; behaviours replayed on the real code"),
            "level": "model_checking", "level_note": NOTE.get(i, "See DESIGN.md.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check still being built")})
m["notes"] = "Language: TLA+ with TLC. No hooks in /repo are needed: the checks observe the public API and the program's system calls. VERIF_TIER=thorough selects the depth of the same command."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
