package main

// Runs the real program in the situations Cli.tla generates, under a tracer
// that shows every moment at which it changed something, with faults at every
// system call, and records what was seen for CliTrace.tla to judge.

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/opencoff/sigtool/sign"

	"verifharness/ref"
)

func init() {
	cmds["cli"] = cmdCli
	cmds["cli-child"] = cmdCliChild
}

// Sit is a situation of Cli.tla.
type Sit struct {
	Cmd   string `json:"cmd"`
	Force bool   `json:"force"`
	Dest  string `json:"dest"`
	Out   string `json:"out"`
	Prob  string `json:"prob"`
	Umask string `json:"umask"`
	Inp   string `json:"inp"`
	Size  string `json:"size"`
	Mode  string `json:"mode"`
}

func (s *Sit) String() string {
	v := []string{s.Cmd}
	if s.Force {
		v = append(v, "--overwrite")
	}
	v = append(v, "to "+s.Dest)
	for _, x := range [][3]string{{"output", s.Out, "absent"}, {"case", s.Prob, "none"}, {"umask", s.Umask, "022"}, {"input", s.Inp, "file"}, {"size", s.Size, "many"}, {"input mode", s.Mode, "0600"}} {
		if x[1] != x[2] {
			v = append(v, x[0]+" "+x[1])
		}
	}
	return strings.Join(v, ", ")
}

func (s *Sit) dev() (n int) {
	for _, b := range []bool{s.Force && s.Out == "absent", s.Out != "absent", s.Prob != "none", s.Umask != "022", s.Inp != "file", s.Size != "many", s.Mode != "0600",
		s.Dest == "stdout" || s.Dest == "default" || s.Dest == "quiet" || (s.Cmd == "test" && s.Dest == "file")} {
		if b {
			n++
		}
	}
	return
}

// CliC is the command as the rules see it.
type CliC struct {
	Cmd   string `json:"cmd"`
	Force bool   `json:"force"`
	Had   bool   `json:"had"`
	Had2  bool   `json:"had2"`
	Self  bool   `json:"self"`
	Fault string `json:"fault"`
	Good  bool   `json:"good"`
}

// CliCase is what TLC prints.
type CliCase struct {
	S    Sit    `json:"s"`
	C    CliC   `json:"c"`
	St   string `json:"st"`
	Out  string `json:"out"`
	Out2 string `json:"out2"`
	Done bool   `json:"done"`
}

// CliObs is one observation.
type CliObs struct {
	Out    string `json:"out"`
	Out2   string `json:"out2"`
	Inp    string `json:"inp"`
	Others string `json:"others"`
	Wide   bool   `json:"wide"`
	Temps  int    `json:"temps"`
	Done   bool   `json:"done"`
	St     string `json:"st"`
}

type cliWorld struct {
	e       *Env
	r, x, s *Party
	files   map[string][]byte // key files
	pts     map[string][]byte
	enc     map[string][]byte // encrypted inputs by kind
	traced  bool
}

func newCliWorld(e *Env) *cliWorld {
	w := &cliWorld{e: e, r: detParty("r"), x: detParty("x"), s: detParty("s"), enc: map[string][]byte{}, traced: CanTrace()}
	if !w.traced {
		e.R.Note("no tracing of child processes here: only final states are judged")
	}
	w.files = map[string][]byte{
		"r.key":  ref.MakePriv(w.r.Ed, nil, "r", 2, 1, 1).Bytes(),
		"rp.key": ref.MakePriv(w.r.Ed, []byte("secret"), "r", 2, 1, 1).Bytes(),
		"x.key":  ref.MakePriv(w.x.Ed, nil, "x", 2, 1, 1).Bytes(),
		"s.key":  ref.MakePriv(w.s.Ed, nil, "s", 2, 1, 1).Bytes(),
		"sp.key": ref.MakePriv(w.s.Ed, []byte("secret"), "s", 2, 1, 1).Bytes(),
		"r.pub":  ref.MakePub(w.r.EdPK, "r"),
		"x.pub":  ref.MakePub(w.x.EdPK, "x"),
		"s.pub":  ref.MakePub(w.s.EdPK, "s"),
	}
	r := Rng(1, "cli")
	w.pts = map[string][]byte{"empty": {}, "one": bytesOf(r, 100), "many": bytesOf(r, 2500), "big": bytesOf(r, 300000)}
	return w
}

// cipher makes an encrypted input.
func (w *cliWorld) cipher(size string, signed bool) []byte {
	k := fmt.Sprint(size, signed)
	if b, ok := w.enc[k]; ok {
		return b
	}
	sp := ref.Spec{Chunk: 1024, To: []ed25519.PublicKey{w.x.EdPK, w.r.EdPK}, EmptyLast: true}
	sp.To = []ed25519.PublicKey{w.s.EdPK, w.r.EdPK}
	if size == "big" {
		sp.Chunk = 131072
	}
	if signed {
		sp.Sender = w.s.Ed
	}
	b, _, err := ref.Encrypt(sp, w.pts[size])
	if err != nil {
		panic(err)
	}
	w.enc[k] = b
	return b
}

type fileState struct {
	ino    uint64
	mode   os.FileMode
	size   int64
	target string
	sum    [32]byte
}

// cliRun is one prepared run.
type cliRun struct {
	w                *cliWorld
	c                *CliCase
	dir              string // holds everything
	bin              string // what to run
	cwd              string
	args, env        []string
	stdin            *os.File
	outName, out2    string // relative to cwd
	inName           string
	first            map[string]fileState
	inos             map[uint64]bool
	full             func(b []byte) bool
	pw               []byte
	pt               []byte
	kindIn           string
	inBytes          []byte
	lastOut          [32]byte
	lastFull         bool
	outside, litters map[string]bool
}

func (u *cliRun) p(n string) string { return filepath.Join(u.cwd, n) }

func (u *cliRun) snap() map[string]fileState {
	m := map[string]fileState{}
	var walk func(rel string)
	walk = func(rel string) {
		es, err := os.ReadDir(u.p(rel))
		if err != nil {
			return
		}
		for _, x := range es {
			n := filepath.Join(rel, x.Name())
			fi, err := os.Lstat(u.p(n))
			if err != nil {
				continue
			}
			st := fi.Sys().(*syscall.Stat_t)
			f := fileState{ino: st.Ino, mode: fi.Mode(), size: fi.Size()}
			switch {
			case fi.Mode().IsRegular():
				b, _ := os.ReadFile(u.p(n))
				f.sum = sha256.Sum256(b)
			case fi.Mode()&os.ModeSymlink != 0:
				f.target, _ = os.Readlink(u.p(n))
			case fi.IsDir():
				f.size = 0
			}
			m[n] = f
			if fi.IsDir() {
				walk(n)
			}
		}
	}
	walk("")
	return m
}

// look says what an output name refers to now.
func (u *cliRun) look(m map[string]fileState, n string, full func([]byte) bool) string {
	a, was := u.first[n]
	b, is := m[n]
	if was == is && (!is || a == b) {
		return "before"
	}
	if !is || !b.mode.IsRegular() {
		return "other"
	}
	if u.lastOut != b.sum || n == u.out2 {
		d, err := os.ReadFile(u.p(n))
		if err != nil {
			return "other"
		}
		f := full(d)
		if n == u.out2 {
			if f {
				return "full"
			}
			return "other"
		}
		u.lastOut, u.lastFull = b.sum, f
	}
	if u.lastFull {
		return "full"
	}
	return "other"
}

func (u *cliRun) obs(st string) CliObs {
	m := u.snap()
	o := CliObs{Out: "before", Out2: "before", Inp: "same", Others: "same", St: st}
	if u.outName != "" {
		o.Out = u.look(m, u.outName, u.full)
	}
	if u.out2 != "" {
		o.Out2 = u.look(m, u.out2, func(b []byte) bool {
			_, _, err := ref.OpenPub(b)
			return err == nil && bytes.HasSuffix(b, []byte("\n"))
		})
	}
	if m[u.inName] != u.first[u.inName] {
		o.Inp = "changed"
	}
	secret := u.c.S.Cmd == "enc" || u.c.S.Cmd == "dec" || u.c.S.Cmd == "gen" || u.c.S.Cmd == "test" || u.c.S.Cmd == "savesk"
	for n, f := range m {
		a, was := u.first[n]
		if n != u.outName && n != u.out2 && n != u.inName {
			if !was {
				o.Temps++
			} else if a != f {
				o.Others = "changed"
			}
		}
		if secret && f.mode.Perm()&0077 != 0 && (f.mode.IsRegular()) && (!was || a != f) && !(u.c.S.Cmd == "gen" && strings.HasPrefix(n, u.out2)) {
			o.Wide = true
		}
	}
	for n := range u.first {
		if _, ok := m[n]; !ok && n != u.outName && n != u.out2 && n != u.inName {
			o.Others = "changed"
		}
	}
	for n := range u.litters {
		if fi, err := os.Lstat(n); err == nil {
			o.Temps++
			if secret && fi.Mode().Perm()&0077 != 0 && fi.Mode().IsRegular() {
				o.Wide = true
			}
		}
	}
	return o
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// prepare sets up the files of a situation.
func (w *cliWorld) prepare(c *CliCase, dir string) *cliRun {
	s := &c.S
	u := &cliRun{w: w, c: c, dir: dir, bin: w.e.Bin, cwd: filepath.Join(dir, "w"), inName: "in", litters: map[string]bool{}}
	infile := "in"
	switch s.Inp {
	case "nshort":
		u.inName, infile = "a", "a"
	case "nodd":
		u.inName = "a %sb\n\xffbob@host"
		infile = u.inName
	case "ndash":
		u.inName, infile = "-", "./-"
	case "nabs":
		infile = u.p(u.inName)
	case "stdin", "nofile":
		infile = "-"
	}
	must(os.MkdirAll(u.p("home/.ssh"), 0700))
	must(os.MkdirAll(u.p("tmpd"), 0700))
	for n, b := range w.files {
		must(os.WriteFile(u.p(n), b, 0600))
	}
	u.env = []string{"HOME=" + u.p("home"), "TMPDIR=" + u.p("tmpd"), "PATH=/usr/bin:/bin", "PW=secret", "BADPW=wrong", "GOTRACEBACK=all", "GOMAXPROCS=2"}
	auth := "# keys\nssh-ed25519 " + ref.B64(ref.SSHBlob("ssh-ed25519", w.x.EdPK)) + " x@host\n" + ref.SSHPub(w.r.EdPK, "bob@host") + "\n"
	if s.Prob == "badauth" {
		must(os.Mkdir(u.p("home/.ssh/authorized_keys"), 0700))
	} else {
		must(os.WriteFile(u.p("home/.ssh/authorized_keys"), []byte(auth), 0600))
	}
	pt := w.pts[s.Size]
	u.pt = pt
	u.inBytes = pt
	if s.Cmd == "dec" || s.Cmd == "test" {
		signed := s.Prob == "signed" || s.Prob == "nodemand" || s.Prob == "wrongsender" || s.Prob == "stamperfirst" || s.Prob == "stamperlast" || s.Prob == "scutlast"
		b := append([]byte(nil), w.cipher(s.Size, signed)...)
		f, err := ref.Split(b)
		must(err)
		hl := len(f.H.Bytes())
		switch s.Prob {
		case "tamperfirst", "stamperfirst":
			b[hl+4+7] ^= 1
		case "tamperlast", "stamperlast":
			l := f.Segs[len(f.Segs)-1]
			b[len(b)-len(f.Trl)-len(f.Tail)-len(l.Box)+3] ^= 1
		case "cutfirst":
			b = b[:hl+4+30]
		case "cutlast", "scutlast":
			b = b[:len(b)-len(f.Trl)-len(f.Tail)-5]
		case "cuthdr":
			b = b[:hl-20]
		case "emptyin":
			b = nil
		}
		u.inBytes = b
	}
	mode := os.FileMode(0600)
	if s.Mode == "0666" {
		mode = 0666
	}
	switch {
	case s.Prob == "nosuchin":
	case s.Prob == "dirin":
		must(os.Mkdir(u.p(u.inName), 0700))
	case s.Inp != "fifo" && s.Inp != "slow":
		must(os.WriteFile(u.p(u.inName), u.inBytes, mode))
		must(os.Chmod(u.p(u.inName), mode))
	default:
		must(syscall.Mkfifo(u.p(u.inName), 0600))
	}
	if s.Inp == "stdin" || s.Inp == "nofile" {
		f, err := os.Open(u.p(u.inName))
		must(err)
		u.stdin = f
	}
	// the output
	out := "out"
	u.outName = "out"
	switch s.Dest {
	case "default":
		out, u.outName = "", u.inName+".sig"
	case "stdout":
		out, u.outName = "-", ""
	case "none", "quiet":
		out, u.outName = "", ""
	}
	put := func(n, b string, m os.FileMode) { must(os.WriteFile(u.p(n), []byte(b), m)); must(os.Chmod(u.p(n), m)) }
	n := u.outName
	switch s.Out {
	case "file":
		put(n, "old content\n", 0600)
	case "wide":
		put(n, strings.Repeat("old and readable\n", 300), 0666)
	case "blank":
		put(n, "", 0600)
	case "link":
		put("tgt", "target\n", 0644)
		must(os.Symlink("tgt", u.p(n)))
	case "dangling":
		must(os.Symlink("nowhere/x", u.p(n)))
	case "dir":
		must(os.Mkdir(u.p(n), 0700))
		put(n+"/keep", "x", 0600)
	case "fifo":
		must(syscall.Mkfifo(u.p(n), 0600))
	case "self":
		out, u.outName = "in", "in"
	case "selfabs":
		out, u.outName = u.p(u.inName), "in"
	case "selfdot":
		out, u.outName = "./home/../in", "in"
	case "hard":
		must(os.Link(u.p(u.inName), u.p(n)))
	case "symin":
		must(os.Symlink("in", u.p(n)))
	case "dirlink":
		must(os.Symlink(".", u.p("dl")))
		out, u.outName = "dl/in", "in"
	case "key", "pub", "both", "keydang", "pubdang", "keydir", "pubdir":
		for _, x := range []string{"key", "pub"} {
			switch {
			case s.Out == x || s.Out == "both":
				put("k."+x, "old "+x+"\n", 0644)
			case s.Out == x+"dang":
				must(os.Symlink("gone/k", u.p("k."+x)))
			case s.Out == x+"dir":
				must(os.Mkdir(u.p("k."+x), 0700))
			}
		}
	}
	a := []string{}
	add := func(v ...string) { a = append(a, v...) }
	if s.Force {
		add("--overwrite")
	}
	if out != "" && (s.Dest != "stdout" || s.Cmd == "sign") {
		if s.Cmd != "gen" {
			add("-o", out)
		}
	}
	key := func(plain, pw string) string {
		switch s.Prob {
		case "pw":
			add("-E", "PW")
			return pw
		case "badpw":
			add("-E", "BADPW")
			return pw
		case "nokey":
			add("--no-password")
			return "missing.key"
		}
		add("--no-password")
		return plain
	}
	switch s.Cmd {
	case "gen":
		u.outName, u.out2 = "k.key", "k.pub"
		add("-c", "a comment", "-E", "PW")
		u.pw = []byte("secret")
		if s.Prob == "nodir" {
			add("nodir/k")
		} else {
			add(prefixOf("k", fmt.Sprint(s, w.e.Seed)))
		}
		u.full = looksPriv
	case "sign":
		k := key("r.key", "rp.key")
		if s.Prob == "notkey" {
			k = "r.pub"
		}
		add(k, infile)
		u.full = func(b []byte) bool {
			sig, hint, _, err := ref.OpenSig(b)
			return err == nil && ref.VerifyMsg(w.r.EdPK, ref.FileDigest(u.inBytes), sig) && bytes.Equal(hint, ref.PKHash(w.r.EdPK)) && bytes.HasSuffix(b, []byte("\n"))
		}
	case "verify":
		if s.Dest == "quiet" {
			add("-q")
		}
		sig := ref.MakeSig(w.r.Ed, ref.FileDigest(u.inBytes), "in")
		if s.Prob == "otherkey" {
			sig = ref.MakeSig(w.x.Ed, ref.FileDigest(u.inBytes), "in")
		}
		if s.Prob == "badsig" {
			b, h, _, err := ref.OpenSig(sig)
			must(err)
			b[5] ^= 4
			sig = sigYAML(b, h)
		}
		if s.Prob == "badhint" {
			b, h, _, err := ref.OpenSig(sig)
			must(err)
			h[len(h)-1] ^= 1
			sig = sigYAML(b, h)
		}
		if s.Prob != "nosig" {
			put("m.sig", string(sig), 0600)
		}
		if s.Prob == "altered" || s.Prob == "longer" {
			b := append([]byte(nil), u.inBytes...)
			if s.Prob == "longer" || len(b) == 0 {
				b = append(b, 'x')
			} else {
				b[len(b)/2] ^= 1
			}
			u.inBytes = b
			if s.Inp != "fifo" {
				put(u.inName, string(b), mode)
			}
		}
		pk := "r.pub"
		// a key string wins over a file of that name
		shadow := func(q *Party) {
			must(os.MkdirAll(filepath.Dir(u.p(pk)), 0700))
			put(pk, string(ref.MakePub(q.EdPK, "")), 0600)
		}
		switch s.Prob {
		case "string":
			pk = ref.B64(w.r.EdPK)
		case "sshstring":
			pk = ref.B64(ref.SSHBlob("ssh-ed25519", w.r.EdPK))
		case "shadow":
			pk = ref.B64(w.r.EdPK)
			shadow(w.x)
		case "badshadow":
			pk = ref.B64(w.x.EdPK)
			shadow(w.r)
		}
		if s.Prob == "nokey" {
			pk = "missing.pub"
		}
		add(pk, "m.sig", infile)
	case "enc":
		if s.Size != "big" {
			add("-B", "1k")
		}
		to := []ed25519.PrivateKey{w.r.Ed}
		var snd ed25519.PublicKey
		switch s.Prob {
		case "signed":
			add("--no-password", "-s", "s.key")
			snd = w.s.EdPK
		case "nosender":
			add("--no-password", "-s", "missing.key")
		case "badpw":
			add("-E", "BADPW", "-s", "sp.key")
		case "badblock":
			add("-B", "12Q")
		}
		switch s.Prob {
		case "user":
			add("bob@host")
		case "two":
			add("x.pub", "bob@host")
			to = append(to, w.x.Ed)
		case "norecip":
			add("missing.pub")
		case "baduser":
			add("bob@hos")
		case "badsecond":
			add("r.pub", "alice@host")
		case "norecips":
		default:
			add("r.pub")
		}
		add(infile)
		u.full = func(b []byte) bool {
			f, err := ref.Split(b)
			if err != nil || len(f.H.Keys) != len(to) || len(f.Tail) != 0 {
				return false
			}
			for _, k := range to {
				i, err := ref.Decrypt(b, k, snd)
				if err != nil || !bytes.Equal(i.Plain, pt) || (snd != nil) != i.Signed {
					return false
				}
			}
			return true
		}
	case "dec", "test":
		if s.Cmd == "test" {
			add("-t")
		}
		switch s.Prob {
		case "signed", "demand", "stamperfirst", "stamperlast", "scutlast":
			add("-v", "s.pub")
		case "wrongsender":
			add("-v", "x.pub")
		case "nosender":
			add("-v", "missing.pub")
		}
		k := key("r.key", "rp.key")
		if s.Prob == "wrongkey" {
			k = "x.key"
		}
		if add(k); s.Inp != "nofile" {
			add(infile)
		}
		u.full = func(b []byte) bool { return bytes.Equal(b, pt) }
	}
	if u.isSave() {
		self, err := os.Executable()
		must(err)
		u.bin = self
		if s.Prob == "nodir" {
			out = "nodir/" + out
		}
		switch s.Cmd {
		case "savesk":
			u.pw = []byte("secret")
			u.full = looksPriv
		case "savepk":
			u.full = func(b []byte) bool {
				pk, com, err := ref.OpenPub(b)
				return err == nil && bytes.Equal(pk, w.r.EdPK) && com == "a comment" && bytes.HasSuffix(b, []byte("\n"))
			}
		case "savesig":
			u.full = func(b []byte) bool {
				sig, hint, com, err := ref.OpenSig(b)
				return err == nil && ref.VerifyMsg(w.r.EdPK, savedDigest(), sig) && bytes.Equal(hint, ref.PKHash(w.r.EdPK)) && com == "a comment" && bytes.HasSuffix(b, []byte("\n"))
			}
		}
		u.args = []string{"serialize", s.Cmd, out, fmt.Sprint(s.Force)}
		u.first = u.snap()
		return u
	}
	u.args = append([]string{map[string]string{"gen": "generate", "sign": "sign", "verify": "verify", "enc": "encrypt", "dec": "decrypt", "test": "decrypt"}[s.Cmd]}, a...)
	u.first = u.snap()
	return u
}

// prefixOf spells the prefix of the key files in one of the ways that denote
// the same two files; which one depends on the situation.
func prefixOf(n, situation string) string {
	return []string{n, "./" + n, n + "/", "./nosuch/../" + n, "././/" + n}[int(crc32.ChecksumIEEE([]byte(situation))%5)]
}

func looksPriv(b []byte) bool {
	y := string(b)
	for _, f := range []string{"esk:", "salt:", "algo:", "Z:", "r:", "p:"} {
		if !strings.Contains("\n"+y, "\n"+f+" ") {
			return false
		}
	}
	return strings.HasSuffix(y, "\n")
}

// isSave: not a command but the library's Serialize.
func (u *cliRun) isSave() bool { return strings.HasPrefix(u.c.S.Cmd, "save") }

func savedDigest() []byte { d := sha256.Sum256([]byte("what is signed")); return d[:] }

// serialize is what this program does instead of its usual work when it runs
// as the traced user of the library's Serialize.
func serialize(a []string) int {
	r := detParty("r")
	force := a[2] == "true"
	var err error
	switch a[0] {
	case "savesk":
		err = r.SK.Serialize(a[1], "a comment", force, []byte("secret"))
	case "savepk":
		err = r.PK.Serialize(a[1], "a comment", force)
	case "savesig":
		var sig *sign.Signature
		if sig, err = r.SK.SignMessage(savedDigest(), ""); err == nil {
			err = sig.Serialize(a[1], "a comment", force)
		}
	default:
		return 2
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	return 0
}

func (u *cliRun) role(p string) string {
	rel, err := filepath.Rel(u.cwd, p)
	if err != nil || strings.HasPrefix(rel, "..") {
		return "outside"
	}
	switch b := filepath.Base(rel); {
	case rel == u.inName:
		return "in"
	case u.outName != "" && rel == u.outName:
		return "out"
	case u.out2 != "" && rel == u.out2:
		return "out2"
	case strings.HasPrefix(rel, "home"):
		return "auth"
	case b == "r.key" || b == "rp.key" || b == "s.key" || b == "sp.key" || b == "x.key":
		return "key"
	case strings.HasSuffix(b, ".pub") && b != "k.pub":
		return "pub"
	case b == "m.sig":
		return "sig"
	case u.out2 != "" && strings.HasPrefix(rel, u.out2):
		return "tmp2"
	case u.outName != "" && strings.HasPrefix(rel, u.outName):
		return "tmp"
	}
	return "other"
}

// CliTraceRec is one judged run.
type CliTraceRec struct {
	Key  string   `json:"key"`
	C    CliC     `json:"c"`
	Ev   []CliObs `json:"ev"`
	Desc []string `json:"desc"`
}

// run executes the program once.
func (w *cliWorld) run(c *CliCase, plans []*Plan) (rec *CliTraceRec, tr *Trace, err error) {
	dir, err := os.MkdirTemp(w.e.Work, "r")
	if err != nil {
		return nil, nil, err
	}
	defer os.RemoveAll(dir)
	u := w.prepare(c, dir)
	if u.stdin != nil {
		defer u.stdin.Close()
	}
	done := func() {}
	if c.S.Inp == "fifo" || c.S.Inp == "slow" {
		done = feedFifo(u.p("in"), u.inBytes, c.S.Inp == "slow")
	}
	open := func(n string, fl int) *os.File {
		f, err := os.OpenFile(n, fl, 0600)
		must(err)
		return f
	}
	stdout, stderr, null := open(filepath.Join(dir, "stdout"), os.O_CREATE|os.O_RDWR), open(filepath.Join(dir, "stderr"), os.O_CREATE|os.O_RDWR), open("/dev/null", os.O_RDWR)
	defer stdout.Close()
	defer stderr.Close()
	defer null.Close()
	in := null
	if u.stdin != nil {
		in = u.stdin
	}
	um := map[string]int{"022": 022, "0": 0, "077": 077}[c.S.Umask]
	rec = &CliTraceRec{C: c.C}
	put := func(o CliObs) {
		if n := len(rec.Ev); n == 0 || rec.Ev[n-1] != o {
			rec.Ev = append(rec.Ev, o)
		}
	}
	for _, p := range plans {
		if p.Kind == "appear" {
			p.Do = func() {
				f, err := os.OpenFile(u.p(u.outName), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0600)
				if err != nil {
					return
				}
				f.WriteString("precious\n")
				f.Close()
				u.first = merged(u.first, u.snap(), u.outName)
				rec.C.Had, rec.C.Good = true, rec.C.Good && rec.C.Force
			}
		}
	}
	tr, err = w.exec(u.bin, u.args, u.cwd, u.env, [3]*os.File{in, stdout, stderr}, um, plans, u.role, func(k *Call) {
		if k.Role == "outside" && k.Ret >= 0 && (k.Op == "create" || k.Op == "mkdir" || k.Op == "link" || k.Op == "symlink") && !strings.HasPrefix(k.Path, "/dev/") {
			u.litters[k.Path] = true
		}
		put(u.obs("run"))
	})
	done()
	if err != nil {
		return nil, nil, err
	}
	var kinds []string
	errAt := ""
	killed := false
	for _, p := range plans {
		kinds = append(kinds, p.String())
		if p.Kind == "kill" {
			killed = true
		}
		if p.Kind == "error" && p.Errno != syscall.EINTR && tr.Hits > 0 {
			errAt = p.Op + ":" + p.Role
		}
	}
	fault := "none"
	if tr.Hits > 0 {
		switch {
		case plans[0].Kind == "appear":
			fault = "appear"
		case errAt != "":
			fault = errAt
			for _, p := range plans {
				if p.Op == "unlink" {
					fault = "unlink"
				}
			}
		case killed:
			fault = "kill"
		}
	}
	rec.C.Fault = fault
	st := "nonzero"
	switch {
	case killed && tr.Hits > 0 && tr.Code == 128+9:
		st = "killed"
	case tr.Code == 0:
		st = "zero"
	}
	o := u.obs(st)
	if st == "zero" {
		o.Done = w.done(u, &o, stdout, errAt)
	}
	put(o)
	serr, _ := os.ReadFile(stderr.Name())
	cmdline := map[bool]string{true: "", false: "sigtool "}[u.isSave()] + strings.Join(u.args, " ")
	rec.Desc = []string{c.S.String(), cmdline, strings.Join(kinds, " and "), fmt.Sprintf("exit %d", tr.Code), "stderr: " + strings.TrimSpace(string(headBytes(serr, 200)))}
	if tr.Hung {
		rec.Desc = append(rec.Desc, "did not end within 60 s")
	}
	return rec, tr, nil
}

// merged is a with b's entry for n.
func merged(a, b map[string]fileState, n string) map[string]fileState {
	m := map[string]fileState{}
	for k, v := range a {
		m[k] = v
	}
	m[n] = b[n]
	return m
}

// exec runs the program, traced if possible.
func (w *cliWorld) exec(bin string, args []string, dir string, env []string, files [3]*os.File, umask int, plans []*Plan, role func(string) string, obs func(*Call)) (*Trace, error) {
	if w.traced {
		return RunTraced(bin, args, dir, env, files, umask, plans, role, obs)
	}
	old := syscall.Umask(umask)
	c := exec.Command(bin, args...)
	c.Dir, c.Env, c.Stdin, c.Stdout, c.Stderr = dir, env, files[0], files[1], files[2]
	err := c.Start()
	syscall.Umask(old)
	if err != nil {
		return nil, err
	}
	tm := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	defer tm.Stop()
	c.Wait()
	t := &Trace{Code: c.ProcessState.ExitCode()}
	if ws := c.ProcessState.Sys().(syscall.WaitStatus); ws.Signaled() {
		t.Code = 128 + int(ws.Signal())
	}
	return t, nil
}

func headBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func (w *cliWorld) done(u *cliRun, o *CliObs, stdout *os.File, errAt string) bool {
	switch u.c.S.Cmd {
	case "gen":
		if o.Out != "full" || o.Out2 != "full" {
			return false
		}
		kb, _ := os.ReadFile(u.p("k.key"))
		pb, _ := os.ReadFile(u.p("k.pub"))
		sk, com, err := ref.OpenPriv(kb, u.pw)
		if err != nil {
			return false
		}
		pk, com2, err := ref.OpenPub(pb)
		return err == nil && bytes.Equal(pk, sk.Public().(ed25519.PublicKey)) && com == "a comment" && com2 == "a comment"
	case "savesk":
		b, _ := os.ReadFile(u.p(u.outName))
		sk, com, err := ref.OpenPriv(b, u.pw)
		return o.Out == "full" && err == nil && bytes.Equal(sk, w.r.Ed) && com == "a comment"
	case "verify", "test":
		switch errAt {
		case "read:in", "open:in", "read:key", "open:key", "read:sig", "open:sig", "read:stdin":
			return false
		}
		return u.c.C.Good
	}
	if u.c.S.Dest == "stdout" {
		b, err := os.ReadFile(stdout.Name())
		return err == nil && u.full(b)
	}
	return o.Out == "full"
}

// feedFifo writes content to a FIFO for whoever opens it.
func feedFifo(path string, b []byte, slow bool) (done func()) {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		f, err := os.OpenFile(path, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		step := 65536
		if slow {
			step = max(100, len(b)/9)
		}
		for len(b) > 0 {
			n := min(len(b), step)
			if _, err := f.Write(b[:n]); err != nil {
				break
			}
			b = b[n:]
			if slow {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	return func() {
		if f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
			select {
			case <-ch:
			case <-time.After(20 * time.Millisecond):
				io.Copy(io.Discard, f)
			}
			f.Close()
		}
		<-ch
	}
}

var errnos = map[string][]syscall.Errno{
	"create": {syscall.EACCES, syscall.ENOSPC}, "open": {syscall.EACCES}, "read": {syscall.EIO}, "write": {syscall.ENOSPC}, "close": {syscall.EIO}, "sync": {syscall.EIO},
	"rename": {syscall.EACCES}, "mmap": {syscall.ENOMEM}, "stat": {syscall.EACCES}, "unlink": {syscall.EACCES}, "chmod": {syscall.EPERM}, "link": {syscall.EPERM},
	"trunc": {syscall.EIO}, "copy": {syscall.EIO}, "symlink": {syscall.EACCES}, "mkdir": {syscall.EACCES},
}

// plansFor lists the faults to try after a clean run.
func plansFor(s *Sit, tr *Trace, kinds map[string]bool, all bool, r *rand.Rand) (v [][]*Plan) {
	self := s.Out == "self" || s.Out == "selfabs" || s.Out == "selfdot" || s.Out == "hard" || s.Out == "symin" || s.Out == "dirlink"
	seen := map[string]int{}
	for i := range tr.Calls {
		c := &tr.Calls[i]
		if c.Role == "sys" || c.Role == "stderr" || c.Role == "outside" || (c.Op == "stat" && self) {
			continue
		}
		// long runs of the same call: the first, the last and a few between
		k := c.Op + c.Role
		seen[k]++
		if n := seen[k]; !all && n > 4 && r.Intn(n) > 2 {
			continue
		}
		mk := func(kind string, e syscall.Errno) []*Plan {
			return []*Plan{{Op: c.Op, Role: c.Role, Nth: c.Nth, Kind: kind, Errno: e}}
		}
		if kinds["error"] {
			es := errnos[c.Op]
			if !all && len(es) > 1 {
				es = es[:1]
			}
			for _, e := range es {
				v = append(v, mk("error", e))
			}
		}
		if kinds["kill"] && (mutates(c.Op) || c.Op == "sync") {
			v = append(v, mk("kill", 0))
		}
		if kinds["short"] && (c.Op == "read" || c.Op == "write") && c.Ret > 1 {
			v = append(v, mk("short", 0))
		}
		if kinds["intr"] && (c.Op == "read" || c.Op == "write" || c.Op == "open" || c.Op == "sync") {
			v = append(v, mk("error", syscall.EINTR))
		}
		if kinds["appear"] && s.Out == "absent" && s.Dest == "file" && s.Cmd != "test" && s.Cmd != "verify" {
			v = append(v, mk("appear", 0))
		}
		if kinds["two"] && mutates(c.Op) && c.Op != "unlink" {
			e := errnos[c.Op][0]
			v = append(v, []*Plan{{Op: c.Op, Role: c.Role, Nth: c.Nth, Kind: "error", Errno: e}, {Op: "unlink", Role: "tmp", Nth: 1, Kind: "error", Errno: syscall.EACCES}})
		}
	}
	return
}

// early: the program has not even looked whether there is an output.
func early(tr *Trace, p *Plan) bool {
	for _, c := range tr.Calls {
		if c.Op == p.Op && c.Role == p.Role && c.Nth == p.Nth {
			return true
		}
		if c.Role == "out" {
			return false
		}
	}
	return false
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Split(s, "+") {
		m[x] = true
	}
	return m
}

func cmdCliChild(e *Env) error {
	cases, err := AllCases[CliCase](e.Cases)
	if err != nil {
		return err
	}
	num := func(k string) int { var n int; fmt.Sscan(e.Extra[k], &n); return n }
	from, step := num("from"), num("step")
	w := newCliWorld(e)
	out, err := os.Create(e.Extra["recs"])
	if err != nil {
		return err
	}
	defer out.Close()
	enc := json.NewEncoder(out)
	kinds := set(e.Extra["faults"])
	fdev := num("fdev")
	seen := map[string]bool{}
	emit := func(rec *CliTraceRec) error {
		k, _ := json.Marshal([]any{rec.Key, rec.C, rec.Ev})
		e.R.Exec(1)
		if seen[string(k)] {
			return nil
		}
		seen[string(k)] = true
		return enc.Encode(rec)
	}
	for i, c := range cases {
		slow := c.S.Cmd == "gen" || c.S.Cmd == "savesk"
		shared := slow && e.Extra["faults"] != "" && (c.S.dev() == 0 || c.S.Force && c.S.Out == "both" && c.S.dev() == 1)
		if i%step != from && !shared {
			continue
		}
		if e.Late() {
			e.R.Count("skipped_out_of_time")
			break
		}
		rec, tr, err := w.run(c, nil)
		if err != nil {
			return err
		}
		if i%step == from {
			e.R.Trace()
			e.R.Count("situations_" + c.S.Cmd)
		}
		if err := emit(rec); err != nil {
			return err
		}
		l := rec.Ev[len(rec.Ev)-1]
		if l.St != c.St || l.Out != c.Out || l.Out2 != c.Out2 {
			e.R.Count("model_differs")
			e.R.Note("the specification says %s/%s/%s, the program %s/%s/%s: %s", c.St, c.Out, c.Out2, l.St, l.Out, l.Out2, strings.Join(rec.Desc, "; "))
		}
		if e.Extra["faults"] == "" || c.S.dev() > fdev && !shared || (slow && !shared) {
			continue
		}
		for j, ps := range plansFor(&c.S, tr, kinds, e.Thorough(), Rng(e.Seed, "cli", i)) {
			if shared && (j+i)%step != from {
				continue
			}
			if e.Late() {
				e.R.Count("skipped_out_of_time")
				break
			}
			rec, t, err := w.run(c, ps)
			if err != nil {
				return err
			}
			if ps[0].Kind == "appear" {
				if rec.Key = "race-late"; early(tr, ps[0]) {
					rec.Key = "race-early"
				}
			}
			if t.Hits == 0 {
				e.R.Count("fault_not_reached")
			} else {
				e.R.Count("fault_" + ps[0].Kind + "_" + ps[0].Op)
			}
			if err := emit(rec); err != nil {
				return err
			}
		}
	}
	return nil
}

func cmdCli(e *Env) error {
	if runtime.GOARCH != "amd64" {
		return fmt.Errorf("the tracer knows amd64 only")
	}
	self, err := os.Executable()
	if err != nil {
		return err
	}
	n := runtime.NumCPU()
	left := max(1, int(time.Until(e.Until).Seconds())-10)
	var wg sync.WaitGroup
	errs := make([]error, n)
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			work := filepath.Join(e.Work, fmt.Sprint("c", k))
			errs[k] = os.MkdirAll(work, 0700)
			out := filepath.Join(e.Work, fmt.Sprint("out", k))
			x := fmt.Sprintf("recs=%s,from=%d,step=%d,faults=%s,fdev=%s", filepath.Join(e.Work, fmt.Sprint("recs", k)), k, n, e.Extra["faults"], e.Extra["fdev"])
			c := exec.Command(self, "cli-child", "-prop", e.Prop, "-cases", e.Cases, "-seed", fmt.Sprint(e.Seed), "-tier", e.Tier, "-out", out,
				"-work", work, "-bin", e.Bin, "-budget", fmt.Sprint(left), "-x", x)
			b, err := c.CombinedOutput()
			if err != nil {
				errs[k] = fmt.Errorf("child %d: %w: %s", k, err, tailOf(string(b)))
				return
			}
			var r Result
			b, err = os.ReadFile(out)
			if err == nil {
				err = json.Unmarshal(b, &r)
			}
			if err != nil {
				errs[k] = err
				return
			}
			e.R.mergeFrom(&r)
		}(k)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	// merge the recorded runs
	f, err := os.Create(e.Extra["traces"])
	if err != nil {
		return err
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	seen := map[string]bool{}
	desc, keys := map[string][]string{}, map[string]string{}
	events, id := 0, 0
	for k := 0; k < n; k++ {
		if err := EachCase(filepath.Join(e.Work, fmt.Sprint("recs", k)), func(_ int, r *CliTraceRec) error {
			b, _ := json.Marshal([]any{r.Key, r.C, r.Ev})
			if seen[string(b)] {
				return nil
			}
			seen[string(b)] = true
			id++
			desc[fmt.Sprint(id)] = r.Desc
			if r.Key != "" {
				keys[fmt.Sprint(id)] = r.Key
			}
			events += len(r.Ev)
			if id <= 3 {
				e.R.Sample(map[string]any{"run": r.Desc, "observations": r.Ev})
			}
			return enc.Encode(map[string]any{"id": id, "c": r.C, "ev": r.Ev})
		}); err != nil {
			return err
		}
	}
	b, err := json.Marshal(map[string]any{"n": id, "events": events, "desc": desc, "keys": keys})
	if err != nil {
		return err
	}
	return os.WriteFile(e.Extra["traces"]+".desc", b, 0600)
}
