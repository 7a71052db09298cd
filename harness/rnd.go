package main

import (
	"bufio"
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"

	"github.com/opencoff/sigtool/sign"
	"gopkg.in/yaml.v2"
	"verifharness/ref"
)

func init() {
	cmds["rand"] = cmdRand
	cmds["randchild"] = cmdRandChild
}

// RandCase is a behaviour of Rand.tla.
type RandCase struct {
	Op    string   `json:"op"`
	K     int      `json:"k"`
	Chunk int      `json:"chunk"`
	Fail  int      `json:"fail"`
	OK    bool     `json:"ok"`
	Runs  int      `json:"runs"`
	Needs [][2]any `json:"needs"`
}

// randSrc stands in for the system's randomness: a fixed stream, in which
// single bits can be flipped, handed out in pieces, and failing at a byte.
type randSrc struct {
	seed  string
	pos   int
	chunk int
	fail  int // byte at which it fails
	flip  int // bit to flip, or -1
	inv   bool
	hit   bool
	block [32]byte
	have  int
}

var errRand = errors.New("harness: no randomness")

func (s *randSrc) at(i int) byte {
	if n := i/32 + 1; s.have != n {
		s.block = sha256.Sum256(binary.BigEndian.AppendUint64([]byte(s.seed), uint64(n)))
		s.have = n
	}
	b := s.block[i%32]
	if s.inv {
		b = ^b
	}
	if s.flip >= 0 && s.flip/8 == i {
		b ^= 1 << uint(s.flip%8)
	}
	return b
}

func (s *randSrc) Read(b []byte) (int, error) {
	n := len(b)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	for i := 0; i < n; i++ {
		if s.fail >= 0 && s.pos >= s.fail {
			s.hit = true
			return i, errRand
		}
		b[i] = s.at(s.pos)
		s.pos++
	}
	return n, nil
}

// randOut is what came out of one operation: its random values, and all bytes.
type randOut struct {
	vals map[string][]byte
	all  []byte
}

type randWorld struct {
	rx [5]*Party
	s  *Party
	pt []byte
	bs uint64
}

// randOp does one operation and finds its random values with the reference.
func (w *randWorld) op(op string, k int) (*randOut, error) {
	o := &randOut{vals: map[string][]byte{}}
	switch op {
	case "enc", "encs", "senc", "sencs":
		var by *Party
		if op[0] == 's' {
			by = w.s
		}
		in := "file"
		if strings.HasSuffix(op, "s") {
			in = "stream"
		}
		b, err := Encrypt(w.bs, by, w.rx[:k], w.pt, in, nil)
		o.all = b
		if err != nil {
			return o, err
		}
		f, err := ref.Split(b)
		if err != nil {
			return o, nil
		}
		o.vals["esk"], o.vals["salt"] = f.H.Pk, f.H.Salt
		for i, x := range f.H.Keys {
			o.vals[fmt.Sprintf("n%d", i+1)] = x.Nonce
		}
		if root := f.H.Unwrap(w.rx[0].Ed); root != nil {
			o.vals["fk"] = root
		}
		if by == nil {
			o.vals["trl"] = f.Trl
		}
	case "newkey":
		err := Guard(func() error {
			sk, err := sign.NewPrivateKey()
			if err == nil {
				o.all = append([]byte(nil), sk.Sk...)
				o.vals["seed"] = o.all[:min(32, len(o.all))]
			}
			return err
		})
		return o, err
	case "save", "save0", "savel":
		err := Guard(func() (err error) {
			var b []byte
			switch op {
			case "save":
				b, err = w.s.SK.MarshalBinary("c", []byte("pw"))
			case "savel":
				b, err = w.s.SK.MarshalBinary(strings.Repeat("long ", 50), bytes.Repeat([]byte("long "), 50))
			case "save0":
				var d string
				if d, err = os.MkdirTemp("", "vf-rand"); err != nil {
					return err
				}
				defer os.RemoveAll(d)
				if err = w.s.SK.Serialize(d+"/k.key", "", false, nil); err == nil {
					b, err = os.ReadFile(d + "/k.key")
				}
			}
			if err != nil {
				return err
			}
			o.all = b
			var y struct {
				Salt string `yaml:"salt"`
			}
			if yaml.Unmarshal(b, &y) == nil {
				if x, err := base64.StdEncoding.DecodeString(y.Salt); err == nil {
					o.vals["ksalt"] = x
				}
			}
			return nil
		})
		return o, err
	}
	return o, nil
}

func (w *randWorld) with(s *randSrc, fn func() error) error {
	old := crand.Reader
	crand.Reader = s
	defer func() { crand.Reader = old }()
	return fn()
}

func (w *randWorld) one(s *randSrc, op string, k int) (o *randOut, err error) {
	err = w.with(s, func() error { o, err = w.op(op, k); return err })
	return
}

var randNames = map[string]string{"esk": "ephemeral key", "fk": "file key", "salt": "salt", "trl": "random trailer", "seed": "private key", "ksalt": "salt of the saved key"}

func randName(v string) string {
	if n := randNames[v]; n != "" {
		return n
	}
	return "nonce of a recipient"
}

// randDeps finds on which random bits each value depends.
func (w *randWorld) deps(e *Env, c *RandCase) {
	desc := fmt.Sprintf("%s to %d recipients", c.Op, c.K)
	if w.bs != 16 {
		desc += fmt.Sprintf(" (block size %d, %d bytes)", w.bs, len(w.pt))
	}
	seed := fmt.Sprint(e.Seed, c.Op, c.K)
	src := func(flip int) *randSrc { return &randSrc{seed: seed, flip: flip, fail: -1, chunk: c.Chunk} }
	a := src(-1)
	base, err := w.one(a, c.Op, c.K)
	if err != nil {
		e.R.Violation("fails/"+c.Op, desc+" fails although the source of randomness works: "+err.Error(), c)
		return
	}
	again, err := w.one(src(-1), c.Op, c.K)
	if err != nil {
		return
	}
	e.R.Exec(2)
	bits := map[string]int{}
	for _, x := range c.Needs {
		v, n := x[0].(string), int(x[1].(float64))
		bits[v] = n * 8
	}
	// the scalar's fixed bits
	if _, ok := bits["esk"]; ok {
		bits["esk"] = 32*8 - 5
	}
	known := 0
	for v := range bits {
		if base.vals[v] == nil {
			e.R.Note("%s: the reference does not find the %s", desc, randName(v))
			continue
		}
		known++
		if !bytes.Equal(base.vals[v], again.vals[v]) {
			e.R.Violation("foreign/"+v, fmt.Sprintf("%s: the %s does not come from the system's randomness alone: it differs when that is the same", desc, randName(v)), c)
		}
	}
	if known == 0 {
		return
	}
	dep := map[string]map[int]bool{}
	for v := range bits {
		dep[v] = map[int]bool{}
	}
	if strings.HasPrefix(c.Op, "save") {
		// too slow for every bit: all of them at once
		s := src(-1)
		s.inv = true
		o, err := w.one(s, c.Op, c.K)
		e.R.Exec(1)
		if err == nil {
			x, y := base.vals["ksalt"], o.vals["ksalt"]
			diff := 0
			for i := 0; i < min(len(x), len(y)); i++ {
				if x[i] != y[i] {
					diff++
				}
			}
			if diff < 26 || a.pos < 32 {
				e.R.Violation("short/ksalt", fmt.Sprintf("saving a private key: only %d bytes of the salt depend on randomness (%d bytes drawn)", diff, a.pos), c)
			}
		}
		return
	}
	for i := 0; i < a.pos*8; i++ {
		o, err := w.one(src(i), c.Op, c.K)
		e.R.Exec(1)
		if err != nil {
			e.R.Note("%s with random bit %d flipped: %v", desc, i, err)
			continue
		}
		for v := range bits {
			if !bytes.Equal(o.vals[v], base.vals[v]) {
				dep[v][i] = true
			}
		}
	}
	pub := map[int]bool{}
	for v := range dep {
		if v != "fk" && v != "esk" && v != "seed" {
			for i := range dep[v] {
				pub[i] = true
			}
		}
	}
	for v, n := range bits {
		if base.vals[v] == nil {
			continue
		}
		if len(dep[v]) < n {
			e.R.Violation("short/"+v, fmt.Sprintf("%s: the %s depends on only %d random bits of %d", desc, randName(v), len(dep[v]), n), c)
			continue
		}
		if v == "fk" || v == "esk" || v == "seed" {
			own := 0
			for i := range dep[v] {
				if !pub[i] {
					own++
				}
			}
			if own < n {
				e.R.Violation("shown/"+v, fmt.Sprintf("%s: only %d random bits of the %s are not shown in the salt, nonces or trailer", desc, own, randName(v)), c)
			}
		}
	}
	if len(dep["fk"]) > 0 && len(dep["esk"]) > 0 {
		both := map[int]bool{}
		for _, v := range []string{"fk", "esk"} {
			for i := range dep[v] {
				both[i] = true
			}
		}
		if len(both) < bits["fk"]+bits["esk"] {
			e.R.Violation("shared/fk", fmt.Sprintf("%s: file key and ephemeral key together depend on only %d random bits", desc, len(both)), c)
		}
	}
	// two values in the open share no randomness
	var open []string
	for v := range dep {
		if v != "fk" && v != "esk" && v != "seed" && base.vals[v] != nil {
			open = append(open, v)
		}
	}
	sort.Strings(open)
	for i, u := range open {
		for _, v := range open[i+1:] {
			same := 0
			for b := range dep[u] {
				if dep[v][b] {
					same++
				}
			}
			if same > 0 {
				e.R.Violation("shared/"+v, fmt.Sprintf("%s: the %s (%s) and the %s (%s) share %d random bits", desc, randName(u), u, randName(v), v, same), c)
			}
		}
	}
	// a second operation takes nothing from what the first one drew
	first := a.pos
	pair := func(flip int) (*randOut, error) {
		s := src(flip)
		var o *randOut
		err := w.with(s, func() (err error) {
			if _, err = w.op(c.Op, c.K); err == nil {
				first = s.pos
				o, err = w.op(c.Op, c.K)
			}
			return err
		})
		return o, err
	}
	b2, err := pair(-1)
	if err != nil {
		return
	}
	for i := 0; i < first; i++ {
		o, err := pair(i*8 + 3)
		e.R.Exec(2)
		if err != nil {
			continue
		}
		for v := range bits {
			if !bytes.Equal(o.vals[v], b2.vals[v]) {
				e.R.Violation("again/"+v, fmt.Sprintf("%s: the %s of a second operation depends on randomness used by the first", desc, randName(v)), c)
			}
		}
	}
	e.R.Count("dependence_analyses")
}

// failing runs a case with a failing or slow source: in a child, since the
// system library ends the process in some cases.
func (w *randWorld) failing(c *RandCase) (ok bool, hit bool, desc string) {
	s := &randSrc{seed: "f", flip: -1, fail: c.Fail, chunk: c.Chunk}
	var err error
	w.with(s, func() error {
		for i := 0; i < c.Runs; i++ {
			if _, err = w.op(c.Op, c.K); err != nil {
				break
			}
		}
		return nil
	})
	return err == nil, s.hit, errStr(err)
}

func newRandWorld() *randWorld {
	w := &randWorld{bs: 16, s: detParty("rand s"), pt: bytesOf(Rng(1, "rand"), 40)}
	for i := range w.rx {
		w.rx[i] = detParty(fmt.Sprint("rand ", i))
	}
	return w
}

// alike tells whether two random values share more bytes than chance allows.
func alike(a, b []byte) bool {
	n := 0
	for i := 0; i < min(len(a), len(b)); i++ {
		if a[i] == b[i] {
			n++
		}
	}
	return n > 7 || len(a) != len(b)
}

// grid looks at the values of files of all sorts of block sizes and lengths:
// no piece of any of them appears anywhere else.
func (w *randWorld) grid(e *Env) {
	s := &randSrc{seed: fmt.Sprint(e.Seed, "grid"), flip: -1, fail: -1}
	seen := map[string]string{}
	r := Rng(e.Seed, "rand grid")
	kmax := 22
	if e.Thorough() {
		kmax = 30
	}
	for k := 0; k <= kmax; k++ {
		for _, bs := range []uint64{1 << k, 1<<k - 1, 1<<k + 1} {
			for j, op := range []string{"enc", "encs", "senc", "sencs"} {
				if k > 20 && (j+k)%4 != 0 {
					continue
				}
				m := *w
				m.bs = bs
				m.pt = bytesOf(r, []int{0, 1, 40, 4096, 65536, 100000}[r.Intn(6)])
				if bs < 16 {
					m.pt = m.pt[:min(len(m.pt), 40)]
				}
				what := fmt.Sprintf("%s of %d bytes with block size %d", op, len(m.pt), bs)
				o, err := m.one(s, op, 1+(j+k+int(bs))%len(w.rx))
				e.R.Exec(1)
				if err != nil {
					e.R.Violation("fails/grid", what+" fails although the source of randomness works: "+err.Error(), nil)
					continue
				}
				for v, x := range o.vals {
					for i := 0; i+8 <= len(x); i++ {
						at := fmt.Sprintf("the %s (%s), byte %d", randName(v), what, i)
						if old, ok := seen[string(x[i:i+8])]; ok {
							e.R.Violation("piece/"+v, fmt.Sprintf("eight bytes of %s are also those of %s", at, old), nil)
							break
						}
						seen[string(x[i:i+8])] = at
					}
				}
				e.R.Count("random_grid")
			}
		}
	}
}

// many looks at the values of operations with many recipients, and of many
// operations one after the other: all are unrelated.
func (w *randWorld) many(e *Env) {
	m := *w
	rx := make([]*Party, 300)
	for i := range rx {
		rx[i] = detParty(fmt.Sprint("rand many ", i))
	}
	s := &randSrc{seed: fmt.Sprint(e.Seed, "many"), flip: -1, fail: -1}
	last := map[string][][]byte{}
	see := func(what, v string, x []byte) {
		if x == nil {
			e.R.Note("%s: the reference does not find the %s", what, randName(v))
			return
		}
		k := fmt.Sprint(randName(v))
		for i, y := range last[k] {
			if alike(x, y) {
				e.R.Violation("again/"+k, fmt.Sprintf("%s: %s %d repeats bytes of number %d: %x, %x", what, k, len(last[k])+1, i+1, x, y), nil)
				break
			}
		}
		last[k] = append(last[k], x)
	}
	for _, k := range []int{300, 65, 33} {
		for _, by := range []*Party{nil, m.s} {
			what := fmt.Sprintf("file for %d recipients", k)
			err := w.with(s, func() error {
				b, err := Encrypt(16, by, rx[:k], w.pt, "file", nil)
				if err != nil {
					return err
				}
				f, err := ref.Split(b)
				if err != nil {
					return err
				}
				for _, x := range f.H.Keys {
					see(what, "n1", x.Nonce)
				}
				return nil
			})
			e.R.Exec(1)
			if err != nil {
				e.R.Violation("fails/many", what+" fails although the source of randomness works: "+err.Error(), nil)
			}
			last = map[string][][]byte{}
		}
	}
	for _, op := range []string{"enc", "sencs", "newkey"} {
		last = map[string][][]byte{}
		for i := 0; i < 400; i++ {
			o, err := w.one(s, op, 1)
			e.R.Exec(1)
			if err != nil {
				e.R.Violation("fails/"+op, fmt.Sprintf("%s fails in repetition %d although the source of randomness works: %v", op, i, err), nil)
				break
			}
			for v, x := range o.vals {
				see(fmt.Sprintf("%s repeated", op), v, x)
			}
		}
	}
}

func cmdRandChild(e *Env) error {
	w := newRandWorld()
	cs, err := AllCases[RandCase](e.Cases)
	if err != nil {
		return err
	}
	var from int
	fmt.Sscan(e.Extra["from"], &from)
	out := bufio.NewWriter(os.Stdout)
	for i := from; i < len(cs); i++ {
		fmt.Fprintf(out, "start %d\n", i)
		out.Flush()
		ok, hit, d := w.failing(cs[i])
		fmt.Fprintf(out, "done %d %v %v %q\n", i, ok, hit, d)
		out.Flush()
	}
	return nil
}

func cmdRand(e *Env) error {
	cs, err := AllCases[RandCase](e.Cases)
	if err != nil {
		return err
	}
	w := newRandWorld()
	seen := map[string]bool{}
	for _, c := range cs {
		k := fmt.Sprint(c.Op, c.K, c.Chunk)
		if !seen[k] && c.Runs == 1 && (c.Chunk == 0 || c.Op == "newkey" || c.Op == "senc") {
			seen[k] = true
			w.deps(e, c)
			if c.Chunk == 0 && c.K == 2 {
				// one recipient named twice, who is the sender
				m := *w
				m.rx[1] = w.rx[0]
				m.s = w.rx[0]
				m.deps(e, c)
			}
			if c.Chunk == 0 && (e.Thorough() || c.K == 1 && strings.Contains(c.Op, "enc")) {
				for i, bs := range []uint64{1, 4096, 65536, 0} {
					m := *w
					m.bs = bs
					m.pt = bytesOf(Rng(e.Seed, "rand"), []int{0, 5000, 100, 300}[i])
					m.deps(e, c)
				}
			}
		}
	}
	w.many(e)
	w.grid(e)
	judge := func(c *RandCase, ok, hit bool, d string) {
		e.R.Exec(1)
		switch {
		case ok && hit:
			e.R.Violation("hidden/"+c.Op, fmt.Sprintf("%s to %d recipients reports success although the source of randomness failed at byte %d", c.Op, c.K, c.Fail), c)
		case ok && !c.OK && c.Runs == 1:
			e.R.Violation("less/"+c.Op, fmt.Sprintf("%s to %d recipients needs no more than %d random bytes", c.Op, c.K, c.Fail), c)
		case !ok && !hit:
			e.R.Violation("fails/"+c.Op, fmt.Sprintf("%s to %d recipients fails (%s) although the source of randomness works (%d bytes a call)", c.Op, c.K, d, c.Chunk), c)
		}
		e.R.Trace()
	}
	for from := 0; from < len(cs); {
		x := exec.Command(os.Args[0], "randchild", "-cases", e.Cases, "-work", e.Work, "-x", fmt.Sprintf("from=%d", from), "-out", e.Work+"/child.json")
		x.Env = append(os.Environ(), "GODEBUG=cryptocustomrand=1")
		var out, eb bytes.Buffer
		x.Stdout, x.Stderr = &out, &eb
		x.Run()
		last := from - 1
		started := from
		for _, l := range strings.Split(out.String(), "\n") {
			var i int
			var ok, hit bool
			var d string
			if n, _ := fmt.Sscanf(l, "done %d %t %t %q", &i, &ok, &hit, &d); n == 4 {
				judge(cs[i], ok, hit, d)
				last = i
			}
			if n, _ := fmt.Sscanf(l, "start %d", &i); n == 1 {
				started = i
			}
		}
		if last == len(cs)-1 {
			break
		}
		if started <= last {
			return fmt.Errorf("child makes no progress: %s", eb.String())
		}
		// the process ended in case 'started': that is no success
		e.R.Count("process_ended")
		if started == from && last < from && eb.Len() == 0 {
			return fmt.Errorf("child does not start")
		}
		if !strings.Contains(eb.String(), "crypto/rand") {
			b, _ := json.Marshal(cs[started])
			e.R.Violation("crash/"+cs[started].Op, fmt.Sprintf("the process ends: %s", errStr(errors.New(eb.String()))), string(b))
		}
		from = started + 1
	}
	return nil
}

var _ io.Reader = &randSrc{}
