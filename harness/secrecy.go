package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/opencoff/sigtool/sign"
	"golang.org/x/crypto/curve25519"
	"gopkg.in/yaml.v2"
	"verifharness/ref"
)

func init() { cmds["secrecy"] = cmdSecrecy }

// SecCase is a behaviour of Secrecy.tla.
type SecCase struct {
	To1   []string `json:"to1"`
	To2   []string `json:"to2"`
	Snd   string   `json:"snd"`
	Comp  []string `json:"comp"`
	Reads bool     `json:"reads"`
}

func (c *SecCase) String() string {
	by := "no sender"
	if c.Snd != "none" {
		by = "sender " + c.Snd
	}
	return fmt.Sprintf("files to %s and to %s with %s", strings.Join(c.To1, ", "), strings.Join(c.To2, ", "), by)
}

type secFile struct {
	b    []byte
	f    *ref.File
	root []byte
	pt   []byte
	to   []string
}

// secCheck compares every byte of a file with what the format says, so that
// nothing else is in it.
func secCheck(p map[string]*Party, b []byte, to []string, snd string, pt []byte, bs uint64) (*secFile, string, error) {
	f, err := ref.Split(b)
	if err != nil {
		return nil, "format", fmt.Errorf("not in the format: %v", err)
	}
	s := &secFile{b: b, f: f, pt: pt, to: to}
	if !bytes.Equal(f.Bytes(), b) || len(f.Tail) != 0 || !bytes.Equal(f.Sum, f.H.Sum()) {
		return nil, "extra-bytes", errors.New("the file holds bytes besides the fields of the format")
	}
	if h := f.H; len(h.Extra) != 0 || len(h.Salt) != 32 || len(h.Pk) != 32 || len(h.Sender) != 80 || len(h.Keys) != len(to) || len(f.Trl) != 64 {
		return nil, "fields", fmt.Errorf("fields of unexpected sizes: extra %d, salt %d, key %d, sender %d, %d recipients, trailer %d", len(h.Extra), len(h.Salt), len(h.Pk), len(h.Sender), len(h.Keys), len(f.Trl))
	}
	seen := map[int]string{}
	for _, n := range to {
		v := f.H.Unwraps(p[n].Ed)
		if len(v) != 1 {
			return nil, "entries", fmt.Errorf("recipient %s opens %d entries instead of one", n, len(v))
		}
		if o := seen[v[0]]; o != "" {
			return nil, "entries", fmt.Errorf("recipients %s and %s open the same entry", o, n)
		}
		seen[v[0]] = n
		r := f.H.Unwrap(p[n].Ed)
		if s.root != nil && !bytes.Equal(s.root, r) {
			return nil, "entries", errors.New("recipients get different file keys")
		}
		s.root = r
	}
	if s.root == nil {
		return nil, "entries", errors.New("no recipient opens it")
	}
	sig, err := f.H.OpenSender(s.root)
	if err != nil {
		return nil, "sender", fmt.Errorf("sender's field: %v", err)
	}
	if snd == "none" {
		if !bytes.Equal(sig, make([]byte, 64)) {
			return nil, "sender", errors.New("the sender's field of a file without sender is not zero")
		}
	} else if !ref.VerifyMsg(p[snd].EdPK, ref.SenderMsg(f.H.Pk, f.H.Salt, s.root), sig) {
		return nil, "sender", errors.New("the sender's signature is not over the ephemeral key, the salt and the file key")
	}
	k := ref.DataKeys(s.root, f.Sum)
	mac := k.Mac()
	var got []byte
	for i, g := range f.Segs {
		x, err := k.Open(uint32(i), g.LW, g.Box)
		if err != nil {
			return nil, "blocks", fmt.Errorf("block %d: %v", i, err)
		}
		got = append(got, x...)
		mac.Write(g.LW)
		mac.Write(x)
	}
	if !bytes.Equal(got, pt) {
		return nil, "blocks", errors.New("the blocks hold something else")
	}
	if snd != "none" && !ref.VerifyMsg(p[snd].EdPK, mac.Sum(nil), f.Trl) {
		return nil, "trailer", errors.New("the trailer is not a signature of the keyed hash")
	}
	return s, "", nil
}

// candidates are byte strings an attacker could form of what he knows.
func candidates(known [][]byte) [][]byte {
	m := map[[32]byte]bool{}
	add := func(b []byte) { m[[32]byte(b)] = true }
	hashes := func(b []byte) {
		h := sha256.Sum256(b)
		add(h[:])
		g := sha512.Sum512(b)
		add(g[:32])
		add(g[32:])
	}
	add(make([]byte, 32))
	ff := bytes.Repeat([]byte{0xff}, 32)
	add(ff)
	hashes(nil)
	for _, b := range known {
		hashes(b)
		for i := 0; i+32 <= len(b); i++ {
			add(b[i : i+32])
			if len(b) <= 64 {
				hashes(b[i : i+32])
			}
		}
	}
	var v [][]byte
	for k := range m {
		v = append(v, append([]byte(nil), k[:]...))
	}
	sort.Slice(v, func(i, j int) bool { return bytes.Compare(v[i], v[j]) < 0 })
	return v
}

// hit tells what the candidate gives of file s; who is who may be asked for.
func (s *secFile) hit(p map[string]*Party, x []byte, own map[string]bool, signed string) string {
	h := s.f.H
	if bytes.Equal(x, s.root) {
		return "the file key"
	}
	if pk, err := curve25519.X25519(x, curve25519.Basepoint); err == nil && bytes.Equal(pk, h.Pk) {
		return "the ephemeral private key"
	}
	if _, err := h.OpenSender(x); err == nil {
		return "the key of the sender's field"
	}
	k := ref.DataKeys(x, s.f.Sum)
	if _, err := k.Open(0, s.f.Segs[0].LW, s.f.Segs[0].Box); err == nil {
		return "the key of the blocks"
	}
	for _, e := range h.Keys {
		for _, n := range s.to {
			if own[n] {
				continue
			}
			one := *h
			one.Keys = []ref.Wrapped{e}
			if one.UnwrapShared(x, p[n].EdPK) != nil || one.UnwrapKEK(x, p[n].EdPK) != nil {
				return "the key of the entry of " + n
			}
		}
	}
	if signed != "none" {
		for _, key := range [][]byte{x, k.HKey} {
			m := (&ref.Keys{HKey: key}).Mac()
			off := 0
			for _, g := range s.f.Segs {
				n := len(g.Box) - ref.TagLen
				m.Write(g.LW)
				m.Write(s.pt[off : off+n])
				off += n
			}
			if ref.VerifyMsg(p[signed].EdPK, m.Sum(nil), s.f.Trl) {
				return "the key of the plaintext's hash, and thus the sender"
			}
		}
	}
	return ""
}

type secWorld struct {
	e *Env
	p map[string]*Party
}

func (w *secWorld) group(cs []*SecCase, g int) {
	e, c0 := w.e, cs[0]
	rnd := Rng(e.Seed, "secrecy", g)
	bs := uint64([]int{16, 64, 4096}[g%3])
	sizes := []int{1, 15, 16, 17, 64, 100, 5000}
	var fl [2]*secFile
	for i, to := range [][]string{c0.To1, c0.To2} {
		pt := bytesOf(rnd, sizes[rnd.Intn(len(sizes))])
		var rx []*Party
		for _, j := range rnd.Perm(len(to)) {
			rx = append(rx, w.p[to[j]])
		}
		by := w.p[c0.Snd]
		b, err := Encrypt(bs, by, rx, pt, []string{"file", "stream"}[rnd.Intn(2)], rnd)
		e.R.Exec(1)
		if err != nil {
			e.R.Violation("encrypt-fails", fmt.Sprintf("%s: encrypting fails: %v", c0, err), c0)
			return
		}
		s, key, err := secCheck(w.p, b, to, c0.Snd, pt, bs)
		if err != nil {
			e.R.Violation("content-"+key, fmt.Sprintf("%s: %v", c0, err), c0)
			return
		}
		fl[i] = s
	}
	// without any private key, and with each set of them
	for _, c := range cs {
		e.R.Trace()
		comp := map[string]bool{}
		known := [][]byte{fl[0].b[:len(fl[0].f.H.Bytes())], fl[1].b[:len(fl[1].f.H.Bytes())], fl[0].f.Trl, fl[1].f.Trl, fl[1].pt}
		for _, n := range c.Comp {
			p := w.p[n]
			comp[n] = true
			ck := ref.CurveSK(p.Ed.Seed())
			known = append(known, p.Ed, ck)
			for _, f := range fl {
				if s, err := curve25519.X25519(ck, f.f.H.Pk); err == nil {
					known = append(known, s)
				}
				for _, q := range w.p {
					if s, err := curve25519.X25519(ck, ref.CurvePK(q.EdPK)); err == nil {
						known = append(known, s)
					}
				}
			}
		}
		for _, p := range w.p {
			known = append(known, p.EdPK, ref.CurvePK(p.EdPK))
		}
		for _, n := range c.To2 {
			if comp[n] {
				known = append(known, fl[1].root)
			}
		}
		if c.Reads {
			// a recipient; the others' entries stay closed
			known = append(known, fl[0].root)
		}
		for _, x := range candidates(known) {
			if c.Reads && bytes.Equal(x, fl[0].root) {
				continue
			}
			own := comp
			if c.Reads {
				// what he may know anyway: the file key, not who the others are
				h := fl[0].f.H
				if pk, err := curve25519.X25519(x, curve25519.Basepoint); err == nil && bytes.Equal(pk, h.Pk) {
					e.R.Violation("ephemeral", fmt.Sprintf("%s: knowing the private keys of %v, the ephemeral private key is found", c, c.Comp), c)
					break
				}
				bad := ""
				for _, en := range h.Keys {
					for _, n := range c.To1 {
						one := *h
						one.Keys = []ref.Wrapped{en}
						if !own[n] && (one.UnwrapShared(x, w.p[n].EdPK) != nil || one.UnwrapKEK(x, w.p[n].EdPK) != nil) {
							bad = n
						}
					}
				}
				if bad != "" {
					e.R.Violation("other-recipient", fmt.Sprintf("%s: knowing the private keys of %v, that %s is a recipient of the first is found", c, c.Comp, bad), c)
					break
				}
				continue
			}
			if what := fl[0].hit(w.p, x, own, c.Snd); what != "" {
				e.R.Violation("derive-"+strings.Fields(what)[1], fmt.Sprintf("%s: knowing the private keys of %v, but of no recipient of the first, %s of the first is found: %x", c, c.Comp, what, x), c)
				break
			}
		}
	}
	// the real decryptor, with every key there is
	for i, f := range fl {
		for n, p := range w.p {
			in := false
			for _, x := range f.to {
				in = in || x == n
			}
			var want *Party
			if c0.Snd != "none" && rnd.Intn(2) == 0 {
				want = w.p[c0.Snd]
			}
			if c0.Snd != "none" && in {
				want = w.p[c0.Snd]
			}
			d := DecryptWith(f.b, p, want, []string{"file", "stream"}[rnd.Intn(2)], nil)
			e.R.Exec(1)
			if in != (d.Err == nil) || !in && len(d.Out) > 0 || in && !bytes.Equal(d.Out, f.pt) {
				e.R.Violation("decrypts", fmt.Sprintf("%s: decrypting file %d with the key of %s (recipient: %v): %v, %d bytes", c0, i+1, n, in, d.Err, len(d.Out)), c0)
			}
		}
	}
	e.R.Count("pairs of files")
}

// noninterference: with the same randomness, what is not secret and not
// meant to change does not change with the secrets.
func (w *secWorld) noninterference() error {
	e := w.e
	w2 := &randWorld{}
	type vr struct {
		name string
		to   []string
		by   string
		pt   []byte
	}
	others := Parties(fillers...)
	run := func(v vr, seed, iface string) ([]byte, *ref.File, error) {
		var rx []*Party
		for _, n := range v.to {
			if x := w.p[n]; x != nil {
				rx = append(rx, x)
			} else {
				rx = append(rx, others[n])
			}
		}
		var b []byte
		err := w2.with(&randSrc{seed: seed, flip: -1, fail: -1}, func() (err error) {
			b, err = Encrypt(16, w.p[v.by], rx, v.pt, iface, nil)
			return
		})
		e.R.Exec(1)
		if err != nil {
			return nil, nil, err
		}
		f, err := ref.Split(b)
		return b, f, err
	}
	zero := func(n int) []byte { return make([]byte, n) }
	for round := 0; round < 12; round++ {
		for _, iface := range []string{"file", "stream"} {
			r := Rng(e.Seed, "ni", round, iface)
			n := []int{1, 15, 16, 17, 32, 100, 4096, 1, 47, 48, 49, 1000}[round]
			seed := fmt.Sprint("ni", e.Seed, round)
			more := []int{0, 0, 1, 4, 2, 3, 11, 0, 38, 1, 2, 1}[round]
			with := func(v ...string) []string { return append(v, fillers[:more]...) }
			base := vr{"", with("A", "B"), []string{"S", "none"}[round%2], zero(n)}
			b0, f0, err := run(base, seed, iface)
			if err != nil {
				return fmt.Errorf("noninterference: %w", err)
			}
			b1, _, _ := run(base, seed, iface)
			if !bytes.Equal(b0, b1) {
				e.R.Note("the same randomness does not give the same file: not compared")
				return nil
			}
			text := []byte(strings.Repeat("SigTool version 3, all is well. ", n/32+1))[:n]
			var vs []vr
			for _, pt := range [][]byte{bytesOf(r, n), bytes.Repeat([]byte{0xff}, n), text} {
				x := base
				x.name, x.pt = "plaintext", pt
				vs = append(vs, x)
			}
			if base.by == "S" {
				x := base
				x.name, x.by = "sender", "A"
				vs = append(vs, x)
			}
			sets := [][]string{with("A", "C"), with("C", "B"), with("C", "S")}
			if more > 0 {
				to := with("A", "B")
				to[len(to)-1] = "C"
				sets = append(sets, to)
			}
			for _, to := range sets {
				x := base
				x.name, x.to = "recipients", to
				vs = append(vs, x)
			}
			for _, v := range vs {
				b, f, err := run(v, seed, iface)
				if err != nil {
					return fmt.Errorf("noninterference: %w", err)
				}
				bad := func(what string) {
					e.R.Violation("depends-"+v.name, fmt.Sprintf("of two files of %d bytes (%s interface, sender %s) which differ in the %s, made with the same randomness, %s", n, iface, base.by, v.name, what), nil)
				}
				if len(b) != len(b0) {
					bad(fmt.Sprintf("one has %d bytes, the other %d", len(b0), len(b)))
					continue
				}
				h, h0 := f.H, f0.H
				switch {
				case h.Chunk != h0.Chunk:
					bad("the block size differs")
				case !bytes.Equal(h.Salt, h0.Salt):
					bad("the salt differs")
				case !bytes.Equal(h.Pk, h0.Pk):
					bad("the ephemeral key differs")
				case len(f.Segs) != len(f0.Segs):
					bad("the number of blocks differs")
				case v.name != "sender" && !bytes.Equal(h.Sender, h0.Sender):
					bad("the sender's field differs")
				case base.by == "none" && !bytes.Equal(f.Trl, f0.Trl):
					bad("the random trailer differs")
				}
				for i := range f.Segs {
					if i < len(f0.Segs) && !bytes.Equal(f.Segs[i].LW, f0.Segs[i].LW) {
						bad("the length of a block differs")
						break
					}
				}
				for i := range h.Keys {
					if i < len(h0.Keys) && !bytes.Equal(h.Keys[i].Nonce, h0.Keys[i].Nonce) {
						bad("the nonce of a recipient differs")
					} else if i < len(h0.Keys) && (v.name != "recipients" || v.to[i] == base.to[i]) && !bytes.Equal(h.Keys[i].DKey, h0.Keys[i].DKey) {
						bad("the entry of an unchanged recipient differs")
					}
				}
				e.R.Count("pairs under the same randomness")
			}
		}
	}
	// a file of zeros, repeated blocks: no two blocks alike, and none as plain
	for _, n := range []int{4096, 65536} {
		b, err := Encrypt(16, nil, []*Party{w.p["A"]}, zero(n), "file", nil)
		if err != nil {
			return err
		}
		f, err := ref.Split(b)
		if err != nil {
			return nil
		}
		seen := map[string]bool{}
		for i, s := range f.Segs {
			k := string(s.Box[:min(16, len(s.Box))])
			if len(k) == 16 && (seen[k] || k == string(zero(16))) {
				e.R.Violation("pattern", fmt.Sprintf("block %d of a file of equal blocks shows that they are equal", i), nil)
				break
			}
			seen[k] = true
		}
	}
	return nil
}

// watch collects the names created, written or renamed in directories.
type watch struct {
	fd   int
	dirs map[int32]string
}

func newWatch(dirs ...string) (*watch, error) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil, err
	}
	w := &watch{fd, map[int32]string{}}
	for _, d := range dirs {
		n, err := syscall.InotifyAddWatch(fd, d, syscall.IN_CREATE|syscall.IN_MODIFY|syscall.IN_MOVED_TO)
		if err != nil {
			syscall.Close(fd)
			return nil, err
		}
		w.dirs[int32(n)] = d
	}
	return w, nil
}

func (w *watch) close() map[string][]string {
	v := map[string]map[string]bool{}
	buf := make([]byte, 65536)
	for {
		n, err := syscall.Read(w.fd, buf)
		if n <= 0 || err != nil {
			break
		}
		for o := 0; o+syscall.SizeofInotifyEvent <= n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[o]))
			name := strings.TrimRight(string(buf[o+syscall.SizeofInotifyEvent:o+syscall.SizeofInotifyEvent+int(ev.Len)]), "\x00")
			d := w.dirs[ev.Wd]
			if v[d] == nil {
				v[d] = map[string]bool{}
			}
			v[d][name] = true
			o += syscall.SizeofInotifyEvent + int(ev.Len)
		}
	}
	syscall.Close(w.fd)
	m := map[string][]string{}
	for d, s := range v {
		m[d] = names(s)
	}
	return m
}

// programs: what the program is given in secret turns up nowhere but where
// it was asked to put it.
func (w *secWorld) programs() error {
	e := w.e
	top := filepath.Join(e.Work, "sec")
	keys := filepath.Join(top, "keys")
	os.MkdirAll(keys, 0700)
	const pw = "correct horse 9 battery"
	for n, p := range w.p {
		y := ref.MakePriv(p.Ed, []byte(pw), "c "+n, 1024, 8, 1)
		os.WriteFile(filepath.Join(keys, n+".key"), y.Bytes(), 0600)
		os.WriteFile(filepath.Join(keys, n+".pub"), ref.MakePub(p.EdPK, "c "+n), 0600)
		s := ref.DefSSH(p.Ed, "u@h")
		os.WriteFile(filepath.Join(keys, n+".ssh"), s.Bytes(), 0600)
	}
	var mu sync.Mutex
	type job struct {
		name   string
		args   []string
		stdin  []byte
		out    string // file that may hold the plaintext
		stdout bool   // standard output may
		prep   func(dir string)
	}
	r := Rng(e.Seed, "programs")
	canary := []byte("canary<" + base64.StdEncoding.EncodeToString(bytesOf(r, 24)) + ">")
	pt := bytes.Repeat(append(append([]byte{}, canary...), '\n'), 60)
	mk := func(by *Party, to ...*Party) []byte {
		sp := ref.Spec{Chunk: 256}
		if by != nil {
			sp.Sender = by.Ed
		}
		for _, p := range to {
			sp.To = append(sp.To, p.EdPK)
		}
		b, _, err := ref.Encrypt(sp, pt)
		if err != nil {
			panic(err)
		}
		return b
	}
	k := func(n string) string { return filepath.Join(keys, n) }
	plain := mk(nil, w.p["A"])
	signed := mk(w.p["S"], w.p["A"], w.p["B"])
	put := func(name string, b []byte) func(string) {
		return func(d string) { os.WriteFile(filepath.Join(d, name), b, 0644) }
	}
	cut := func(b []byte, n int) []byte { return b[:len(b)-n] }
	bad := func(b []byte, at int) []byte {
		c := append([]byte{}, b...)
		c[len(c)-at] ^= 4
		return c
	}
	jobs := []job{
		{name: "encrypt", args: []string{"encrypt", "-o", "out", k("A.pub"), "in"}, prep: put("in", pt)},
		{name: "encrypt signed", args: []string{"encrypt", "-E", "PW", "-s", k("S.key"), "-o", "out", k("A.pub"), k("B.pub"), "in"}, prep: put("in", pt)},
		{name: "encrypt signed with an SSH key", args: []string{"encrypt", "--no-password", "-s", k("S.ssh"), "-o", "out", k("A.pub"), "in"}, prep: put("in", pt)},
		{name: "encrypt from stdin", args: []string{"encrypt", "-E", "PW", "-s", k("S.key"), k("A.pub")}, stdin: pt},
		{name: "encrypt over a file", args: []string{"encrypt", "--overwrite", "-o", "out", k("A.pub"), "in"}, prep: func(d string) { put("in", pt)(d); put("out", []byte("old"))(d) }},
		{name: "encrypt to nobody", args: []string{"encrypt", "-o", "out", k("none.pub"), "in"}, prep: put("in", pt)},
		{name: "encrypt to a private key", args: []string{"encrypt", "-o", "out", k("A.key"), "in"}, prep: put("in", pt)},
		{name: "encrypt into an existing file", args: []string{"encrypt", "-o", "out", k("A.pub"), "in"}, prep: func(d string) { put("in", pt)(d); put("out", []byte("old"))(d) }},
		{name: "encrypt signed with the wrong passphrase", args: []string{"encrypt", "-E", "BAD", "-s", k("S.key"), "-o", "out", k("A.pub"), "in"}, prep: put("in", pt)},
		{name: "encrypt signed with a public key", args: []string{"encrypt", "-E", "PW", "-s", k("S.pub"), "-o", "out", k("A.pub"), "in"}, prep: put("in", pt)},
		{name: "decrypt", args: []string{"decrypt", "-E", "PW", "-o", "out", k("A.key"), "in"}, out: "out", prep: put("in", plain)},
		{name: "decrypt signed", args: []string{"decrypt", "-E", "PW", "-v", k("S.pub"), "-o", "out", k("B.key"), "in"}, out: "out", prep: put("in", signed)},
		{name: "decrypt to stdout", args: []string{"decrypt", "-E", "PW", k("A.key"), "in"}, stdout: true, prep: put("in", plain)},
		{name: "decrypt from stdin", args: []string{"decrypt", "--no-password", k("A.ssh")}, stdin: plain, stdout: true},
		{name: "decrypt as a test", args: []string{"decrypt", "-E", "PW", "-t", k("A.key"), "in"}, prep: put("in", plain)},
		{name: "decrypt signed as a test", args: []string{"decrypt", "-E", "PW", "-t", "-v", k("S.pub"), k("A.key"), "in"}, prep: put("in", signed)},
		{name: "decrypt as a test with an output", args: []string{"decrypt", "-E", "PW", "-t", "-o", "out", k("A.key"), "in"}, prep: put("in", plain), out: "out"},
		{name: "decrypt truncated", args: []string{"decrypt", "-E", "PW", "-o", "out", k("A.key"), "in"}, prep: put("in", cut(plain, 400))},
		{name: "decrypt damaged", args: []string{"decrypt", "-E", "PW", "-o", "out", k("A.key"), "in"}, prep: put("in", bad(plain, 100))},
		{name: "decrypt with a damaged trailer", args: []string{"decrypt", "-E", "PW", "-v", k("S.pub"), "-o", "out", k("A.key"), "in"}, prep: put("in", bad(signed, 10))},
		{name: "decrypt as the wrong one", args: []string{"decrypt", "-E", "PW", "-o", "out", k("B.key"), "in"}, prep: put("in", plain)},
		{name: "decrypt from the wrong sender", args: []string{"decrypt", "-E", "PW", "-v", k("B.pub"), "-o", "out", k("A.key"), "in"}, prep: put("in", signed)},
		{name: "decrypt without sender", args: []string{"decrypt", "-E", "PW", "-o", "out", k("A.key"), "in"}, prep: put("in", signed)},
		{name: "decrypt with the wrong passphrase", args: []string{"decrypt", "-E", "BAD", "-o", "out", k("A.key"), "in"}, prep: put("in", plain)},
		{name: "decrypt with a public key", args: []string{"decrypt", "-E", "PW", "-o", "out", k("A.pub"), "in"}, prep: put("in", plain)},
		{name: "sign", args: []string{"sign", "-E", "PW", "-o", "out", k("S.key"), "in"}, prep: put("in", pt)},
		{name: "sign to stdout", args: []string{"sign", "-E", "PW", "-o", "-", k("S.key"), "in"}, prep: put("in", pt)},
		{name: "sign with an SSH key", args: []string{"sign", "--no-password", "-o", "out", k("S.ssh"), "in"}, prep: put("in", pt)},
		{name: "sign what is not there", args: []string{"sign", "-E", "PW", "-o", "out", k("S.key"), "nothing"}},
		{name: "verify", args: []string{"verify", k("S.pub"), "in.sig", "in"}, prep: func(d string) {
			put("in", pt)(d)
			put("in.sig", ref.MakeSig(w.p["S"].Ed, ref.FileDigest(pt), ""))(d)
		}},
		{name: "verify another", args: []string{"verify", k("S.pub"), "in.sig", "in"}, prep: func(d string) {
			put("in", pt)(d)
			put("in.sig", ref.MakeSig(w.p["S"].Ed, ref.FileDigest(canary), ""))(d)
		}},
		{name: "verify with a private key", args: []string{"verify", k("S.key"), "in.sig", "in"}, prep: func(d string) {
			put("in", pt)(d)
			put("in.sig", ref.MakeSig(w.p["S"].Ed, ref.FileDigest(pt), ""))(d)
		}},
		{name: "generate", args: []string{"generate", "-E", "PW", "--comment", "me", "mine"}},
		{name: "generate again", args: []string{"generate", "-E", "PW", "mine"}, prep: func(d string) { put("mine.key", []byte("old"))(d); put("mine.pub", []byte("old"))(d) }},
		{name: "generate over", args: []string{"generate", "--overwrite", "-E", "PW", "mine"}, prep: func(d string) { put("mine.key", []byte("old"))(d); put("mine.pub", []byte("old"))(d) }},
	}
	if b, err := exec.Command(e.Bin, "generate", "--help").CombinedOutput(); err == nil && !bytes.Contains(b, []byte("overwrite")) {
		jobs = jobs[:len(jobs)-1]
	}
	Par(len(jobs), func(i int) {
		j := jobs[i]
		base := filepath.Join(top, fmt.Sprint("j", i))
		dir, tmp, home := filepath.Join(base, "d"), filepath.Join(base, "t"), filepath.Join(base, "h")
		for _, d := range []string{dir, tmp, home} {
			os.MkdirAll(d, 0700)
		}
		if j.prep != nil {
			j.prep(dir)
		}
		before := map[string]bool{}
		ents, _ := os.ReadDir(dir)
		for _, x := range ents {
			before[x.Name()] = true
		}
		wt, err := newWatch(tmp, home)
		if err != nil {
			e.R.Note("no inotify: %v", err)
		}
		cmd := exec.Command(e.Bin, j.args...)
		cmd.Dir = dir
		cmd.Env = []string{"PATH=/usr/bin:/bin", "TMPDIR=" + tmp, "HOME=" + home, "XDG_CACHE_HOME=" + home, "XDG_CONFIG_HOME=" + home, "PW=" + pw, "BAD=wrong zebra 7 staple"}
		cmd.Stdin = bytes.NewReader(j.stdin)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		cmd.Run()
		exit := cmd.ProcessState.ExitCode()
		e.R.Exec(1)
		secrets := map[string][]byte{"the plaintext": canary, "the passphrase": []byte(pw), "the wrong passphrase": []byte("wrong zebra 7 staple")}
		for n, p := range w.p {
			secrets["the private key of "+n] = p.Ed.Seed()
			secrets["the Curve25519 private key of "+n] = ref.CurveSK(p.Ed.Seed())
		}
		var roots []*secFile
		for _, b := range [][]byte{plain, signed} {
			f, err := ref.Split(b)
			if err == nil {
				root := f.H.Unwrap(w.p["A"].Ed)
				roots = append(roots, &secFile{f: f, root: root})
				secrets["the file key"+fmt.Sprint(len(roots))] = root
			}
		}
		var fresh ed25519.PrivateKey
		if b, err := os.ReadFile(filepath.Join(dir, "mine.key")); err == nil && exit == 0 {
			sk, _, err := ref.OpenPriv(b, []byte(pw))
			if err == nil {
				fresh = sk
				secrets["the new private key"] = sk.Seed()
			}
			var y map[string]any
			if yaml.Unmarshal(b, &y) == nil {
				for f := range y {
					switch f {
					case "comment", "esk", "salt", "algo", "Z", "r", "p":
					default:
						e.R.Violation("key-fields", fmt.Sprintf("%s: the private key file has a field %q", j.name, f), nil)
					}
				}
			}
		}
		_ = fresh
		// a file made by the program gives its own file key
		for _, b := range [][]byte{so.Bytes(), readOr(filepath.Join(dir, "out"))} {
			if f, err := ref.Split(b); err == nil {
				if root := f.H.Unwrap(w.p["A"].Ed); root != nil {
					secrets["the new file key"] = root
				}
			}
		}
		check := func(where string, b []byte, plainOK bool) {
			for n, s := range secrets {
				if plainOK && n == "the plaintext" {
					continue
				}
				if how := leaks(b, s); how != "" {
					mu.Lock()
					e.R.Violation("leak-"+strings.ReplaceAll(j.name, " ", "-"), fmt.Sprintf("sigtool %q: %s holds %s %s", j.args, where, n, how), nil)
					mu.Unlock()
				}
			}
		}
		check("standard output", so.Bytes(), j.stdout)
		check("standard error", se.Bytes(), false)
		filepath.WalkDir(base, func(path string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() {
				return nil
			}
			rel, _ := filepath.Rel(dir, path)
			if before[rel] && rel != "out" {
				return nil
			}
			if b, err := os.ReadFile(path); err == nil {
				check("the file "+rel, b, j.out != "" && rel == j.out && exit == 0)
			}
			return nil
		})
		if wt != nil {
			for d, v := range wt.close() {
				e.R.Violation("elsewhere", fmt.Sprintf("sigtool %q writes %q in %s", j.args, v, map[string]string{tmp: "TMPDIR", home: "HOME"}[d]), nil)
			}
		}
		e.R.Count(map[bool]string{true: "program runs that succeed", false: "program runs that fail"}[exit == 0])
		e.R.Sample(map[string]any{"args": j.args, "exit": exit})
		os.RemoveAll(base)
	})
	return nil
}

func readOr(p string) []byte {
	b, _ := os.ReadFile(p)
	return b
}

// saved: what the library writes of a private key.
func (w *secWorld) saved() error {
	for i, pw := range []string{"", "pw", "a longer passphrase: 3"} {
		p := w.p["A"]
		b, err := p.SK.MarshalBinary("comment", []byte(pw))
		if err != nil {
			return nil // C10 judges it
		}
		w.e.R.Exec(1)
		for n, s := range map[string][]byte{"the private key": p.Ed.Seed(), "the Curve25519 private key": ref.CurveSK(p.Ed.Seed()), "the passphrase": []byte(pw)} {
			if how := leaks(b, s); how != "" {
				w.e.R.Violation("saved-key", fmt.Sprintf("a private key saved with passphrase %q holds %s %s", pw, n, how), nil)
			}
		}
		// nothing in it depends on the key but the encrypted key
		if i == 0 {
			w2 := &randWorld{}
			var v [2]map[string]any
			for x, n := range []string{"A", "B"} {
				err := w2.with(&randSrc{seed: "saved", flip: -1, fail: -1}, func() error {
					b, err := w.p[n].SK.MarshalBinary("comment", []byte(pw))
					if err == nil {
						err = yaml.Unmarshal(b, &v[x])
					}
					return err
				})
				if err != nil {
					return nil
				}
			}
			for f, x := range v[0] {
				if f != "esk" && fmt.Sprint(x) != fmt.Sprint(v[1][f]) {
					w.e.R.Violation("saved-field", fmt.Sprintf("the field %q of a saved private key depends on the key", f), nil)
				}
			}
			if a, b := fmt.Sprint(v[0]["esk"]), fmt.Sprint(v[1]["esk"]); len(a) != len(b) {
				w.e.R.Violation("saved-field", "the sizes of saved private keys differ", nil)
			}
		}
	}
	return nil
}

// weakKeys are the public keys with which every key agreement has the same
// outcome, so that what is encrypted to them anybody reads.
func weakKeys() (v [][]byte) {
	for _, x := range []string{
		"0100000000000000000000000000000000000000000000000000000000000000",
		"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"0000000000000000000000000000000000000000000000000000000000000000",
		"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
		"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
		"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	} {
		b, err := hex.DecodeString(x)
		must(err)
		c := bytes.Clone(b)
		c[31] |= 0x80
		v = append(v, b, c)
	}
	return
}

// weak: such a key is refused as a recipient, or at least nothing is made
// that is open to all.
func (w *secWorld) weak() error {
	e := w.e
	for i, pk := range weakKeys() {
		if _, err := curve25519.X25519(w.p["A"].Ed.Seed(), ref.CurvePK(pk)); err == nil {
			return fmt.Errorf("%x is not a weak key", pk)
		}
		for _, others := range [][]string{nil, {"A"}, {"A", "B"}} {
			for _, by := range []*Party{nil, w.p["S"]} {
				f := filepath.Join(e.Work, "weak.pub")
				must(os.WriteFile(f, ref.MakePub(pk, "weak"), 0600))
				var bad *sign.PublicKey
				var refused error
				bad, refused = sign.ReadPublicKey(f)
				if refused != nil {
					e.R.Count("weak keys refused")
					continue
				}
				var sk *sign.PrivateKey
				if by != nil {
					sk = by.SK
				}
				enc, err := sign.NewEncryptor(sk, 64)
				if err != nil {
					return err
				}
				rx := []*sign.PublicKey{}
				for _, n := range others {
					rx = append(rx, w.p[n].PK)
				}
				at := i % (len(rx) + 1)
				rx = append(rx[:at:at], append([]*sign.PublicKey{bad}, rx[at:]...)...)
				for _, k := range rx {
					if err := enc.AddRecipient(k); err != nil {
						if k != bad {
							return err
						}
						refused = err
					}
				}
				e.R.Exec(1)
				e.R.Trace()
				out := &Sink{}
				if err := enc.Encrypt(strings.NewReader("for their eyes only"), out); err != nil {
					e.R.Count("weak keys refused")
					continue
				}
				h, _, err := ref.ParseHeader(out.Bytes())
				if err != nil {
					return err
				}
				if refused != nil {
					e.R.Count("weak keys refused")
				}
				for _, q := range append(weakKeys(), ref.CurvePK(pk)) {
					if h.UnwrapShared(make([]byte, 32), q) != nil {
						e.R.Violation("weak-key", fmt.Sprintf("a file encrypted to the public key %x and %v is read by anybody without any private key (AddRecipient: %v)", pk, others, refused), fmt.Sprintf("%x", pk))
						break
					}
				}
			}
		}
	}
	return nil
}

func cmdSecrecy(e *Env) error {
	w := &secWorld{e: e, p: Parties("A", "B", "C", "S")}
	cs, err := AllCases[SecCase](e.Cases)
	if err != nil {
		return err
	}
	m := map[string][]*SecCase{}
	var order []string
	for _, c := range cs {
		sort.Strings(c.To1)
		sort.Strings(c.To2)
		k := c.String()
		if m[k] == nil {
			order = append(order, k)
		}
		m[k] = append(m[k], c)
	}
	sort.Strings(order)
	rounds := 1
	if e.Thorough() {
		rounds = 6
	}
	Par(len(order)*rounds, func(i int) {
		if !e.Late() {
			w.group(m[order[i%len(order)]], i)
		}
	})
	if err := w.weak(); err != nil {
		return err
	}
	// these replace the source of randomness of the whole process
	if err := w.noninterference(); err != nil {
		return err
	}
	if err := w.saved(); err != nil {
		return err
	}
	return w.programs()
}
