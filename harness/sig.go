package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"crypto/sha512"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/opencoff/sigtool/sign"
	"verifharness/ref"
)

func init() {
	cmds["sig"] = cmdSig
	cmds["siglong"] = func(e *Env) error { return sigLong(e, NewParty("A"), Rng(e.Seed, "siglong")) }
}

type SCase struct {
	By    string   `json:"by"`
	Over  []int    `json:"over"`
	Api   string   `json:"api"`
	Kind  string   `json:"kind"`
	Edits []string `json:"edits"`
	VK    string   `json:"vk"`
	VC    []int    `json:"vc"`
	VApi  string   `json:"vapi"`
	VKind string   `json:"vkind"`
	Ok    bool     `json:"ok"`
	Match bool     `json:"match"`
}

// Proc is the outcome of running the program.
type Proc struct {
	Code   int // exit status; 128+n: killed by signal n; -1: could not run
	Out    string
	Err    string
	Crash  bool // Go runtime panic or fatal error
	Killed bool // by our own time limit
}

// Run runs the sigtool program.
func (e *Env) Run(dir string, stdin io.Reader, env []string, arg ...string) *Proc {
	return runProc(60*time.Second, dir, stdin, env, e.Bin, arg...)
}

func runProc(limit time.Duration, dir string, stdin io.Reader, env []string, bin string, arg ...string) *Proc {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, bin, arg...)
	c.Dir = dir
	c.Stdin = stdin
	c.Env = append([]string{"HOME=" + dir, "PATH=/usr/bin:/bin", "USER=nobody", "GOTRACEBACK=all"}, env...)
	c.WaitDelay = 2 * time.Second
	var o, er bytes.Buffer
	c.Stdout, c.Stderr = &o, &er
	err := c.Run()
	p := &Proc{Out: o.String(), Err: er.String()}
	if c.ProcessState == nil {
		p.Code, p.Err = -1, fmt.Sprint(err)
		return p
	}
	p.Code = c.ProcessState.ExitCode()
	if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		p.Code = 128 + int(ws.Signal())
	}
	p.Killed = ctx.Err() != nil
	p.Crash = strings.Contains(p.Err, "\ngoroutine ") && (strings.Contains(p.Err, "panic: ") || strings.Contains(p.Err, "fatal error: ") || strings.Contains(p.Err, "SIGSEGV"))
	return p
}

// feed presents content under a path of the given kind.
func feed(dir, name, kind string, b []byte) (path string, stdin io.Reader, done func(), err error) {
	path = filepath.Join(dir, name)
	done = func() {}
	switch kind {
	case "file":
		err = os.WriteFile(path, b, 0600)
	case "link":
		if err = os.WriteFile(path+".real", b, 0600); err == nil {
			err = os.Symlink(filepath.Base(path)+".real", path)
		}
	case "fifo":
		if err = syscall.Mkfifo(path, 0600); err != nil {
			return
		}
		ch := make(chan struct{})
		go func() {
			defer close(ch)
			f, err := os.OpenFile(path, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			for len(b) > 0 {
				n := min(len(b), 5000)
				if _, err := f.Write(b[:n]); err != nil {
					break
				}
				b = b[n:]
			}
			f.Close()
		}()
		done = func() {
			// in case nobody opened it
			if f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
				select {
				case <-ch:
				case <-time.After(50 * time.Millisecond):
					io.Copy(io.Discard, f)
				}
				f.Close()
			}
			<-ch
		}
	case "stdin":
		path, stdin = "/dev/stdin", io.MultiReader(bytes.NewReader(b)) // a pipe
	default:
		err = fmt.Errorf("kind %q", kind)
	}
	return
}

// limited is Guard for calls that may wait forever.
func limited(fn func() error) error {
	err, hang := Timed(20*time.Second, fn)
	if hang {
		return errors.New("no answer after 20 s")
	}
	return err
}

func sigYAML(sig, hint []byte) []byte {
	return []byte(fmt.Sprintf("comment: altered\npkhash: %q\nsignature: %q\n", ref.B64(hint), ref.B64(sig)))
}

var edL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func addL(s []byte) []byte {
	le := func(b []byte) []byte {
		o := make([]byte, len(b))
		for i := range b {
			o[len(b)-1-i] = b[i]
		}
		return o
	}
	n := new(big.Int).SetBytes(le(s))
	n.Add(n, edL)
	b := make([]byte, 32)
	x := n.Bytes()
	if len(x) > 32 {
		x = x[len(x)-32:]
	}
	copy(b[32-len(x):], x)
	return le(b)
}

type sigWorld struct {
	e  *Env
	p  map[string]*Party
	kf map[string]string // private key files
	pf map[string]string
}

// sign makes a signature the given way and returns it both as bytes and object.
func (w *sigWorld) sign(dir string, by *Party, api, kind string, content []byte) (s *sign.Signature, err error) {
	if api == "msg" {
		err = Guard(func() error {
			var err error
			s, err = by.SK.SignMessage(ref.FileDigest(content), "")
			return err
		})
		return
	}
	path, in, done, err := feed(dir, "in", kind, content)
	if err != nil {
		return nil, err
	}
	defer done()
	if api == "file" {
		err = limited(func() error {
			var err error
			s, err = by.SK.SignFile(path)
			return err
		})
		return
	}
	out := filepath.Join(dir, "out.sig")
	arg := []string{"sign", "--no-password", "-o", out, w.kf[by.Name], path}
	p := w.e.Run(dir, in, nil, arg...)
	if p.Code != 0 {
		return nil, fmt.Errorf("sigtool sign: exit %d: %s", p.Code, p.Err)
	}
	return sign.ReadSignature(out)
}

func (w *sigWorld) verify(dir string, k *Party, api, kind string, content []byte, s *sign.Signature, y []byte) (ok bool, err error) {
	if api == "msg" {
		err = Guard(func() error { ok = k.PK.VerifyMessage(ref.FileDigest(content), s); return nil })
		return
	}
	path, in, done, err := feed(dir, "vin", kind, content)
	if err != nil {
		return false, err
	}
	defer done()
	if api == "file" {
		err = limited(func() error {
			var err error
			ok, err = k.PK.VerifyFile(path, s)
			return err
		})
		return
	}
	sf := filepath.Join(dir, "v.sig")
	if err = os.WriteFile(sf, y, 0600); err != nil {
		return
	}
	p := w.e.Run(dir, in, nil, "verify", w.pf[k.Name], sf, path)
	if p.Code != 0 && p.Code != 1 || p.Crash {
		err = fmt.Errorf("sigtool verify: exit %d: %s", p.Code, p.Err)
	}
	return p.Code == 0, err
}

func cmdSig(e *Env) error {
	cases, err := AllCases[SCase](e.Cases)
	if err != nil {
		return err
	}
	w := &sigWorld{e: e, p: Parties("A", "B"), kf: map[string]string{}, pf: map[string]string{}}
	for n, k := range w.p {
		w.kf[n] = filepath.Join(e.Work, n+".key")
		w.pf[n] = filepath.Join(e.Work, n+".pub")
		if err := os.WriteFile(w.kf[n], ref.MakePriv(k.Ed, nil, n, 2, 1, 1).Bytes(), 0600); err != nil {
			return err
		}
		if err := os.WriteFile(w.pf[n], ref.MakePub(k.EdPK, n), 0600); err != nil {
			return err
		}
	}
	// every way of signing once, to be shared: by, over, api, kind -> signature
	mk := func(c []int, unit int, r *rand.Rand) []byte {
		a := contentOf(r, unit)
		b := bytes.Clone(a)
		b[r.Intn(unit)] ^= 1 << r.Intn(8)
		var o []byte
		for _, x := range c {
			if x == 0 {
				o = append(o, a...)
			} else {
				o = append(o, b...)
			}
		}
		return o
	}
	units := []int{1, 7, 64, 4096, 65537}
	Par(len(cases), func(i int) {
		if e.Late() {
			e.R.Count("skipped_out_of_time")
			return
		}
		c := cases[i]
		r := Rng(e.Seed, "sig", i)
		dir, err := os.MkdirTemp(e.Work, "s")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		unit := units[r.Intn(len(units))]
		cs := r.Int63()
		content := mk(c.Over, unit, rand.New(rand.NewSource(cs)))
		vcontent := mk(c.VC, unit, rand.New(rand.NewSource(cs)))
		by, vk := w.p[c.By], w.p[c.VK]
		desc := fmt.Sprintf("%+v unit %d", *c, unit)
		s, err := w.sign(dir, by, c.Api, c.Kind, content)
		e.R.Exec(1)
		if err != nil {
			e.R.Violation("sign-fails/"+c.Api+"/"+c.Kind, "signing fails: "+err.Error()+"; "+desc, c)
			return
		}
		y, err := s.MarshalBinary("c")
		if err != nil {
			e.R.Violation("marshal", "MarshalBinary: "+err.Error(), c)
			return
		}
		sb, hint, _, err := ref.OpenSig(y)
		if err != nil {
			e.R.Note("reference cannot read a signature: %v", err)
			return
		}
		sb, hint = bytes.Clone(sb), bytes.Clone(hint)
		orig := bytes.Clone(sb)
		if len(sb) != 64 || len(hint) != 16 {
			e.R.Note("signature of %d bytes, hint of %d", len(sb), len(hint))
			return
		}
		// the other signature at hand: same key, other content
		oc := []int{1}
		if len(c.Over) == 1 && c.Over[0] == 1 {
			oc = []int{0, 1}
		}
		other := ref.SignMsg(by.Ed, ref.FileDigest(mk(oc, unit, rand.New(rand.NewSource(cs)))))
		touched := false
		for _, ed := range c.Edits {
			touched = touched || ed != "save"
			switch ed {
			case "flipR":
				sb[r.Intn(32)] ^= 1 << r.Intn(8)
			case "flipS":
				sb[32+r.Intn(len(sb)-32)] ^= 1 << r.Intn(8)
			case "otherR":
				copy(sb[:32], other[:32])
			case "otherS":
				copy(sb[32:], other[32:])
			case "addL":
				copy(sb[32:], addL(sb[32:64]))
			case "zero":
				clear(sb)
			case "cut":
				sb = sb[:r.Intn(64)]
			case "extend":
				sb = append(sb, bytesOf(r, 1+r.Intn(70))...)
			case "flipHint":
				if len(hint) > 0 {
					hint[r.Intn(len(hint))] ^= 1 << r.Intn(8)
				}
			case "otherHint":
				o := "A"
				if c.By == "A" {
					o = "B"
				}
				hint = bytes.Clone(w.p[o].PK.Hash())
			case "noHint":
				hint = nil
			case "cutHint":
				if len(hint) > 0 {
					hint = hint[:r.Intn(len(hint))]
				}
			case "save":
				// through a file
				fn := filepath.Join(dir, fmt.Sprint("save", r.Int63()))
				var t sign.Signature
				if err := t.UnmarshalBinary(sigYAML(sb, hint)); err != nil {
					continue
				}
				cm := []string{"", "input=x", "a: b # c", "ünï\ncode", "'\"", strings.Repeat("long ", 50)}[r.Intn(6)]
				err := Guard(func() error { return t.Serialize(fn, cm, r.Intn(2) == 0) })
				var b []byte
				if err == nil {
					b, err = os.ReadFile(fn)
				}
				var sb2, hint2 []byte
				if err == nil {
					sb2, hint2, _, err = ref.OpenSig(b)
				}
				e.R.Exec(1)
				if err != nil || !bytes.Equal(sb, sb2) || !bytes.Equal(hint, hint2) {
					e.R.Violation("save", fmt.Sprintf("a signature saved with comment %q reads back differently (%v); %s", cm, err, desc), c)
				}
			}
		}
		if touched && bytes.Equal(orig, sb) && !c.Ok {
			// edits cancelled out
			e.R.Count("edits_cancelled")
		}
		y2 := sigYAML(sb, hint)
		obj := s
		if touched || r.Intn(2) == 0 {
			obj = &sign.Signature{}
			err := Guard(func() error { return obj.UnmarshalBinary(y2) })
			e.R.Exec(1)
			if err != nil {
				if IsPanic(err) {
					e.R.Violation("panic/read", "reading an altered signature crashed: "+err.Error()+"; "+desc, c)
				} else if c.Ok {
					e.R.Violation("read", "signature cannot be read: "+err.Error()+"; "+desc, c)
				}
				return
			}
		}
		ok, err := w.verify(dir, vk, c.VApi, c.VKind, vcontent, obj, y2)
		e.R.Exec(1)
		e.R.Trace()
		e.R.Count("verify_" + c.VApi + "_" + c.VKind)
		if IsPanic(err) {
			e.R.Violation("panic/verify", "verification crashed: "+err.Error()+"; "+desc, c)
			return
		}
		want := c.Ok
		if ok != want {
			e.R.Violation(fmt.Sprintf("verify/%v", want), fmt.Sprintf("verification gives %v, must be %v (%v); %s", ok, want, err, desc), c)
		}
		if err != nil && c.VApi != "cli" {
			e.R.Violation("verify/error", fmt.Sprintf("VerifyFile: %v; %s", err, desc), c)
		}
		if m := obj.IsPKMatch(vk.PK); m != c.Match {
			e.R.Violation(fmt.Sprintf("hint/%v", c.Match), fmt.Sprintf("IsPKMatch gives %v, must be %v; %s", m, c.Match, desc), c)
		}
		if i%2003 == 0 {
			e.R.Sample(map[string]any{"case": c, "unit": unit, "got": ok})
		}
	})
	return sigSweeps(e, w)
}

// sigSweeps alters every bit of signatures, contents, hints and keys.
func sigSweeps(e *Env, w *sigWorld) error {
	r := Rng(e.Seed, "sigsweep")
	A, B := w.p["A"], w.p["B"]
	n := 4
	if e.Thorough() {
		n = 60
	}
	for it := 0; it < n; it++ {
		content := contentOf(r, []int{0, 1, 33, 128, 1000}[it%5])
		ck := ref.FileDigest(content)
		if it%2 == 1 {
			ck = content // messages of any length
		}
		s, err := A.SK.SignMessage(ck, "")
		if err != nil {
			e.R.Violation("sign-fails/msg", err.Error(), nil)
			continue
		}
		ver := func(k *sign.PublicKey, ck, sb []byte) bool {
			e.R.Exec(1)
			var ok bool
			err := Guard(func() error { ok = k.VerifyMessage(ck, &sign.Signature{Sig: sb}); return nil })
			if err != nil {
				e.R.Violation("panic/verify", fmt.Sprintf("VerifyMessage crashed on a %d-byte signature: %v", len(sb), err), nil)
			}
			return ok
		}
		if !ver(A.PK, ck, s.Sig) {
			e.R.Violation("verify/true", fmt.Sprintf("own signature over %d bytes does not verify", len(ck)), nil)
		}
		if ver(B.PK, ck, s.Sig) {
			e.R.Violation("verify/key", "signature verifies with another key", nil)
		}
		flipAll := func(what string, b []byte, try func([]byte) bool) {
			for i := 0; i < len(b)*8; i++ {
				x := bytes.Clone(b)
				x[i/8] ^= 1 << (i % 8)
				if try(x) {
					e.R.Violation("verify/flip-"+what, fmt.Sprintf("accepted with bit %d of the %s (%d bytes) flipped", i, what, len(b)), map[string]any{"bit": i})
				}
			}
			for i := 0; i < len(b); i++ {
				if try(b[:i:i]) {
					e.R.Violation("verify/cut-"+what, fmt.Sprintf("accepted with the %s cut to %d of %d bytes", what, i, len(b)), map[string]any{"len": i})
				}
			}
			for _, x := range [][]byte{{0}, {0x80}, {0xff}, make([]byte, 64), bytes.Clone(b)} {
				if len(x) > 0 && try(append(bytes.Clone(b), x...)) {
					e.R.Violation("verify/extend-"+what, fmt.Sprintf("accepted with %d bytes appended to the %s", len(x), what), map[string]any{"tail": x})
				}
			}
			e.R.Trace()
		}
		flipAll("signature", s.Sig, func(x []byte) bool { return ver(A.PK, ck, x) })
		flipAll("message", ck, func(x []byte) bool { return ver(A.PK, x, s.Sig) })
		// the public key
		for i := 0; i < 256; i++ {
			x := bytes.Clone(A.EdPK)
			x[i/8] ^= 1 << (i % 8)
			pk, err := sign.MakePublicKey(ref.MakePub(x, ""))
			if err != nil {
				continue
			}
			if ver(pk, ck, s.Sig) {
				e.R.Violation("verify/flip-key", fmt.Sprintf("accepted with bit %d of the public key flipped", i), i)
			}
			if s.IsPKMatch(pk) {
				e.R.Violation("hint/flip-key", fmt.Sprintf("the hint matches a key with bit %d flipped", i), i)
			}
			e.R.Exec(1)
		}
		// the hint
		y, _ := s.MarshalBinary("")
		sb, hint, _, err := ref.OpenSig(y)
		if err != nil {
			e.R.Note("reference cannot read a signature: %v", err)
			continue
		}
		match := func(h []byte) bool {
			e.R.Exec(1)
			var t sign.Signature
			if t.UnmarshalBinary(sigYAML(sb, h)) != nil {
				return false
			}
			var ok bool
			if err := Guard(func() error { ok = t.IsPKMatch(A.PK); return nil }); err != nil {
				e.R.Violation("panic/hint", err.Error(), nil)
			}
			return ok
		}
		if !match(hint) {
			e.R.Violation("hint/true", "own hint does not match", nil)
		}
		for i := 0; i < len(hint)*8; i++ {
			x := bytes.Clone(hint)
			x[i/8] ^= 1 << (i % 8)
			if match(x) {
				e.R.Violation("hint/flip", fmt.Sprintf("hint matches with bit %d flipped", i), i)
			}
		}
		for i := 0; i < len(hint); i++ {
			if match(hint[:i]) {
				e.R.Violation("hint/cut", fmt.Sprintf("hint matches with only %d bytes", i), i)
			}
		}
		if match(append(bytes.Clone(hint), 0)) || match(A.EdPK) {
			e.R.Violation("hint/long", "a longer hint matches", nil)
		}
	}
	// many keys: hints match their own key only
	var ks []*Party
	for i := 0; i < 24; i++ {
		ks = append(ks, NewParty(fmt.Sprint("k", i)))
	}
	for i, a := range ks {
		s, err := a.SK.SignMessage([]byte("x"), "")
		if err != nil {
			continue
		}
		for j, b := range ks {
			e.R.Exec(1)
			if s.IsPKMatch(b.PK) != (i == j) {
				e.R.Violation("hint/pairs", "a hint matches another key or not its own", nil)
			}
		}
	}
	if err := sigLong(e, A, r); err != nil {
		return err
	}
	sigPipes(e, A, r)
	// unreadable things are an error, not a signature
	for _, fn := range []string{filepath.Join(e.Work, "does-not-exist"), e.Work} {
		if _, err := A.SK.SignFile(fn); err == nil {
			e.R.Violation("sign/unreadable", "a signature was made for "+fn, nil)
		}
		s, _ := A.SK.SignMessage(ref.FileDigest(nil), "")
		if ok, err := A.PK.VerifyFile(fn, s); ok || err == nil {
			e.R.Violation("verify/unreadable", fmt.Sprintf("verification of %s gives %v, %v", fn, ok, err), nil)
		}
		e.R.Exec(2)
	}
	return nil
}

// sigLong signs and verifies files of many lengths, and very large ones.
func sigLong(e *Env, A *Party, r *rand.Rand) error {
	lens := []int64{1, 2, 63, 64, 111, 112, 127, 128, 4095, 4096, 4097, 65535, 65536, 1<<20 + 1}
	switch {
	case e.Prop == "C16" && e.Thorough():
		lens = append(lens, 1<<30+1, 2<<30+5, 4<<30+5)
	case e.Prop == "C16":
		lens = append(lens, 4<<30+5) // lengths beyond 32 bits
	case e.Thorough():
		lens = append(lens, 96<<20+1, 1<<30-1, 1<<30, 1<<30+1, 2<<30+4096)
	default:
		lens = append(lens, 96<<20+1, 1<<30+1)
	}
	for _, n := range lens {
		fn := filepath.Join(e.Work, "len")
		f, err := os.Create(fn)
		if err != nil {
			return err
		}
		tail := bytesOf(r, int(min(n, 100)))
		if n <= 1<<20+1 {
			tail = bytesOf(r, int(n))
		}
		if _, err := f.WriteAt(tail, n-int64(len(tail))); err != nil {
			return err
		}
		f.Close()
		digest := make(chan []byte, 1)
		go func() { digest <- digestStream(fn) }()
		s, err := A.SK.SignFile(fn)
		e.R.Exec(1)
		if err != nil {
			e.R.Violation("sign-fails/long", fmt.Sprintf("signing a file of %d bytes: %v", n, err), n)
			continue
		}
		d := <-digest
		ok, err := A.PK.VerifyFile(fn, s)
		if !ok || err != nil {
			e.R.Violation("verify/long", fmt.Sprintf("file of %d bytes does not verify: %v", n, err), n)
		}
		if !ed25519.Verify(A.EdPK, msgOf(d), s.Sig) {
			if e.Prop == "C16" {
				e.R.Violation("format/long-signature", fmt.Sprintf("the signature of a file of %d bytes is not over the documented digest", n), n)
			} else {
				e.R.Note("file of %d bytes: digest differs from the documented one", n)
			}
		}
		if e.Prop == "C16" {
			os.Remove(fn)
			e.R.Trace()
			continue
		}
		// alter one byte at the start, the end, and at chunk boundaries
		for _, at := range []int64{0, n - 1, n / 2, 1<<30 - 1, 1 << 30} {
			if at >= n || at < 0 {
				continue
			}
			f, _ := os.OpenFile(fn, os.O_RDWR, 0)
			var b [1]byte
			f.ReadAt(b[:], at)
			b[0] ^= 0x10
			st, _ := f.Stat()
			f.WriteAt(b[:], at)
			if st != nil { // a date says nothing about the content
				os.Chtimes(fn, st.ModTime(), st.ModTime())
			}
			ok, _ := A.PK.VerifyFile(fn, s)
			b[0] ^= 0x10
			f.WriteAt(b[:], at)
			f.Close()
			e.R.Exec(1)
			if ok {
				e.R.Violation("verify/long-altered", fmt.Sprintf("file of %d bytes verifies with byte %d altered", n, at), at)
			}
		}
		for _, m := range []int64{n - 1, n + 1, 2 * n} {
			if m > 1<<31 {
				continue
			}
			os.Truncate(fn, m)
			if ok, _ := A.PK.VerifyFile(fn, s); ok {
				e.R.Violation("verify/long-cut", fmt.Sprintf("signature of a file of %d bytes verifies for %d", n, m), m)
			}
			os.Truncate(fn, n)
			if m < n { // restore the tail
				f, _ := os.OpenFile(fn, os.O_RDWR, 0)
				f.WriteAt(tail, n-int64(len(tail)))
				f.Close()
			}
			e.R.Exec(1)
		}
		os.Remove(fn)
		e.R.Trace()
		e.R.Count("file_lengths")
	}
	return nil
}

// sigPipes signs and verifies what comes out of pipes of many lengths.
func sigPipes(e *Env, A *Party, r *rand.Rand) {
	sizes := []int{0, 1, 511, 4096, 32768, 32769, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 5<<20 + 3}
	if e.Thorough() {
		sizes = append(sizes, 16<<20+1, 64<<20+1)
	}
	through := func(b []byte, fn func(path string) error) error {
		dir, err := os.MkdirTemp(e.Work, "pipe")
		if err != nil {
			return err
		}
		defer os.RemoveAll(dir)
		path, _, done, err := feed(dir, "p", "fifo", b)
		if err != nil {
			return err
		}
		defer done()
		e.R.Exec(1)
		return limited(func() error { return fn(path) })
	}
	for _, n := range sizes {
		b := contentOf(r, n)
		var s *sign.Signature
		err := through(b, func(path string) (err error) { s, err = A.SK.SignFile(path); return })
		if err != nil || s == nil {
			e.R.Violation("sign-fails/pipe", fmt.Sprintf("signing %d bytes from a pipe: %v", n, err), n)
			continue
		}
		plain := filepath.Join(e.Work, "pipe-plain")
		must(os.WriteFile(plain, b, 0600))
		if ok, err := A.PK.VerifyFile(plain, s); !ok || err != nil {
			e.R.Violation("verify/pipe", fmt.Sprintf("the signature of %d bytes from a pipe does not verify for a file of the same content: %v", n, err), n)
		}
		os.Remove(plain)
		ver := func(b []byte) (ok bool, err error) {
			err = through(b, func(path string) (err error) { ok, err = A.PK.VerifyFile(path, s); return })
			return
		}
		if ok, err := ver(b); !ok || err != nil {
			e.R.Violation("verify/pipe", fmt.Sprintf("the signature of %d bytes does not verify for the same bytes from a pipe: %v", n, err), n)
		}
		bad := [][]byte{append(bytes.Clone(b), 0), append(bytes.Clone(b), b...)}
		for k := 12; k < 24 && 1<<k < n; k++ {
			bad = append(bad, b[:1<<k])
		}
		if n > 0 {
			x := bytes.Clone(b)
			x[n-1] ^= 1
			bad = append(bad, b[:n-1], x)
		}
		for _, x := range bad {
			if bytes.Equal(x, b) {
				continue
			}
			if ok, _ := ver(x); ok {
				e.R.Violation("verify/pipe-altered", fmt.Sprintf("the signature of %d bytes verifies for %d other bytes from a pipe", n, len(x)), n)
			}
		}
		e.R.Trace()
		e.R.Count("pipe_lengths")
	}
}

func digestStream(fn string) []byte {
	f, err := os.Open(fn)
	if err != nil {
		return nil
	}
	defer f.Close()
	h := sha512.New()
	n, _ := io.Copy(h, f)
	var b [8]byte
	for i := range b {
		b[7-i] = byte(n >> (8 * i))
	}
	h.Write(b[:])
	return h.Sum(nil)
}

func msgOf(ck []byte) []byte {
	h := sha512.New()
	h.Write([]byte("sigtool signed message"))
	h.Write(ck)
	return h.Sum(nil)
}
