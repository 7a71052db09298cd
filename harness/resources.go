package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/opencoff/sigtool/sign"
	"verifharness/ref"
)

func init() { cmds["resources"] = cmdResources }

// ResCase is a behaviour of Resources.tla.
type ResCase struct {
	Op  string `json:"op"`
	Bad string `json:"bad"`
	OK  bool   `json:"ok"`
}

// held is what the process holds: open files, mappings of files in dir,
// goroutines, names in dir.
type held struct {
	fds, maps, names []string
	goroutines       int
}

func holding(dir string) (h held) {
	d, err := os.Open("/proc/self/fd")
	if err == nil {
		ns, _ := d.Readdirnames(-1)
		own := fmt.Sprint(d.Fd())
		d.Close()
		for _, n := range ns {
			if n != own {
				t, err := os.Readlink("/proc/self/fd/" + n)
				if err == nil && !strings.HasPrefix(t, "anon_inode:") {
					h.fds = append(h.fds, t)
				}
			}
		}
	}
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir); i >= 0 {
			h.maps = append(h.maps, l[i:])
		}
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		h.names = append(h.names, e.Name())
	}
	sort.Strings(h.fds)
	h.goroutines = runtime.NumGoroutine()
	return
}

// closable is a source or destination that counts how often it is closed.
type closable struct {
	io.Reader
	io.Writer
	closes int
	err    error
}

func (c *closable) Close() error { c.closes++; return c.err }

type failReader struct {
	r io.Reader
	n int
}

func (f *failReader) Read(b []byte) (int, error) {
	if f.n <= 0 {
		return 0, errFar
	}
	n, err := f.r.Read(b[:min(len(b), f.n)])
	f.n -= n
	return n, err
}

func (c *ResCase) once(p map[string]*Party, dir string, enc []byte, i int) (err error, note string) {
	fn := filepath.Join(dir, "in")
	limit := func(fn func() error) error {
		if c.Bad != "full" {
			return fn()
		}
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 5, Max: old.Max})
		defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		return fn()
	}
	A := p["r1"]
	if i%2 == 1 && c.Op == "sign" || c.Op == "verify" && i%3 == 1 {
		fn = filepath.Join(dir, "empty")
	}
	if (c.Op == "sign" || c.Op == "verify") && i%6 == 5 {
		fn = filepath.Join(dir, "big")
	}
	switch c.Bad {
	case "missing":
		fn = filepath.Join(dir, "missing")
	case "nomap", "unreadable":
		fn = filepath.Join(dir, "d") // a directory opens, and cannot be read
	case "malformed":
		fn = filepath.Join(dir, "junk")
	}
	out := filepath.Join(dir, "out")
	switch c.Bad {
	case "exists":
		out = filepath.Join(dir, "junk")
	case "nodir":
		out = filepath.Join(dir, "nodir", "out")
	case "isdir":
		out = filepath.Join(dir, "d")
	}
	ow := c.Bad == "isdir"
	defer os.Remove(filepath.Join(dir, "out"))
	to := []*sign.PublicKey{A.PK, p["S"].PK}
	encryptor := func(w io.Writer) (*sign.Encryptor, error) {
		x, err := sign.NewEncryptor(p["S"].SK, 64)
		for _, t := range to {
			if err == nil && c.Bad != "norecipient" {
				err = x.AddRecipient(t)
			}
		}
		return x, err
	}
	src := &closable{Reader: bytes.NewReader(bytes.Repeat([]byte("data "), 100))}
	var buf bytes.Buffer
	dst := &closable{Writer: &buf}
	switch c.Bad {
	case "source":
		src.Reader = &failReader{src.Reader, 200}
	case "dest":
		dst.Writer = &cutSink{n: 400}
	case "close":
		dst.err = errFar
	}
	switch c.Op {
	case "sign":
		_, err = A.SK.SignFile(fn)
	case "verify":
		var s *sign.Signature
		if s, err = A.SK.SignMessage([]byte("x"), ""); err == nil {
			_, err = A.PK.VerifyFile(fn, s)
		}
	case "readsk":
		if c.Bad == "none" {
			fn = filepath.Join(dir, "key")
		}
		_, err = sign.ReadPrivateKey(fn, func() ([]byte, error) { return nil, nil })
	case "readpk":
		if c.Bad == "none" {
			fn = filepath.Join(dir, "pub")
		}
		_, err = sign.ReadPublicKey(fn)
	case "readsig":
		if c.Bad == "none" {
			fn = filepath.Join(dir, "sig")
		}
		_, err = sign.ReadSignature(fn)
	case "savepk":
		err = limit(func() error { return A.PK.Serialize(out, "c", ow) })
	case "savesk":
		err = limit(func() error { return A.SK.Serialize(out, "c", ow, nil) })
	case "savesig":
		var s *sign.Signature
		if s, err = A.SK.SignMessage([]byte("x"), ""); err == nil {
			err = limit(func() error { return s.Serialize(out, "c", ow) })
		}
	case "enc", "encs":
		var x *sign.Encryptor
		if x, err = encryptor(dst); err != nil {
			return
		}
		if c.Op == "enc" {
			err = x.Encrypt(src, dst)
		} else {
			var w io.WriteCloser
			if w, err = x.NewStreamWriter(dst); err == nil {
				_, err = io.Copy(w, src)
				if err == nil {
					err = w.Close()
				}
			}
		}
		if src.closes > 0 {
			note = "the source of an encryption was closed, which the caller opened"
		}
		if err == nil && dst.closes != 1 || dst.closes > 1 {
			note = fmt.Sprintf("the destination of an encryption (result %v) was closed %d times", err, dst.closes)
		}
	case "dec", "decs":
		b := append([]byte(nil), enc...)
		who := A
		switch c.Bad {
		case "header":
			b[20] ^= 1
		case "wrongkey":
			who = p["x"]
		case "tampered":
			b[len(b)-100] ^= 1
		}
		src.Reader = bytes.NewReader(b)
		if c.Bad == "source" {
			src.Reader = &failReader{src.Reader, len(b) - 100}
		}
		if c.Bad == "dest" {
			dst.Writer = &cutSink{n: 100}
		}
		var d *sign.Decryptor
		if d, err = sign.NewDecryptor(src); err == nil {
			if err = d.SetPrivateKey(who.SK, p["S"].PK); err == nil {
				if c.Op == "dec" {
					err = d.Decrypt(dst)
				} else {
					var r io.Reader
					if r, err = d.NewStreamReader(); err == nil {
						_, err = io.Copy(dst, r)
					}
				}
			}
		}
		if src.closes > 0 || dst.closes > 0 {
			note = "the source or destination of a decryption was closed, which the caller opened"
		}
	}
	return
}

func cmdResources(e *Env) error {
	cs, err := AllCases[ResCase](e.Cases)
	if err != nil {
		return err
	}
	p := Parties("r1", "S", "x")
	enc, err := Encrypt(64, p["S"], []*Party{p["r1"], p["S"]}, bytes.Repeat([]byte("data "), 100), "file", nil)
	if err != nil {
		return err
	}
	dir, err := os.MkdirTemp(e.Work, "res")
	if err != nil {
		return err
	}
	sig, err := p["r1"].SK.SignMessage([]byte("x"), "")
	if err != nil {
		return err
	}
	sb, err := sig.MarshalBinary("c")
	if err != nil {
		return err
	}
	for n, b := range map[string][]byte{"in": bytes.Repeat([]byte("content\n"), 5000), "empty": nil, "big": make([]byte, 3<<20+5), "junk": []byte("%: {[\n"),
		"key": ref.MakePriv(p["r1"].Ed, nil, "c", 2, 1, 1).Bytes(), "pub": ref.MakePub(p["r1"].EdPK, "c"), "sig": sb} {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0600); err != nil {
			return err
		}
	}
	if err := os.MkdirAll(filepath.Join(dir, "d", "x"), 0755); err != nil {
		return err
	}
	os.Remove(filepath.Join(dir, "missing"))
	signal.Ignore(syscall.SIGXFSZ)
	// what is left must not be swept up before it is seen
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	for _, c := range cs {
		n := 24
		if e.Thorough() {
			n *= 4
		}
		if c.Op == "savesk" { // scrypt: half a gigabyte each
			n = 2
			debug.FreeOSMemory()
		}
		run := func(n int) (err error, note string) {
			for i := 0; i < n && note == ""; i++ {
				var x string
				gerr := Guard(func() error { err, x = c.once(p, dir, enc, i); return nil })
				if gerr != nil {
					return gerr, "crash: " + gerr.Error()
				}
				note = x
				if (err == nil) != c.OK {
					note = fmt.Sprintf("result %v", err)
					if err == nil {
						err = errors.New("no error")
					}
					return err, note
				}
				e.R.Exec(1)
			}
			return
		}
		desc := fmt.Sprintf("%s (%s)", c.Op, map[bool]string{true: "successful", false: "failing: " + c.Bad}[c.OK])
		names := holding(dir).names
		if err, note := run(1); note != "" { // also opens what is opened once
			if strings.HasPrefix(note, "result") {
				e.R.Note("%s: %s", desc, note)
				continue
			}
			e.R.Violation("closes/"+c.Op, desc+": "+note, fmt.Sprint(err))
			continue
		}
		before := holding(dir)
		run(n)
		after := holding(dir)
		for t := 0; t < 50 && after.goroutines > before.goroutines; t++ {
			time.Sleep(10 * time.Millisecond)
			after = holding(dir)
		}
		// something that stays once is not lost again and again
		if d := len(after.fds) - len(before.fds); d >= n/2 {
			e.R.Violation("files/"+c.Op, fmt.Sprintf("%s: %d more open files after %d times: %s", desc, d, n, lastOf(after.fds, 3)), c)
		}
		if d := len(after.maps) - len(before.maps); d >= n/2 {
			e.R.Violation("mappings/"+c.Op, fmt.Sprintf("%s: %d more mapped files after %d times: %s", desc, d, n, lastOf(after.maps, 3)), c)
		}
		if d := after.goroutines - before.goroutines; d >= n/2 {
			e.R.Violation("goroutines/"+c.Op, fmt.Sprintf("%s: %d more goroutines after %d times", desc, d, n), c)
		}
		if d := len(after.names) - len(names); d > 0 {
			e.R.Violation("names/"+c.Op, fmt.Sprintf("%s: %d more files in the directory after %d times: %s", desc, d, n+1, strings.Join(after.names, " ")), c)
		}
		if len(after.fds) < len(before.fds) {
			e.R.Violation("closes/"+c.Op, fmt.Sprintf("%s: %d fewer open files after %d times", desc, len(before.fds)-len(after.fds), n), c)
		}
		e.R.Trace()
	}
	return nil
}

func lastOf(v []string, n int) string {
	if len(v) > n {
		v = v[len(v)-n:]
	}
	return strings.Join(v, ", ")
}
