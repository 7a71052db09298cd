package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/opencoff/sigtool/sign"
	"verifharness/ref"
)

func init() { cmds["stream"] = cmdStream }

// StreamCase is a configuration of Stream.tla, with what must have been
// passed on when the tool asks for more after so many units of input.
type StreamCase struct {
	Op    string `json:"op"`
	N     int    `json:"n"`
	K     int    `json:"k"`
	Piece int    `json:"piece"`
	Size  int    `json:"size"`
	Needs []int  `json:"needs"`
}

// askSource hands out b in pieces and calls ask before each of them.
type askSource struct {
	b     []byte
	pos   int
	piece int
	ask   func(pos int)
}

func (s *askSource) Read(b []byte) (int, error) {
	s.ask(s.pos)
	if s.pos >= len(s.b) {
		return 0, io.EOF
	}
	n := min(len(b), len(s.b)-s.pos)
	if s.piece > 0 {
		n = min(n, s.piece)
	}
	copy(b, s.b[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

// blocksIn tells how many complete blocks of bs bytes are among the bytes of an encrypted file.
func blocksIn(b []byte) int {
	if len(b) < 12 {
		return 0
	}
	o := 12 + int(uint32(b[8])<<24|uint32(b[9])<<16|uint32(b[10])<<8|uint32(b[11])) + 32
	n := 0
	for o+4 <= len(b) {
		o += 4 + int(uint32(b[o]&0x7f)<<24|uint32(b[o+1])<<16|uint32(b[o+2])<<8|uint32(b[o+3])) + 16
		if o > len(b) {
			break
		}
		n++
	}
	return n
}

const streamU = 2 // units in a block

func (c *StreamCase) run(e *Env, p map[string]*Party, bs int, g int) {
	cc := *c
	c = &cc
	if bs > 5000 {
		c.Piece *= 997
	}
	r := Rng(e.Seed, "stream", g, bs)
	unit := bs / streamU
	pt := bytesOf(r, c.N*unit)
	by, want := (*Party)(nil), (*Party)(nil)
	if r.Intn(2) == 0 {
		by, want = p["S"], p["S"]
	}
	to := withOthers(p, otherRecipients(r), "r1")
	desc := fmt.Sprintf("%s of %d bytes in blocks of %d (sender %v, %d recipients, pieces of %d)", map[string]string{
		"enc": "encryption", "encs": "stream encryption", "dec": "decryption", "decs": "stream decryption", "open": "opening"}[c.Op], len(pt), bs, by != nil, len(to), c.Piece)
	late := func(pos, units, rel int) {
		if units < len(c.Needs) && rel < c.Needs[units] {
			e.R.Violation("late/"+c.Op, fmt.Sprintf("%s: after %d bytes of input more is asked for, and only %d blocks have been passed on, not %d", desc, pos, rel, c.Needs[units]), c)
			c.Needs = nil // once
		}
	}
	e.R.Exec(1)
	switch c.Op {
	case "enc", "encs":
		var out Sink
		err := Guard(func() error {
			var sk *sign.PrivateKey
			if by != nil {
				sk = by.SK
			}
			x, err := sign.NewEncryptor(sk, uint64(bs))
			for _, t := range to {
				if err == nil {
					err = x.AddRecipient(t.PK)
				}
			}
			if err != nil {
				return err
			}
			ask := func(pos int) { late(pos, pos/unit, blocksIn(out.Bytes())) }
			if c.Op == "enc" {
				return x.Encrypt(&askSource{b: pt, piece: c.Piece, ask: ask}, &out)
			}
			w, err := x.NewStreamWriter(&out)
			if err != nil {
				return err
			}
			for pos := 0; pos < len(pt); {
				n := len(pt) - pos
				if c.Piece > 0 {
					n = min(n, c.Piece)
				} else {
					n = min(n, 1+r.Intn(3*bs))
				}
				if _, err = w.Write(pt[pos : pos+n]); err != nil {
					return err
				}
				pos += n
				ask(pos)
			}
			return w.Close()
		})
		if err != nil {
			e.R.Violation("fails/"+c.Op, desc+": "+err.Error(), c)
		}
	default:
		f, err := c.file(pt, bs, by, to, r.Intn(2) == 0)
		if err != nil {
			e.R.Note("stream: %v", err)
			return
		}
		b := f.Bytes()
		hdr := len(b) - len(f.Trl) - len(f.Tail)
		for _, s := range f.Segs {
			hdr -= len(s.LW) + len(s.Box)
		}
		units := func(pos int) int { // complete units among the first pos bytes
			o, u := hdr, 0
			if pos < o {
				return 0
			}
			u++
			for _, s := range f.Segs {
				if o += len(s.LW); pos < o {
					return u
				}
				u++
				if o += len(s.Box); pos < o {
					return u
				}
				u++
			}
			if pos >= o+len(f.Trl) {
				u++
			}
			return u
		}
		var out bytes.Buffer
		src := &askSource{b: append(append([]byte(nil), b...), bytesOf(r, 3*bs+200)...), piece: c.Piece}
		src.ask = func(pos int) {
			late(pos, units(pos), out.Len()/bs)
		}
		exact := func(end int, what string) {
			if src.pos > end {
				e.R.Violation("ahead/"+c.Op, fmt.Sprintf("%s: %s took %d bytes from the source, %d more than there are", desc, what, src.pos, src.pos-end), c)
			} else if src.pos < end {
				e.R.Violation("less/"+c.Op, fmt.Sprintf("%s: %s took %d bytes from the source, %d too few", desc, what, src.pos, end-src.pos), c)
			}
		}
		err = Guard(func() error {
			d, err := sign.NewDecryptor(src)
			if err != nil {
				return err
			}
			exact(hdr, "opening the file")
			var pk *sign.PublicKey
			if want != nil {
				pk = want.PK
			}
			if err = d.SetPrivateKey(p["r1"].SK, pk); err != nil {
				return err
			}
			exact(hdr, "setting the key")
			if c.Op == "open" {
				return nil
			}
			if c.Op == "dec" {
				err = d.Decrypt(&out)
			} else {
				var s io.Reader
				if s, err = d.NewStreamReader(); err != nil {
					return err
				}
				buf := make([]byte, 1+r.Intn(3*bs))
				for err == nil {
					var n int
					n, err = s.Read(buf)
					out.Write(buf[:n])
				}
				if err == io.EOF {
					err = nil
				}
			}
			if err == nil {
				exact(len(b), "the decryption")
			}
			return err
		})
		if err != nil || c.Op != "open" && !bytes.Equal(out.Bytes(), pt) {
			e.R.Violation("fails/"+c.Op, fmt.Sprintf("%s, with other data after the file: %v", desc, err), c)
		}
	}
	e.R.Trace()
}

// file makes an encrypted file with the number of blocks of the case.
func (c *StreamCase) file(pt []byte, bs int, by *Party, to []*Party, stream bool) (*ref.File, error) {
	for _, iface := range []string{"file", "stream"} {
		b, err := Encrypt(uint64(bs), by, to, pt, iface, nil)
		if err != nil {
			return nil, err
		}
		f, err := ref.Split(b)
		if err != nil {
			return nil, err
		}
		if len(f.Segs) == c.K {
			return f, nil
		}
	}
	return nil, fmt.Errorf("neither interface makes %d blocks of %d bytes", c.K, len(pt))
}

// memory: what is in use in the middle of a long operation does not grow.
func streamMemory(e *Env, p map[string]*Party) {
	type cfg struct {
		bs, n int
	}
	cfgs := []cfg{{4, 3 << 20}, {64, 24 << 20}, {65536, 192 << 20}}
	if e.Thorough() {
		cfgs = []cfg{{1, 4 << 20}, {16, 64 << 20}, {64, 256 << 20}, {65536, 2 << 30}, {1 << 20, 1 << 30}}
	}
	live := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	for _, c := range cfgs {
		for _, op := range []string{"enc", "encs", "dec", "decs"} {
			var v []uint64
			var at []int
			marks := []int{c.n / 8, c.n / 2, c.n - c.n/8}
			mark := func(pos int) {
				if len(v) < len(marks) && pos >= marks[len(v)] {
					v = append(v, live())
					at = append(at, pos)
				}
			}
			enc := func(w io.WriteCloser, mark func(int)) error {
				x, err := sign.NewEncryptor(p["S"].SK, uint64(c.bs))
				if err == nil {
					err = x.AddRecipient(p["r1"].PK)
				}
				if err != nil {
					return err
				}
				src := &zeroSource{n: c.n, mark: mark}
				if op != "encs" {
					return x.Encrypt(src, w)
				}
				s, err := x.NewStreamWriter(w)
				if err != nil {
					return err
				}
				if _, err = io.CopyBuffer(struct{ io.Writer }{s}, struct{ io.Reader }{src}, make([]byte, 30000)); err != nil {
					return err
				}
				return s.Close()
			}
			err := Guard(func() error {
				if op[0] == 'e' {
					return enc(nullSink{}, mark)
				}
				pr, pw := io.Pipe()
				go func() {
					err := enc(pw, func(int) {})
					pw.CloseWithError(err)
				}()
				defer pr.Close()
				d, err := sign.NewDecryptor(pr)
				if err != nil {
					return err
				}
				if err = d.SetPrivateKey(p["r1"].SK, p["S"].PK); err != nil {
					return err
				}
				w := &markSink{mark: mark}
				if op == "dec" {
					return d.Decrypt(w)
				}
				s, err := d.NewStreamReader()
				if err != nil {
					return err
				}
				_, err = io.CopyBuffer(struct{ io.Writer }{w}, struct{ io.Reader }{s}, make([]byte, 30000))
				return err
			})
			e.R.Exec(1)
			if err != nil {
				e.R.Violation("fails/long/"+op, fmt.Sprintf("%s of %d bytes in blocks of %d: %v", op, c.n, c.bs, err), nil)
				continue
			}
			if len(v) == 3 {
				grown := int64(v[2]) - int64(v[1])
				if g := int64(v[1]) - int64(v[0]); g < grown {
					grown = g // it has to go on growing
				}
				if limit := int64(128<<10 + 8*c.bs); grown > limit {
					e.R.Violation("memory/"+op, fmt.Sprintf("%s of %d bytes in blocks of %d: %d, %d and %d bytes of memory in use after %d, %d and %d bytes of data", op, c.n, c.bs, v[0], v[1], v[2], at[0], at[1], at[2]), nil)
				}
				e.R.Count("memory_profiles")
				e.R.Note("%s of %d bytes in blocks of %d: %d, %d, %d bytes in use", op, c.n, c.bs, v[0], v[1], v[2])
			}
		}
	}
}

type zeroSource struct {
	n, pos int
	mark   func(int)
}

func (z *zeroSource) Read(b []byte) (int, error) {
	z.mark(z.pos)
	if z.pos >= z.n {
		return 0, io.EOF
	}
	n := min(len(b), z.n-z.pos)
	clear(b[:n])
	z.pos += n
	return n, nil
}

type nullSink struct{}

func (nullSink) Write(b []byte) (int, error) { return len(b), nil }
func (nullSink) Close() error                { return nil }

type markSink struct {
	pos  int
	mark func(int)
}

func (m *markSink) Write(b []byte) (int, error) {
	m.pos += len(b)
	m.mark(m.pos)
	return len(b), nil
}

// lockedBuf collects what a process writes.
type lockedBuf struct {
	sync.Mutex
	b []byte
}

func (l *lockedBuf) Write(b []byte) (int, error) {
	l.Lock()
	defer l.Unlock()
	l.b = append(l.b, b...)
	return len(b), nil
}
func (l *lockedBuf) bytes() []byte {
	l.Lock()
	defer l.Unlock()
	return append([]byte(nil), l.b...)
}

// streamProgram: the program in a pipe passes on what it can while its input
// stays open, and its memory does not grow with the input.
func streamProgram(e *Env, p map[string]*Party) error {
	dir := filepath.Join(e.Work, "prog")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	put := func(n string, b []byte) string {
		fn := filepath.Join(dir, n)
		os.WriteFile(fn, b, 0600)
		return fn
	}
	pub := put("r1.pub", ref.MakePub(p["r1"].EdPK, "c"))
	key := put("r1.key", ref.MakePriv(p["r1"].Ed, nil, "c", 2, 1, 1).Bytes())
	const bs = 4096
	pt := bytesOf(Rng(e.Seed, "stream prog"), 12*bs+100)
	b, err := Encrypt(bs, nil, []*Party{p["r1"]}, pt, "file", nil)
	if err != nil {
		return err
	}
	f, err := ref.Split(b)
	if err != nil {
		return err
	}
	hdr := len(b) - len(f.Trl) - len(f.Segs)*(bs+20) + (bs - 100)
	wait := func(ok func() bool, done <-chan error) bool {
		for end := time.Now().Add(40 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			if ok() {
				return true
			}
			select {
			case <-done:
				return ok()
			default:
			}
		}
		return ok()
	}
	late := map[string]bool{}
	for _, k := range []int{2, 3, 7, 12} {
		for _, op := range []string{"encrypt", "decrypt"} {
			if late[op] { // each takes a long time
				continue
			}
			var in []byte
			var arg []string
			var cut int
			if op == "encrypt" {
				in, cut, arg = pt, k*bs, []string{"encrypt", "-B", "4096", pub, "-"}
			} else {
				in, cut, arg = b, hdr+k*(bs+20), []string{"decrypt", "--no-password", key, "-"}
			}
			c := exec.Command(e.Bin, arg...)
			c.Dir = dir
			c.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
			var out, eb lockedBuf
			c.Stdout, c.Stderr = &out, &eb
			w, err := c.StdinPipe()
			if err != nil {
				return err
			}
			if err = c.Start(); err != nil {
				return err
			}
			done := make(chan error, 1)
			go func() { done <- c.Wait() }()
			go w.Write(in[:cut])
			enough := func() bool {
				if op == "encrypt" {
					return blocksIn(out.bytes()) >= k-1
				}
				return len(out.bytes()) >= (k-1)*bs
			}
			ok := wait(enough, done)
			e.R.Exec(1)
			if late[op] = !ok; !ok {
				e.R.Violation("late/program/"+op, fmt.Sprintf("sigtool %s in a pipe: %d bytes after %d blocks of input, which stays open (%s)", strings.Join(arg, " "), len(out.bytes()), k, eb.bytes()), nil)
			}
			c.Process.Kill()
			w.Close()
			<-done
			e.R.Trace()
		}
	}
	// memory
	rss := func(arg []string, in func(w io.Writer) error) (int64, error) {
		c := exec.Command(e.Bin, arg...)
		c.Dir = dir
		c.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
		w, err := c.StdinPipe()
		if err != nil {
			return 0, err
		}
		if err := c.Start(); err != nil {
			return 0, err
		}
		in(w)
		w.Close()
		if err := c.Wait(); err != nil {
			return 0, err
		}
		u, ok := c.ProcessState.SysUsage().(*syscall.Rusage)
		if !ok {
			return 0, errors.New("no resource usage")
		}
		return u.Maxrss << 10, nil
	}
	sizes := []int{4 << 20, 256 << 20}
	if e.Thorough() {
		sizes[1] = 1 << 30
	}
	for _, op := range []string{"encrypt", "decrypt", "test"} {
		var m [2]int64
		for i, n := range sizes {
			arg := []string{"encrypt", "-B", "65536", "-o", "/dev/null", "--overwrite", pub, "-"}
			in := func(w io.Writer) error {
				_, err := io.CopyBuffer(struct{ io.Writer }{w}, &zeroSource{n: n, mark: func(int) {}}, make([]byte, 1<<16))
				return err
			}
			switch op {
			case "encrypt":
				arg = []string{"encrypt", "-B", "65536", pub, "-"}
			case "decrypt":
				arg = []string{"decrypt", "--no-password", key, "-"}
			case "test":
				arg = []string{"decrypt", "-t", "--no-password", key, "-"}
			}
			if op != "encrypt" {
				in = func(w io.Writer) error {
					x, err := sign.NewEncryptor(nil, 65536)
					if err == nil {
						err = x.AddRecipient(p["r1"].PK)
					}
					if err != nil {
						return err
					}
					return x.Encrypt(&zeroSource{n: n, mark: func(int) {}}, struct {
						io.Writer
						io.Closer
					}{w, nullSink{}})
				}
			}
			if m[i], err = rss(arg, in); err != nil {
				e.R.Violation("fails/program/"+op, fmt.Sprintf("sigtool %s with %d bytes: %v", op, n, err), nil)
				break
			}
			e.R.Exec(1)
		}
		if err == nil && m[1]-m[0] > 96<<20 {
			e.R.Violation("memory/program/"+op, fmt.Sprintf("sigtool %s uses %d bytes of memory for %d bytes of data and %d bytes for %d", op, m[0], sizes[0], m[1], sizes[1]), nil)
		}
		e.R.Note("memory of the program: %s: %d MiB for %d MiB, %d MiB for %d MiB", op, m[0]>>20, sizes[0]>>20, m[1]>>20, sizes[1]>>20)
	}
	return nil
}

func cmdStream(e *Env) error {
	p := Parties(append(append([]string{}, fillers...), "r1", "S")...)
	cs, err := AllCases[StreamCase](e.Cases)
	if err != nil {
		return err
	}
	sizes := []int{2, 16, 1000, 4096, 65536}
	Par(len(cs)*len(sizes), func(i int) {
		if !e.Late() {
			cs[i/len(sizes)].run(e, p, sizes[i%len(sizes)], i)
		}
	})
	streamMemory(e, p)
	return streamProgram(e, p)
}
