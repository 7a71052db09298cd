package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"

	"sync"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	cmds["declife"] = cmdDecLife
	cmds["partition"] = cmdPartition
}

type DCall struct {
	Op   string `json:"op"`
	R    int    `json:"r"`
	N    int    `json:"n"`
	Who  string `json:"who"`
	Want string `json:"want"`
	F    string `json:"f"`
}

type DCase struct {
	Sz     []int   `json:"sz"`
	Signed bool    `json:"signed"`
	Comp   int     `json:"comp"`
	Kind   string  `json:"kind"`
	Ops    []DCall `json:"ops"`
}

// DEvent mirrors the events of DecMonitor.tla.
type DEvent struct {
	Op      string `json:"op"`
	R       int    `json:"r"`
	Fit     bool   `json:"fit"`
	Ask     bool   `json:"ask"`
	Res     string `json:"res"`
	Got     int    `json:"got"`
	Pre     bool   `json:"pre"`
	All     bool   `json:"all"`
	None    bool   `json:"none"`
	Fired   bool   `json:"fired"`
	Drained bool   `json:"drained"`
}

// layout of an encrypted file: header length and offset of each block.
func layout(b []byte) (hdr int, blk []int, trl int) {
	if len(b) < 12 {
		return 0, nil, 0
	}
	hdr = 12 + int(binary.BigEndian.Uint32(b[8:12])) + 32
	for o := hdr; ; {
		if o < 0 || o+4 > len(b) {
			return 0, nil, 0 // not in the documented format: reported by C16
		}
		blk = append(blk, o)
		w := binary.BigEndian.Uint32(b[o:])
		o += 4 + int(w&(1<<31-1)) + 16
		if w>>31 == 1 {
			return hdr, blk, o
		}
	}
}

// files caches encrypted files by shape: they are only read.
type fileCache struct {
	mu sync.Mutex
	m  map[string][2][]byte
}

// fillers are recipients besides r1 and r2: how many there are must not matter.
var fillers = func() (v []string) {
	for i := 0; i < 40; i++ {
		v = append(v, fmt.Sprint("f", i))
	}
	return v[:len(v):len(v)]
}()

// someUnit is usually one of the small ones.
func someUnit(r *rand.Rand, small ...int) int {
	switch x := r.Intn(600); {
	case x == 0:
		return 1<<19 + 5
	case x < 10:
		return 1<<15 + r.Intn(3) - 1
	}
	return small[r.Intn(len(small))]
}

// otherRecipients is how many more recipients there are.
func otherRecipients(r *rand.Rand) int { return []int{0, 0, 0, 1, 2, 3, 6, 14, 40}[r.Intn(9)] }

// withOthers is a list of recipients, some of which don't matter.
func withOthers(p map[string]*Party, more int, names ...string) (to []*Party) {
	for _, n := range append(names, fillers[:more]...) {
		if p[n] == nil {
			panic("no party " + n)
		}
		to = append(to, p[n])
	}
	return
}

func (fc *fileCache) get(p map[string]*Party, sz []int, unit int, signed bool, more int) (ct, pt []byte) {
	k := fmt.Sprint(sz, unit, signed, more)
	fc.mu.Lock()
	defer fc.mu.Unlock()
	if v, ok := fc.m[k]; ok {
		return v[0], v[1]
	}
	n := 0
	for _, z := range sz {
		n += z * unit
	}
	pt = bytesOf(Rng(7, k), n)
	var by *Party
	if signed {
		by = p["S"]
	}
	// an empty last block is written by the file interface only
	iface := "file"
	if last := sz[len(sz)-1]; last == 2 {
		iface = "stream"
	}
	to := []*Party{p["r1"]}
	for _, f := range fillers[:more] {
		to = append(to, p[f])
	}
	to = append(to, p["r2"])
	ct, err := Encrypt(uint64(2*unit), by, to, pt, iface, nil)
	if err != nil {
		ct = nil
	}
	fc.m[k] = [2][]byte{ct, pt}
	return ct, pt
}

// onceSrc fails (or ends) at an offset; after a transient failure it goes on.
type onceSrc struct {
	data  []byte
	off   int
	at    int // < 0: never
	err   error
	once  bool
	fired bool
	ever  bool
	style int
	r     *rand.Rand
}

func (s *onceSrc) Read(b []byte) (int, error) {
	if s.at >= 0 && s.off >= s.at && !(s.once && s.ever) {
		s.fired, s.ever = true, true
		return 0, s.err
	}
	end := len(s.data)
	if s.at >= 0 && !(s.once && s.ever) {
		end = s.at
	}
	if s.off >= end {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := min(len(b), end-s.off)
	switch s.style {
	case 1:
		n = 1
	case 2, 4:
		if s.style == 4 && s.r.Intn(4) == 0 {
			return 0, nil
		}
		n = 1 + s.r.Intn(n)
	}
	copy(b, s.data[s.off:s.off+n])
	s.off += n
	if s.style == 3 && s.off == end {
		if s.at >= 0 && !(s.once && s.ever) {
			s.fired, s.ever = true, true
			return n, s.err
		}
		return n, io.EOF
	}
	return n, nil
}

// dstW accepts a number of bytes.
type dstW struct {
	data  []byte
	limit int // < 0: all
	once  bool
	fired bool
	ever  bool
	late  bool // the failing write takes all of its bytes all the same
	short *rand.Rand
	err   error
	fails int
}

func (d *dstW) fail() error {
	if d.fails++; d.err == nil || d.fails > 10000 {
		return errInjected
	}
	return d.err
}

func (d *dstW) Write(b []byte) (int, error) {
	n := len(b)
	if d.late && d.limit >= 0 && len(d.data)+n > d.limit && !d.ever {
		d.data = append(d.data, b...)
		d.fired, d.ever = true, true
		return n, d.fail()
	}
	if d.short != nil && n > 1 {
		n = 1 + d.short.Intn(n)
	}
	if d.limit >= 0 && len(d.data)+n > d.limit && !(d.once && d.ever) {
		n = d.limit - len(d.data)
		if n < 0 {
			n = 0
		}
		d.data = append(d.data, b[:n]...)
		d.fired, d.ever = true, true
		return n, d.fail()
	}
	d.data = append(d.data, b[:n]...)
	return n, nil
}

// decRun executes one call sequence on a real decryption context.
func decRun(p map[string]*Party, fc *fileCache, c *DCase, unit int, r *rand.Rand) (evs []DEvent, desc []string) {
	more := otherRecipients(r)
	ct, pt := fc.get(p, c.Sz, unit, c.Signed, more)
	if ct == nil {
		return nil, nil // reported by C01
	}
	_, blk, trl := layout(ct)
	if len(blk) == 0 || trl >= len(ct) {
		return nil, nil
	}
	src := &onceSrc{data: ct, at: -1, err: errInjected, style: r.Intn(5), r: r, once: r.Intn(2) == 0}
	if c.Comp > 0 {
		lo, hi := trl, len(ct)
		if c.Comp < 100 {
			if c.Comp > len(blk) {
				return nil, nil
			}
			lo = blk[c.Comp-1]
			if c.Comp < len(blk) {
				hi = blk[c.Comp]
			} else {
				hi = trl
			}
		}
		// at the boundary, within the length word, just before the end, or anywhere
		src.at = lo + []int{0, r.Intn(min(5, hi-lo)), hi - lo - 1, r.Intn(hi - lo)}[r.Intn(4)]
		if c.Kind == "cut" {
			src.err, src.once = io.EOF, false
		} else {
			src.err = ioErr(r)
			if r.Intn(5) == 0 {
				src.err = io.ErrClosedPipe
			}
			if src.style == 3 || errors.Is(src.err, io.ErrClosedPipe) {
				src.once = false // an error that comes with data comes again
			}
		}
	}
	var d *sign.Decryptor
	err := Guard(func() error {
		var err error
		d, err = sign.NewDecryptor(src)
		return err
	})
	desc = append(desc, fmt.Sprintf("file of %v units (unit %d), %d recipients, signed %v, source style %d fault at %d of %d (%v, once %v)", c.Sz, unit, 2+more, c.Signed, src.style, src.at, len(ct), src.err, src.once))
	if err != nil {
		return nil, append(desc, "NewDecryptor: "+err.Error())
	}
	type consumer struct {
		rd  io.Reader
		out []byte
	}
	rs := map[int]*consumer{}
	for _, op := range c.Ops {
		ev := DEvent{Op: op.Op, R: op.R, Res: "ok"}
		src.fired = false
		var err error
		var cur *consumer
		what := op.Op
		got := 0
		switch op.Op {
		case "setkey":
			k := p["r1"]
			if r.Intn(3) == 0 {
				k = p["r2"]
			}
			if op.Who == "wrong" {
				k = p["x"]
			}
			var pk *sign.PublicKey
			if op.Want != "none" {
				pk = p[op.Want].PK
			}
			ev.Fit = op.Who == "right" && (op.Want == "S") == c.Signed && (op.Want == "none") == !c.Signed
			what = fmt.Sprintf("setkey(%s,%s)", op.Who, op.Want)
			err = Guard(func() error { return d.SetPrivateKey(k.SK, pk) })
		case "decrypt":
			dst := &dstW{limit: -1, once: r.Intn(2) == 0, late: r.Intn(4) == 0, err: ioErr(r)}
			bs := 2 * unit
			switch op.F {
			case "blk1":
				if len(pt) > 0 {
					dst.limit = r.Intn(min(bs, len(pt)))
				}
			case "blk2":
				if len(pt) > bs {
					dst.limit = bs + r.Intn(len(pt)-bs)
				}
			}
			if r.Intn(3) == 0 {
				dst.short = rand.New(rand.NewSource(r.Int63()))
			}
			err = Guard(func() error { return d.Decrypt(dst) })
			cur = &consumer{out: dst.data}
			got = len(dst.data)
			src.fired = src.fired || dst.fired
			what = fmt.Sprintf("decrypt(limit %d)", dst.limit)
		case "newreader":
			var rd io.Reader
			err = Guard(func() error {
				var err error
				rd, err = d.NewStreamReader()
				return err
			})
			if err == nil {
				rs[op.R] = &consumer{rd: rd}
			}
			what = fmt.Sprintf("newreader(%d)", op.R)
		case "read":
			cur = rs[op.R]
			if cur == nil {
				continue
			}
			n := op.N * unit
			if op.N > 0 && r.Intn(3) == 0 {
				n = 1 + r.Intn(2*n)
			}
			ev.Ask = n > 0
			b := make([]byte, n, n+3000)
			tail := b[n:cap(b)]
			for i := range tail {
				tail[i] = 0x3c
			}
			var k int
			err = Guard(func() error {
				var err error
				k, err = cur.rd.Read(b)
				return err
			})
			if k < 0 || k > n || bytes.Count(tail, []byte{0x3c}) != len(tail) {
				got = n + 1 // or wrote beyond what it was given
			} else {
				got = k
				cur.out = append(cur.out, b[:k]...)
				for i := range b { // the caller owns its buffer
					b[i] = 0xee
				}
			}
			ev.Got = 0
			if got > n {
				ev.Got = 2
			}
			what = fmt.Sprintf("read(%d,%d)=%d", op.R, n, k)
		}
		switch {
		case err == io.EOF, op.Op != "read" && errors.Is(err, io.EOF):
			ev.Res = "eof"
		case err != nil:
			ev.Res = resOf(err)
		}
		if got > 0 && ev.Got == 0 {
			ev.Got = 1
		}
		ev.Pre, ev.None = true, true
		if cur != nil {
			ev.Pre = bytes.HasPrefix(pt, cur.out)
			ev.All = bytes.Equal(pt, cur.out)
			ev.None = len(cur.out) == 0
		}
		ev.Fired = src.fired
		ev.Drained = src.off >= trl
		if ev.Op == "setkey" || ev.Op == "newreader" {
			ev.Drained = false
		}
		evs = append(evs, ev)
		desc = append(desc, what+" -> "+errStr(err))
	}
	return
}

func cmdDecLife(e *Env) error {
	cases, err := AllCases[DCase](e.Cases)
	if err != nil {
		return err
	}
	p := Parties(append(fillers, "r1", "r2", "x", "S", "T")...)
	fc := &fileCache{m: map[string][2][]byte{}}
	tf, err := NewTraceFile(e.Extra["traces"])
	if err != nil {
		return err
	}
	units := []int{1, 3, 16, 100}
	per := 1
	if e.Thorough() {
		per = 3
	}
	Par(len(cases), func(i int) {
		if e.Late() {
			e.R.Count("skipped_out_of_time")
			return
		}
		for k := 0; k < per; k++ {
			r := Rng(e.Seed, "dec", i, k)
			ev, desc := decRun(p, fc, cases[i], someUnit(r, units...), r)
			if len(ev) == 0 {
				e.R.Count("case_not_executable")
				continue
			}
			e.R.Exec(len(ev))
			e.R.Trace()
			tf.Add(ev, len(ev), desc)
			for _, x := range ev {
				e.R.Count("call_" + x.Op + "_" + x.Res)
			}
			if i%9973 == 0 && k == 0 {
				e.R.Sample(map[string]any{"history": desc})
			}
		}
	})
	// a source that fails or ends within the header
	Par(600, func(i int) {
		r := Rng(e.Seed, "dechdr", i)
		ct, _ := fc.get(p, []int{2, 1}, 16, i%2 == 0, otherRecipients(r))
		hdr, _, _ := layout(ct)
		if hdr == 0 {
			return
		}
		src := &onceSrc{data: ct, at: r.Intn(hdr), err: io.EOF, style: r.Intn(5), r: r, once: i%4 == 1}
		src.once = src.once && src.style != 3
		if i%4 < 2 {
			src.err = ioErr(r)
		}
		err := Guard(func() error {
			_, err := sign.NewDecryptor(src)
			return err
		})
		e.R.Exec(1)
		if err == nil {
			e.R.Violation("fault-hidden/header", fmt.Sprintf("NewDecryptor succeeded although its source stopped (%v) at offset %d of the %d header bytes", src.err, src.at, hdr), map[string]any{"at": src.at, "kind": fmt.Sprint(src.err)})
		}
		if IsPanic(err) {
			e.R.Violation("panic/header", fmt.Sprintf("NewDecryptor crashed when its source stopped at %d: %v", src.at, err), nil)
		}
	})
	n := 3000
	if e.Thorough() {
		n = 30000
	}
	shapes := [][]int{{0}, {1}, {2}, {2, 0}, {2, 1}, {2, 2}, {2, 2, 0}, {2, 2, 1}, {2, 2, 2, 2, 2, 1}, {2, 2, 2, 2, 2, 2, 2, 2, 2, 0}}
	Par(n, func(i int) {
		if e.Late() {
			return
		}
		r := Rng(e.Seed, "declong", i)
		c := &DCase{Sz: shapes[r.Intn(len(shapes))], Signed: r.Intn(2) == 0, Kind: "none"}
		if r.Intn(2) == 0 {
			c.Comp, c.Kind = 1+r.Intn(len(c.Sz)+1), []string{"cut", "err"}[r.Intn(2)]
			if c.Comp > len(c.Sz) {
				c.Comp = 100
			}
		}
		right := DCall{Op: "setkey", Who: "right", Want: map[bool]string{true: "S", false: "none"}[c.Signed]}
		nr, set := 0, false
		for k := 0; k < 6+r.Intn(24); k++ {
			op := DCall{F: "none"}
			switch x := r.Intn(24); {
			case x < 1 || !set && x < 8:
				op = right
				set = true
			case x < 3:
				op.Op, op.Who, op.Want = "setkey", []string{"right", "wrong"}[r.Intn(2)], []string{"S", "T", "none"}[r.Intn(3)]
			case x < 4:
				op.Op, op.F = "decrypt", []string{"none", "blk1", "blk2"}[r.Intn(3)]
			case x < 6 && nr < 4 || nr == 0:
				nr++
				op.Op, op.R = "newreader", nr
			default:
				op.Op, op.R, op.N = "read", nr, r.Intn(4)
				if r.Intn(6) == 0 {
					op.R = 1 + r.Intn(nr)
				}
			}
			c.Ops = append(c.Ops, op)
		}
		ev, desc := decRun(p, fc, c, someUnit(r, units...), r)
		if len(ev) > 0 {
			e.R.Exec(len(ev))
			e.R.Trace()
			tf.Add(ev, len(ev), desc)
		}
	})
	return tf.Close(e.Extra["traces"] + ".desc")
}

// cmdPartition writes one plaintext cut in many ways and reads it back cut in
// many ways: only the bytes may matter.
func cmdPartition(e *Env) error {
	p := Parties(append(fillers, "r1", "S")...)
	n := 4000
	if e.Thorough() {
		n = 60000
	}
	Par(n, func(i int) {
		if e.Late() {
			e.R.Count("skipped_out_of_time")
			return
		}
		r := Rng(e.Seed, "part", i)
		bs := []int{1, 2, 3, 7, 16, 64, 1000, 4096, 65536, 40000, 131072}[r.Intn(11)]
		size := []int{0, 1, bs - 1, bs, bs + 1, 2 * bs, 3*bs - 1, 5 * bs, r.Intn(6*bs + 1)}[r.Intn(9)]
		pt := contentOf(r, size)
		var by *Party
		var sk *sign.PrivateKey
		var spk *sign.PublicKey
		if r.Intn(2) == 0 {
			by = p["S"]
			sk, spk = by.SK, by.PK
		}
		piece := func(rest, pos int) int {
			switch r.Intn(8) {
			case 6, 7: // up to the end of a block, give or take one
				return max(0, min(rest, bs*(1+r.Intn(2))-pos%bs+r.Intn(3)-1))
			case 0:
				return 0
			case 1:
				return min(1, rest)
			case 2:
				return min(bs, rest)
			case 3:
				return min(bs+r.Intn(2*bs+1), rest)
			case 4:
				return rest
			}
			return r.Intn(rest + 1)
		}
		var cuts, reads []int
		var sink FSink
		sink.Fault = "none"
		if r.Intn(3) == 0 {
			sink.Short = r
		}
		bad := func(key, f string, v ...any) {
			e.R.Violation(key, fmt.Sprintf(f, v...)+fmt.Sprintf(" (block size %d, %d bytes, sender %v, writes %v, reads %v)", bs, size, by != nil, cuts, reads),
				map[string]any{"block": bs, "size": size, "writes": cuts, "reads": reads, "seed": e.Seed, "i": i})
		}
		useFile := r.Intn(6) == 0
		err := Guard(func() error {
			x, err := sign.NewEncryptor(sk, uint64(bs))
			if err != nil {
				return err
			}
			for _, f := range fillers[:otherRecipients(r)] {
				if err = x.AddRecipient(p[f].PK); err != nil {
					return err
				}
			}
			if err = x.AddRecipient(p["r1"].PK); err != nil {
				return err
			}
			if useFile {
				return x.Encrypt(bytes.NewReader(pt), &sink)
			}
			w, err := x.NewStreamWriter(&sink)
			if err != nil {
				return err
			}
			rest := pt
			// the rest may come by way of io.Copy
			copied := -1
			if r.Intn(4) == 0 {
				copied = r.Intn(len(pt) + 1)
			}
			for len(rest) > 0 || r.Intn(3) == 0 {
				k := piece(len(rest), len(pt)-len(rest))
				if copied >= 0 && len(pt)-len(rest) >= copied {
					cuts = append(cuts, -len(rest))
					m, err := io.Copy(w, struct{ io.Reader }{sourceOf(rest, r)})
					if err != nil || m != int64(len(rest)) {
						return fmt.Errorf("io.Copy of %d bytes: %d, %v", len(rest), m, err)
					}
					rest, copied = nil, -1
					continue
				}
				cuts = append(cuts, k)
				b := append([]byte(nil), rest[:k]...)
				m, err := w.Write(b)
				if err != nil {
					return err
				}
				if m != k {
					return fmt.Errorf("Write of %d bytes returned %d", k, m)
				}
				if !bytes.Equal(b, rest[:k]) {
					return fmt.Errorf("Write changed the bytes it was given")
				}
				for j := range b {
					b[j] = 0xee
				}
				rest = rest[k:]
			}
			if sink.Complete() {
				return errors.New("file complete before Close")
			}
			return w.Close()
		})
		e.R.Exec(1)
		if err != nil {
			bad("partition/write", "writing: %v", err)
			return
		}
		if sink.Closes != 1 || !sink.Complete() {
			bad("partition/close", "after Close: destination closed %d times, file complete: %v", sink.Closes, sink.Complete())
		}
		var out []byte
		err = Guard(func() error {
			d, err := sign.NewDecryptor(&onceSrc{data: sink.Data, at: -1, style: r.Intn(5), r: r})
			if err != nil {
				return err
			}
			if err = d.SetPrivateKey(p["r1"].SK, spk); err != nil {
				return err
			}
			rd, err := d.NewStreamReader()
			if err != nil {
				return err
			}
			copied := -1
			if r.Intn(4) == 0 {
				copied = r.Intn(len(pt) + 1)
			}
			for steps := 0; ; steps++ {
				if steps > 4*size+1000 {
					return errors.New("no end of file")
				}
				if copied >= 0 && len(out) >= copied {
					// the rest is read by io.Copy
					var b bytes.Buffer
					m, err := io.Copy(&b, rd)
					reads = append(reads, -b.Len())
					if err != nil || m != int64(b.Len()) {
						return fmt.Errorf("io.Copy of the rest: %d, %v, %d bytes come out", m, err, b.Len())
					}
					out = append(out, b.Bytes()...)
					break
				}
				k := piece(len(pt)+3, len(out))
				reads = append(reads, k)
				b := make([]byte, k, k+r.Intn(2)*(bs+64))
				tail := b[k:cap(b)]
				for j := range tail {
					tail[j] = 0x3c
				}
				m, err := rd.Read(b)
				if m < 0 || m > k {
					return fmt.Errorf("Read of %d bytes returned %d", k, m)
				}
				if bytes.Count(tail, []byte{0x3c}) != len(tail) {
					return fmt.Errorf("Read into %d bytes wrote beyond them", k)
				}
				out = append(out, b[:m]...)
				for j := range b {
					b[j] = 0xee
				}
				if err == io.EOF {
					break
				}
				if err != nil {
					return err
				}
				if m == 0 && k > 0 {
					return errors.New("Read returned 0 bytes and no error")
				}
			}
			for j := 0; j < 3; j++ {
				if m, err := rd.Read(make([]byte, j)); m != 0 || err != io.EOF {
					return fmt.Errorf("Read(%d) after end of file: %d, %v", j, m, err)
				}
			}
			return nil
		})
		e.R.Exec(1)
		e.R.Trace()
		if err != nil {
			bad("partition/read", "reading: %v", err)
		} else if !bytes.Equal(out, pt) {
			bad("partition/bytes", "read back %d bytes, different from the %d written", len(out), len(pt))
		}
		if i%997 == 0 {
			e.R.Sample(map[string]any{"block": bs, "size": size, "writes": cuts, "reads": reads})
		}
		e.R.Count("partitions")
	})
	return nil
}
