package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"sync"
	"unsafe"

	"github.com/opencoff/sigtool/sign"
	"verifharness/ref"
)

var errEOF = io.EOF

func init() {
	cmds["enclife"] = cmdEncLife
	cmds["encfresh"] = cmdEncFresh
}

type ECall struct {
	Op string `json:"op"`
	W  int    `json:"w"`
	N  int    `json:"n"`
	F  string `json:"f"`
	S  string `json:"s"`
}

type ECase struct {
	Ops []ECall `json:"ops"`
}

// EEvent mirrors the events of EncMonitor.tla.
type EEvent struct {
	Op     string `json:"op"`
	W      int    `json:"w"`
	Res    string `json:"res"`
	N      int    `json:"n"`
	Fired  bool   `json:"fired"`
	Wrote  bool   `json:"wrote"`
	Hdr    bool   `json:"hdr"`
	New    []int  `json:"new"`
	Whole  bool   `json:"whole"`
	Closes int    `json:"closes"`
}

// TraceFile collects recorded executions; equal ones are kept once.
type TraceFile struct {
	mu   sync.Mutex
	seen map[string]int
	f    *os.File
	N    int
	Evs  int
	desc map[int]any
}

func NewTraceFile(fn string) (*TraceFile, error) {
	f, err := os.Create(fn)
	if err != nil {
		return nil, err
	}
	return &TraceFile{seen: map[string]int{}, f: f, desc: map[int]any{}}, nil
}

func (t *TraceFile) Add(ev any, n int, desc any) {
	b, err := json.Marshal(ev)
	if err != nil {
		panic(err)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if _, ok := t.seen[string(b)]; ok {
		return
	}
	t.N++
	t.Evs += n
	t.seen[string(b)] = t.N
	t.desc[t.N] = desc
	fmt.Fprintf(t.f, "{\"id\":%d,\"ev\":%s}\n", t.N, b)
}

// Close writes the descriptions next to the traces.
func (t *TraceFile) Close(fn string) error {
	if err := t.f.Close(); err != nil {
		return err
	}
	b, err := json.Marshal(map[string]any{"n": t.N, "events": t.Evs, "desc": t.desc})
	if err != nil {
		return err
	}
	return os.WriteFile(fn, b, 0600)
}

func resOf(err error) string {
	switch {
	case err == nil:
		return "ok"
	case IsPanic(err):
		return "panic"
	}
	return "err"
}

// encRun executes one call sequence on a real encryption context.
func encRun(p map[string]*Party, c *ECase, unit int, constData bool, r *rand.Rand) (evs []EEvent, desc []string) {
	bs := 2 * unit
	var by *Party
	if r.Intn(2) == 0 {
		by = p["S"]
	}
	var sk *sign.PrivateKey
	if by != nil {
		sk = by.SK
	}
	var sinks []*FSink
	ks := map[string]int{}       // key stream identities
	seenCT := map[string]bool{}  // blocks already accounted for
	counted := map[*FSink]int{}  // blocks accounted for, per sink
	rejected := map[*FSink]int{} // refused payloads accounted for
	newKS := func() (out []int) {
		add := func(b []byte) {
			if len(b) < 4+16+16 || seenCT[string(b)] || !constData {
				return
			}
			seenCT[string(b)] = true
			k := string(xorFirst(b[4 : 4+16]))
			id, ok := ks[k]
			if !ok {
				id = len(ks) + 1
				ks[k] = id
			}
			out = append(out, id)
		}
		for _, s := range sinks {
			for ; counted[s] < len(s.blocks); counted[s]++ {
				add(s.blocks[counted[s]])
			}
			for ; rejected[s] < len(s.Reject); rejected[s]++ {
				b := s.Reject[rejected[s]]
				if s.Delta == 0 && len(b) >= 20 {
					n := int(uint32(b[0]&0x7f)<<24|uint32(b[1])<<16|uint32(b[2])<<8|uint32(b[3])) + 20
					if (s.Fault == "blk1" || s.Fault == "blk2") && n <= len(b) {
						add(b[:n])
					}
				}
			}
		}
		return
	}
	total := func() (n int) {
		for _, s := range sinks {
			n += len(s.Data)
		}
		return
	}
	mkSink := func(f string) *FSink {
		s := &FSink{Fault: f, Once: r.Intn(2) == 0, Err: ioErr(r)}
		if s.Late = r.Intn(4) == 0; s.Late || s.Once || r.Intn(3) == 0 {
			s.Delta = 0
		} else {
			s.Delta = r.Intn(20)
		}
		if r.Intn(4) == 0 {
			s.Short = rand.New(rand.NewSource(r.Int63()))
		}
		sinks = append(sinks, s)
		return s
	}
	opno := 0
	mkData := func(n int) []byte {
		opno++
		if constData {
			return bytes.Repeat([]byte{byte(opno*37 + 1)}, n*unit)
		}
		return bytesOf(r, n*unit)
	}
	whole := func(s *FSink, pt []byte) bool {
		if !s.Complete() {
			return false
		}
		d := DecryptWith(s.Data, p["r1"], by, "file", nil)
		if d.Err == nil && bytes.Equal(d.Out, pt) {
			return true
		}
		in, err := ref.Decrypt(s.Data, p["r1"].Ed, nil)
		return err == nil && bytes.Equal(in.Plain, pt)
	}
	e, err := sign.NewEncryptor(sk, uint64(bs))
	if err != nil {
		return nil, []string{"NewEncryptor: " + err.Error()}
	}
	type wr struct {
		w    io.WriteCloser
		s    *FSink
		fed  []byte
		real bool
	}
	ws := map[int]*wr{}
	for _, op := range c.Ops {
		before := total()
		ev := EEvent{Op: op.Op, W: op.W, N: op.N, New: []int{}}
		var err error
		var cur *FSink
		what := fmt.Sprintf("%s(w%d,%d,%s,%s)", op.Op, op.W, op.N, op.F, op.S)
		switch op.Op {
		case "add":
			k := p["r1"]
			if r.Intn(4) == 0 && len(e.Keys) > 0 {
				k = p["r2"]
			}
			if len(e.Keys) == 0 {
				more := otherRecipients(r)
				for _, f := range fillers[:more] {
					f := f
					if err = Guard(func() error { return e.AddRecipient(p[f].PK) }); err != nil {
						break
					}
				}
				what += fmt.Sprintf(" and %d others", more)
			}
			if err == nil {
				err = Guard(func() error { return e.AddRecipient(k.PK) })
			}
		case "enc":
			cur = mkSink(op.F)
			pt := mkData(op.N)
			src := &FSource{Data: pt, At: -1, R: r, Style: r.Intn(5)}
			switch op.S {
			case "err0":
				src.At = r.Intn(min(bs, len(pt)) + 1)
				if src.At == bs {
					src.At--
				}
			case "err1":
				if len(pt) >= bs {
					src.At = bs + r.Intn(min(len(pt)-bs, bs-1)+1)
				} else {
					src.At = r.Intn(len(pt) + 1)
				}
			}
			src.Err = ioErr(r)
			err = Guard(func() error { return e.Encrypt(src, cur) })
			ev.Whole = whole(cur, pt)
			ev.Fired = cur.Fired || src.Fired
			what += fmt.Sprintf(" style %d", src.Style)
			if src.At >= 0 {
				what += fmt.Sprintf(" source fails at %d of %d with %q", src.At, len(pt), src.Err)
			}
		case "open":
			cur = mkSink(op.F)
			var w io.WriteCloser
			err = Guard(func() error {
				var err error
				w, err = e.NewStreamWriter(cur)
				return err
			})
			if err == nil {
				ws[op.W] = &wr{w: w, s: cur, real: true}
			}
			ev.Whole = cur.Complete()
			ev.Fired = cur.Fired
		case "write", "close":
			x := ws[op.W]
			if x == nil {
				continue // the writer could not be opened
			}
			cur = x.s
			cur.Fired = false
			if op.Op == "write" {
				b := mkData(op.N)
				keep := bytes.Clone(b)
				var n int
				err = Guard(func() error {
					var err error
					n, err = x.w.Write(b)
					return err
				})
				if !bytes.Equal(b, keep) {
					what += " MODIFIED THE CALLER'S BUFFER"
				}
				// the caller may reuse its buffer at once
				for i := range b {
					b[i] = 0xee
				}
				if err == nil {
					x.fed = append(x.fed, keep...)
					if n != len(b) {
						ev.Res = "short"
					}
				}
				ev.Whole = cur.Complete()
			} else {
				err = Guard(func() error { return x.w.Close() })
				ev.Whole = whole(cur, x.fed)
			}
			ev.Fired = cur.Fired
		}
		if ev.Res == "" || err != nil {
			ev.Res = resOf(err)
		}
		if cur != nil {
			ev.Hdr = cur.HdrDone()
			ev.Closes = cur.Closes
			cur.Fired = false
		}
		ev.Wrote = total() != before
		ev.New = append(ev.New, newKS()...)
		if ev.New == nil {
			ev.New = []int{}
		}
		evs = append(evs, ev)
		desc = append(desc, what+" -> "+errStr(err))
	}
	return
}

// xorFirst identifies the key stream of a block whose plaintext starts with
// 16 equal bytes.
func xorFirst(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[i] = b[i] ^ b[0]
	}
	return o
}

func cmdEncLife(e *Env) error {
	cases, err := AllCases[ECase](e.Cases)
	if err != nil {
		return err
	}
	p := Parties(append(fillers, "r1", "r2", "S")...)
	tf, err := NewTraceFile(e.Extra["traces"])
	if err != nil {
		return err
	}
	per := 1
	if e.Thorough() {
		per = 3
	}
	Par(len(cases), func(i int) {
		if e.Late() {
			e.R.Count("skipped_out_of_time")
			return
		}
		for k := 0; k < per; k++ {
			r := Rng(e.Seed, "enc", i, k)
			unit := someUnit(r, 16, 16, 24, 100)
			if e.Prop == "C19" {
				unit = someUnit(r, 1, 3, 16, 1000)
			}
			ev, desc := encRun(p, cases[i], unit, e.Prop == "C05", r)
			e.R.Exec(len(ev))
			e.R.Trace()
			tf.Add(ev, len(ev), desc)
			for _, x := range ev {
				e.R.Count("call_" + x.Op + "_" + x.Res)
			}
			if i%1501 == 0 && k == 0 {
				e.R.Sample(map[string]any{"calls": desc})
			}
		}
	})
	// long random histories, beyond the exhaustive depth
	n := 1500
	if e.Thorough() {
		n = 15000
	}
	Par(n, func(i int) {
		if e.Late() {
			return
		}
		r := Rng(e.Seed, "enclong", i)
		c := &ECase{}
		nw := 0
		for k := 0; k < 6+r.Intn(20); k++ {
			op := ECall{F: "none", S: "ok"}
			switch x := r.Intn(20); {
			case x < 2 || k == 0:
				op.Op = "add"
			case x < 3:
				op.Op, op.N = "enc", r.Intn(9)
				op.F = []string{"none", "none", "hdr", "blk1", "blk2", "trl", "cls"}[r.Intn(7)]
				op.S = []string{"ok", "ok", "err0", "err1"}[r.Intn(4)]
			case x < 5 && nw < 3 || nw == 0:
				nw++
				op.Op, op.W = "open", nw
				op.F = []string{"none", "none", "none", "hdr", "blk1", "blk2", "trl", "cls"}[r.Intn(8)]
			case x < 7:
				op.Op, op.W = "close", 1+r.Intn(nw)
			default:
				op.Op, op.W, op.N = "write", 1+r.Intn(nw), r.Intn(8)
			}
			c.Ops = append(c.Ops, op)
		}
		ev, desc := encRun(p, c, 16+r.Intn(3), e.Prop == "C05", r)
		e.R.Exec(len(ev))
		e.R.Trace()
		tf.Add(ev, len(ev), desc)
	})
	return tf.Close(e.Extra["traces"] + ".desc")
}

// ksSink computes the key stream identity of every block as it goes by.
type ksSink struct {
	buf    []byte
	hdr    bool
	seen   map[uint64]uint32
	n      uint32
	dup    int64
	a, b   uint32
	closes int
}

func (s *ksSink) Close() error { s.closes++; return nil }
func (s *ksSink) Write(b []byte) (int, error) {
	s.buf = append(s.buf, b...)
	for {
		if !s.hdr {
			if len(s.buf) < 12 {
				break
			}
			n := 12 + int(uint32(s.buf[8])<<24|uint32(s.buf[9])<<16|uint32(s.buf[10])<<8|uint32(s.buf[11])) + 32
			if len(s.buf) < n {
				break
			}
			s.buf = s.buf[n:]
			s.hdr = true
			continue
		}
		if len(s.buf) < 4 {
			break
		}
		n := int(uint32(s.buf[0]&0x7f)<<24|uint32(s.buf[1])<<16|uint32(s.buf[2])<<8|uint32(s.buf[3])) + 20
		if len(s.buf) < n {
			break
		}
		if n >= 36 {
			x := xorFirst(s.buf[4:20])
			var k uint64
			for _, c := range x[1:9] {
				k = k<<8 | uint64(c)
			}
			if at, ok := s.seen[k]; ok {
				if s.dup == 0 {
					s.a, s.b = at, s.n
				}
				s.dup++
			}
			s.seen[k] = s.n
		}
		s.n++
		s.buf = s.buf[n:]
	}
	if len(s.buf) == 0 || cap(s.buf) > 1<<20 {
		s.buf = append([]byte(nil), s.buf...)
	}
	return len(b), nil
}

type constReader struct{ n int64 }

func (c *constReader) Read(b []byte) (int, error) {
	if c.n <= 0 {
		return 0, io.EOF
	}
	n := int(min(int64(len(b)), c.n))
	c.n -= int64(n)
	return n, nil
}

// cmdEncFresh: many blocks, and freshness of the secrets across contexts.
func cmdEncFresh(e *Env) error {
	p := Parties(append(append([]string{}, fillers...), "r1", "r2", "S")...)
	long := []int{70000}
	if e.Thorough() {
		long = append(long, 1<<24+300)
	}
	// shapes of the file that say nothing about its blocks
	type shape struct {
		more int
		by   string
	}
	shapes := []shape{{0, ""}, {0, "S"}, {1, ""}, {3, "S"}, {9, ""}, {24, "S"}}
	newEnc := func(sh shape) *sign.Encryptor {
		var sk *sign.PrivateKey
		if sh.by != "" {
			sk = p[sh.by].SK
		}
		x, err := sign.NewEncryptor(sk, 16)
		if err == nil {
			err = x.AddRecipient(p["r1"].PK)
		}
		for i := 0; i < sh.more && err == nil; i++ {
			err = x.AddRecipient(p[fillers[i%len(fillers)]].PK)
		}
		if err != nil {
			panic(err)
		}
		return x
	}
	for i, n := range long {
		for j, iface := range []string{"file", "stream"} {
			sh := shapes[(3*j+2*i)%len(shapes)]
			s := &ksSink{seen: map[uint64]uint32{}}
			err := Guard(func() error {
				x := newEnc(sh)
				if iface == "file" {
					return x.Encrypt(&constReader{int64(n) * 16}, s)
				}
				w, err := x.NewStreamWriter(s)
				if err != nil {
					return err
				}
				b := make([]byte, 16*1000)
				for i := 0; i < n; i += 1000 {
					if _, err = w.Write(b); err != nil {
						return err
					}
				}
				return w.Close()
			})
			if err != nil {
				e.R.Note("long run (%s): %v", iface, err)
			}
			if s.dup > 0 {
				e.R.Violation("nonce-reuse/long/"+iface, fmt.Sprintf("%d blocks (%s interface): blocks %d and %d were encrypted with the same key stream (%d repetitions)", n, iface, s.a, s.b, s.dup), map[string]any{"blocks": n, "interface": iface, "first": s.a, "second": s.b})
			}
			e.R.Exec(1)
			e.R.Count("long_runs")
		}
	}
	// the block number must not wrap around: start a writer close to the end
	for _, sh := range shapes {
		s := &ksSink{seen: map[uint64]uint32{}}
		err := Guard(func() error {
			x := newEnc(sh)
			w, err := x.NewStreamWriter(s)
			if err != nil {
				return err
			}
			b := make([]byte, 16)
			for i := 0; i < 5; i++ {
				if _, err = w.Write(b); err != nil {
					return err
				}
			}
			v := reflect.ValueOf(w)
			if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
				e.R.Note("block counter not reachable; wrap-around not exercised")
				return nil
			}
			f := v.Elem().FieldByName("blk")
			if !f.IsValid() || f.Kind() != reflect.Uint32 || !f.CanAddr() {
				e.R.Note("block counter not reachable; wrap-around not exercised")
				return nil
			}
			// every part of the counter makes the key stream another one
			for k := 4; k < 32; k++ {
				*(*uint32)(unsafe.Pointer(f.UnsafeAddr())) = 1<<k - 2
				for i := 0; i < 4; i++ {
					if _, err = w.Write(b); err != nil {
						return err
					}
				}
				e.R.Count("counters_exercised")
			}
			*(*uint32)(unsafe.Pointer(f.UnsafeAddr())) = 1<<32 - 3
			e.R.Count("wraparound_exercised")
			for i := 0; i < 8; i++ {
				if _, err = w.Write(b); err != nil {
					break
				}
			}
			if err != nil {
				w.Close()
				return nil
			}
			return w.Close()
		})
		e.R.Exec(1)
		if IsPanic(err) {
			e.R.Violation("panic/wrap", "crash near the last block number: "+err.Error(), nil)
		}
		if s.dup > 0 {
			e.R.Violation("nonce-reuse/wrap", fmt.Sprintf("a long stream: blocks %d and %d of those written (numbers around every power of two, then up to 2^32-1 and on; %d recipients, sender %q) share their key stream", s.a, s.b, sh.more+1, sh.by), nil)
		}
	}
	// freshness
	n := 2000
	if e.Thorough() {
		n = 20000
	}
	seen := map[string]string{}
	uniq := func(kind string, b []byte) {
		k := kind + ":" + string(b)
		if old, ok := seen[k]; ok {
			e.R.Violation("not-fresh/"+kind, fmt.Sprintf("%s of %d bytes used twice (%s)", kind, len(b), old), fmt.Sprintf("%x", b))
		}
		seen[k] = fmt.Sprint("seen before")
	}
	for i := 0; i < n; i++ {
		to := []*Party{p["r1"], p["r2"], p["r1"]}[:1+i%3]
		var by *Party
		if i%2 == 0 {
			by = p["S"]
		}
		pt := bytes.Repeat([]byte{7}, 64)
		b, err := Encrypt(32, by, to, pt, []string{"file", "stream"}[i%2], nil)
		e.R.Exec(1)
		if err != nil {
			e.R.Note("freshness: %v", err)
			continue
		}
		f, err := ref.Split(b)
		if err != nil {
			e.R.Note("freshness: reference cannot split: %v", err)
			continue
		}
		uniq("salt", f.H.Salt)
		uniq("ephemeral key", f.H.Pk)
		for _, w := range f.H.Keys {
			uniq("recipient nonce", w.Nonce)
			uniq("wrapped key", w.DKey)
		}
		if root := f.H.Unwrap(p["r1"].Ed); root != nil {
			uniq("file key", root)
		}
		for _, s := range f.Segs {
			if len(s.Box) >= 32 {
				uniq("key stream", xorFirst(s.Box[:16]))
			}
		}
		if by == nil {
			uniq("random trailer", f.Trl)
		}
		e.R.Trace()
	}
	e.R.Count("fresh_contexts")
	return nil
}
