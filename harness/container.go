package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sync"

	"verifharness/ref"
)

func init() { cmds["container"] = cmdContainer }

// CEdit and CCase mirror the records printed by Container.tla.
type CEdit struct {
	Op string `json:"op"`
	F  string `json:"f"`
	A  int    `json:"a"`
	B  int    `json:"b"`
}

type CCase struct {
	Sh    []int    `json:"sh"`
	Keys  []string `json:"keys"`
	Sig   string   `json:"sig"`
	SigB  string   `json:"sigB"`
	Edits []CEdit  `json:"edits"`
	Rx    string   `json:"rx"`
	Want  string   `json:"want"`
	Ins   bool     `json:"ins"`
	Must  string   `json:"must"`
	Res   string   `json:"res"`
	Orig  string   `json:"orig"`
	Out   []int    `json:"out"`
}

func (c *CCase) group() string { return fmt.Sprint(c.Sh, c.Keys, c.Sig, c.SigB) }

const cszUnits = 2

// honest is one honest file with everything known about it.
type honest struct {
	name  string
	pt    []byte
	f     *ref.File
	root  []byte
	by    *Party
	rcpts []string
}

type world struct {
	p    map[string]*Party
	a, b *honest
	unit int
}

func shLen(sh []int, i int) int {
	if i < sh[0] {
		return cszUnits
	}
	return sh[1]
}

func cloneFile(f *ref.File) *ref.File {
	n := &ref.File{H: f.H.Clone(), Sum: bytes.Clone(f.Sum), Trl: bytes.Clone(f.Trl), Tail: bytes.Clone(f.Tail)}
	for _, s := range f.Segs {
		n.Segs = append(n.Segs, ref.Seg{LW: bytes.Clone(s.LW), Box: bytes.Clone(s.Box)})
	}
	return n
}

// mkHonest makes an honest file of the given shape with the real encryptor;
// if what that writes is not of this shape (or not readable by the reference
// implementation), the reference implementation makes it.
func mkHonest(e *Env, p map[string]*Party, name string, sh []int, keys []string, by string, unit int, r *rand.Rand) (*honest, error) {
	h := &honest{name: name, rcpts: keys}
	n := sh[0]*cszUnits*unit + sh[1]*unit
	if sh[1] == 1 && unit > 1 {
		n += r.Intn(unit) // partial: unit .. 2*unit-1
	}
	h.pt = bytesOf(r, n)
	if by != "none" {
		h.by = p[by]
	}
	var to []*Party
	var toEd []ed25519.PublicKey
	for _, k := range keys {
		to = append(to, p[k])
		toEd = append(toEd, p[k].EdPK)
	}
	// and some that the specification does not mention
	for i := []int{0, 0, 0, 0, 1, 2, 3, 8, 15}[r.Intn(9)]; i > 0; i-- {
		to = append(to, p[fillers[i]])
		toEd = append(toEd, p[fillers[i]].EdPK)
	}
	iface := "file"
	if sh[1] == cszUnits || (sh[1] == 1 && r.Intn(2) == 0) {
		iface = "stream"
	}
	bs := uint64(cszUnits * unit)
	raw, err := Encrypt(bs, h.by, to, h.pt, iface, r)
	if err == nil && e.Prop == "C04" {
		for i, t := range to {
			d := DecryptWith(raw, t, h.by, []string{"file", "stream"}[i%2], nil)
			e.R.Exec(1)
			if d.Err != nil || !bytes.Equal(d.Out, h.pt) {
				e.R.Violation("recipient", fmt.Sprintf("file of %d bytes, sender %q, encrypted to %v: and %d others: recipient %d (%s) cannot open it (%s)", n, by, keys, len(to)-len(keys), i+1, t.Name, errStr(d.Err)),
					map[string]any{"recipients": keys, "recipient": i, "sender": by, "size": n})
			}
		}
	}
	if err == nil {
		h.f, err = ref.Split(raw)
	}
	good := err == nil && len(h.f.Segs) == sh[0]+1 && len(h.f.H.Keys) == len(to)
	if good {
		in, err := ref.Decrypt(raw, to[0].Ed, nil)
		good = err == nil && bytes.Equal(in.Plain, h.pt)
		if good {
			h.root = in.Root
			for i := range h.f.Segs {
				if i < sh[0] && in.Sizes[i] != cszUnits*unit {
					good = false
				}
			}
		}
	}
	if !good {
		e.R.Note("honest file made by the reference implementation (shape %v, real encryptor: %s)", sh, errStr(err))
		e.R.Count("honest_by_reference")
		sp := ref.Spec{Chunk: bs, To: toEd, EmptyLast: sh[1] == 0 && sh[0] > 0}
		if h.by != nil {
			sp.Sender = h.by.Ed
		}
		raw, h.root, err = ref.Encrypt(sp, h.pt)
		if err != nil {
			return nil, err
		}
		if h.f, err = ref.Split(raw); err != nil {
			return nil, err
		}
	}
	return h, nil
}

// cfile is the concrete file under edit.
type cfile struct {
	f     *ref.File
	org   string // which encryption the header belongs to
	stale bool   // checksum broken on purpose
	junk  []byte
	cut   int // -1: none
	rootE []byte
	epk   *Party
}

func flip(b []byte, r *rand.Rand) {
	if len(b) > 0 {
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
	}
}

func (w *world) root(c *cfile) []byte {
	switch c.org {
	case "B":
		return w.b.root
	case "E":
		return c.rootE
	}
	return w.a.root
}

func (c *cfile) fix() {
	if !c.stale {
		c.f.Sum = c.f.H.Sum()
	}
}

// reseal re-encrypts all blocks for header n.
func (w *world) reseal(c *cfile, n *ref.Header) {
	root := w.root(c)
	var pts [][]byte
	for _, s := range c.f.Segs {
		pts = append(pts, w.content(c, s))
	}
	c.f.H = n
	c.f.Sum = n.Sum()
	k := ref.DataKeys(root, c.f.Sum)
	for i := range c.f.Segs {
		s := &c.f.Segs[i]
		_, s.Box = k.SealLW(uint32(i), s.LW, pts[i])
	}
}

// content is the plaintext of a block wherever it came from; the insider
// knows the keys of both files.
func (w *world) content(c *cfile, s ref.Seg) []byte {
	lw2 := bytes.Clone(s.LW)
	lw2[0] ^= 0x80
	for _, k := range []*ref.Keys{ref.DataKeys(w.root(c), c.f.Sum), ref.DataKeys(w.a.root, w.a.f.Sum), ref.DataKeys(w.b.root, w.b.f.Sum)} {
		for i := uint32(0); i < 10; i++ {
			for _, lw := range [][]byte{s.LW, lw2} {
				if pt, err := k.Open(i, lw, s.Box); err == nil {
					return pt
				}
			}
		}
	}
	return make([]byte, len(s.Box)-ref.TagLen)
}

func (w *world) put(c *cfile, i int, n int, eof bool, pt []byte) {
	k := ref.DataKeys(w.root(c), c.f.Sum)
	lw, box := k.Seal(uint32(i), eof, pt[:n])
	c.f.Segs[i] = ref.Seg{LW: lw, Box: box}
}

// putEvil replaces the content of block i by other content of equal length.
func (w *world) putEvil(c *cfile, i int) {
	pt := bytes.Clone(w.content(c, c.f.Segs[i]))
	for j := range pt {
		pt[j] ^= 0xa5
	}
	w.put(c, i, len(pt), isEOF(c.f.Segs[i]), pt)
}

func isEOF(s ref.Seg) bool { return s.LW[0]&0x80 != 0 }

func insSeg(v []ref.Seg, i int, s ref.Seg) []ref.Seg {
	n := append([]ref.Seg(nil), v[:i]...)
	n = append(n, s)
	return append(n, v[i:]...)
}

// apply performs one edit of the specification on the concrete file.
func (w *world) apply(c *cfile, ed CEdit, r *rand.Rand) error {
	f := c.f
	h := f.H
	i := ed.A - 1
	u := w.unit
	csz := cszUnits * u
	switch ed.Op {
	case "FlipHdr":
		switch ed.F {
		case "csz+":
			h.Chunk += uint64(1 + r.Intn(csz))
		case "csz-":
			if h.Chunk > 1 {
				h.Chunk -= uint64(1 + r.Intn(int(h.Chunk)-1))
			} else {
				h.Chunk = 0
			}
		case "salt":
			flip(h.Salt, r)
			c.org = "bad"
		case "pk":
			flip(h.Pk[:31], r) // the top bit of a point is ignored
		case "sender":
			flip(h.Sender, r)
		case "xtra":
			h.Extra = append(h.Extra, 15<<3, byte(r.Intn(128)))
		case "magic":
			flip(h.Magic, r)
		case "ver":
			h.Ver ^= 1 << r.Intn(8)
		case "vlen":
			h.HasVLen = true
			h.VLen = uint32(len(h.Var()) + []int{-1, 1, 2, -7, 1000, 1 << 20}[r.Intn(6)])
		}
		if ed.B == 0 {
			c.stale = true
		} else {
			c.fix()
		}
	case "KeyCorrupt":
		if ed.F == "dkey" {
			flip(h.Keys[i].DKey, r)
		} else {
			flip(h.Keys[i].Nonce, r)
		}
		c.fix()
	case "DropKey":
		h.Keys = append(append([]ref.Wrapped(nil), h.Keys[:i]...), h.Keys[i+1:]...)
		c.fix()
	case "SwapKey":
		h.Keys[i], h.Keys[i+1] = h.Keys[i+1], h.Keys[i]
		c.fix()
	case "DupKey":
		h.Keys = append(h.Keys, h.Keys[i])
		c.fix()
	case "KeyFromB":
		n := append([]ref.Wrapped(nil), h.Keys[:i]...)
		n = append(n, w.b.f.H.Keys[0])
		h.Keys = append(n, h.Keys[i:]...)
		c.fix()
	case "HdrFromB":
		f.H = w.b.f.H.Clone()
		c.org = "B"
		if !c.stale {
			f.Sum = bytes.Clone(w.b.f.Sum)
		}
		c.stale = false
		f.Sum = bytes.Clone(w.b.f.Sum)
	case "SenderFromB":
		h.Sender = bytes.Clone(w.b.f.H.Sender)
		c.fix()
	case "PartFromB":
		b := w.b.f.H
		switch ed.F {
		case "salt":
			h.Salt = bytes.Clone(b.Salt)
			c.org = "B"
		case "pk":
			h.Pk = bytes.Clone(b.Pk)
		case "keys":
			h.Keys = b.Clone().Keys
		case "allbutkeys":
			k := h.Keys
			f.H = b.Clone()
			f.H.Keys = k
			c.org = "B"
			c.stale = false
		}
		c.fix()
	case "DropChunk":
		f.Segs = append(append([]ref.Seg(nil), f.Segs[:i]...), f.Segs[i+1:]...)
	case "DupChunk":
		f.Segs = insSeg(f.Segs, i, f.Segs[i])
	case "SwapChunk":
		f.Segs[i], f.Segs[ed.B-1] = f.Segs[ed.B-1], f.Segs[i]
	case "SetLen":
		// the specification counts in units
		n := ed.B * u
		if ed.B == cszUnits && n == len(f.Segs[i].Box)-ref.TagLen {
			n++
		}
		f.Segs[i].LW = ref.LenWord(uint32(n), isEOF(f.Segs[i]))
	case "FlipEof":
		f.Segs[i].LW = bytes.Clone(f.Segs[i].LW)
		f.Segs[i].LW[0] ^= 0x80
	case "MkEof":
		f.Segs = append([]ref.Seg(nil), f.Segs[:i+1]...)
		f.Segs[i].LW = bytes.Clone(f.Segs[i].LW)
		f.Segs[i].LW[0] |= 0x80
	case "FlipBox":
		b := bytes.Clone(f.Segs[i].Box)
		if n := len(b) - ref.TagLen; ed.F == "body" && n > 0 {
			flip(b[:n], r)
		} else if n >= 0 {
			flip(b[n:], r)
		}
		f.Segs[i].Box = b
	case "SpliceB":
		f.Segs[i] = w.b.f.Segs[ed.B-1]
	case "InsB":
		f.Segs = insSeg(f.Segs, i, w.b.f.Segs[ed.B-1])
	case "RawEof":
		s := ref.Seg{LW: ref.LenWord(0, true)}
		if ed.F == "tag" {
			s.Box = bytesOf(r, ref.TagLen)
		}
		if ed.B == 1 {
			f.Segs = append(append([]ref.Seg(nil), f.Segs[:i]...), s)
		} else {
			f.Segs = insSeg(f.Segs, i, s)
		}
	case "Cut":
		off := len(f.H.Prefix()) + len(f.Sum)
		if ed.F == "hdr" {
			c.cut = r.Intn(off)
			return nil
		}
		for j, s := range f.Segs {
			if j == i && ed.F[0] != 't' {
				switch ed.F {
				case "len0":
					c.cut = off
				case "len":
					c.cut = off + 1 + r.Intn(3)
				case "body":
					c.cut = off + 4 + r.Intn(max(len(s.Box), 1))
				}
				return nil
			}
			off += len(s.LW) + len(s.Box)
		}
		if ed.F == "trl0" {
			c.cut = off
		} else {
			c.cut = off + 1 + r.Intn(ref.TrlLen-1)
		}
	case "Trl":
		switch ed.F {
		case "flip":
			f.Trl = bytes.Clone(f.Trl)
			flip(f.Trl, r)
		case "zero":
			f.Trl = make([]byte, ref.TrlLen)
		case "B":
			f.Trl = bytes.Clone(w.b.f.Trl)
		}
	case "Junk":
		c.junk = bytesOf(r, 1+r.Intn(200))

	// --- insider ---
	case "Reseal":
		w.putEvil(c, i)
	case "ResealAll":
		for j := range f.Segs {
			w.putEvil(c, j)
		}
	case "ResealLen":
		n := ed.B * u
		w.put(c, i, n, isEOF(f.Segs[i]), bytesOf(r, n))
	case "SealAppend":
		k := ref.DataKeys(w.root(c), f.Sum)
		l := len(f.Segs) - 1
		pt := w.content(c, f.Segs[l])
		w.put(c, l, len(pt), false, pt)
		lw, box := k.Seal(uint32(l+1), true, bytesOf(r, ed.B*u))
		f.Segs = append(f.Segs, ref.Seg{LW: lw, Box: box})
	case "SealTrunc", "SealEmpty":
		var pt []byte
		if ed.Op == "SealTrunc" {
			pt = w.content(c, f.Segs[i])
		}
		f.Segs = append([]ref.Seg(nil), f.Segs[:i+1]...)
		w.put(c, i, len(pt), true, pt)
	case "Rehdr":
		n := h.Clone()
		root := w.root(c)
		seal := func(sig []byte) { n.Sender = ref.SealSender(root, n.Salt, sig) }
		sig, err := h.OpenSender(root)
		if err != nil || len(sig) != 64 {
			sig = make([]byte, 64)
		}
		sig = bytes.Clone(sig)
		switch ed.F {
		case "drop":
			n.Keys = n.Keys[:min(1, len(n.Keys))]
		case "csz":
			n.Chunk += uint64(u)
		case "xtra":
			n.Extra = append(n.Extra, 15<<3, byte(r.Intn(128)))
		case "strip":
			seal(make([]byte, 64))
		case "ownsig":
			seal(ref.SignMsg(w.p["E"].Ed, ref.SenderMsg(n.Pk, n.Salt, root)))
		case "junksig":
			seal(bytesOf(r, 64))
		case "partzero":
			// zero one half: looks partly like "no sender"
			o := 32 * r.Intn(2)
			b := bytesOf(r, 64)
			copy(b[o:], make([]byte, 32))
			seal(b)
		case "sigB":
			sb, err := w.b.f.H.OpenSender(w.b.root)
			if err != nil {
				return err
			}
			seal(sb)
		case "shortsig":
			seal(sig[:63])
		case "shortzero":
			seal([]byte{})
		case "nosender":
			n.Sender = nil
		}
		w.reseal(c, n)
	case "TrlOwn":
		f.Trl = ref.SignMsg(w.p["E"].Ed, f.MacOf(w.root(c)))
	case "TrlHdr":
		sig, err := h.OpenSender(w.root(c))
		if err != nil || len(sig) != 64 {
			sig = bytesOf(r, 64)
		}
		f.Trl = sig
	case "Forge":
		n := 0
		for _, s := range f.Segs {
			n += len(s.Box) - ref.TagLen
		}
		sp := ref.Spec{Chunk: uint64(csz), EmptyLast: len(f.Segs) > 1 && len(f.Segs[len(f.Segs)-1].Box) == ref.TagLen, Sender: w.p["E"].Ed, To: []ed25519.PublicKey{w.p["r1"].EdPK}}
		b, root, err := ref.Encrypt(sp, bytesOf(r, n))
		if err != nil {
			return err
		}
		g, err := ref.Split(b)
		if err != nil {
			return err
		}
		c.f, c.org, c.rootE = g, "E", root
		k := g.H.Clone()
		switch ed.F {
		case "none":
			k.Sender = ref.SealSender(root, k.Salt, make([]byte, 64))
		case "copy":
			s, err := w.a.f.H.OpenSender(w.a.root)
			if err != nil {
				return err
			}
			k.Sender = ref.SealSender(root, k.Salt, s)
		}
		w.reseal(c, k)
		g.Trl = ref.SignMsg(w.p["E"].Ed, g.MacOf(root))
	default:
		return fmt.Errorf("unknown edit %q", ed.Op)
	}
	return nil
}

func (c *cfile) bytes(r *rand.Rand) []byte {
	if c.stale {
		s := bytes.Clone(c.f.Sum)
		if bytes.Equal(s, c.f.H.Sum()) {
			flip(s, r)
		}
		c.f.Sum = s
	}
	b := c.f.Bytes()
	if c.cut >= 0 && c.cut < len(b) {
		return b[:c.cut]
	}
	return append(b, c.junk...)
}

func isPrefix(a, b []byte) bool { return len(a) <= len(b) && bytes.Equal(a, b[:len(a)]) }

// judge compares what the real code did with what the specification demands
// and reports what concerns property prop.
func judge(e *Env, c *CCase, d *Decrypted, pt []byte, mode, desc string, replay any) {
	ok := d.Err == nil
	vio := func(prop, what string) {
		if prop == e.Prop {
			e.R.Violation(fmt.Sprintf("%s/%s/%s/%s>%s", what, c.Must, mode, c.Rx, c.Want), fmt.Sprintf("%s: %s; decryption (%s) by %s demanding sender %s: %s, released %d bytes, original has %d bytes", what, desc, mode, c.Rx, c.Want, errStr(d.Err), len(d.Out), len(pt)), replay)
		}
	}
	edited := len(c.Edits) > 0
	if IsPanic(d.Err) {
		vio(e.Prop, "crash")
		return
	}
	switch c.Must {
	case "ok":
		if !ok {
			vio("C01", "recipient cannot decrypt")
			if len(c.Keys) > 1 || edited {
				vio("C04", "named recipient cannot decrypt")
			}
		} else if !bytes.Equal(d.Out, pt) {
			vio("C01", "wrong plaintext")
			vio("C02", "wrong plaintext")
			if c.Want != "none" {
				vio("C03", "wrong plaintext")
			}
		} else if c.Want != "none" && !d.Auth {
			vio("C03", "sender not reported as authenticated")
		}
	case "none":
		if ok || len(d.Out) > 0 {
			what := "opened without the right keys"
			if c.Rx == "x" {
				vio("C04", "non-recipient opened the file")
			} else if c.Want == "none" {
				vio("C03", "authenticated file opened without sender key")
			} else {
				vio("C03", "sender check passed")
			}
			if edited && ok && !bytes.Equal(d.Out, pt) {
				vio("C02", what)
			}
		}
	case "fail":
		if ok {
			vio("C03", "forged sender accepted")
		}
	case "exact":
		if ok && !bytes.Equal(d.Out, pt) {
			if c.Ins {
				vio("C03", "other plaintext accepted as the sender's")
			} else {
				vio("C02", "other plaintext accepted")
				if c.Want != "none" {
					vio("C03", "other plaintext accepted as the sender's")
				}
			}
		}
	}
	if !c.Ins && !isPrefix(d.Out, pt) {
		vio("C02", "released bytes that are not a prefix of the original")
	}
	if c.Res != "any" && (c.Res == "ok") != ok {
		e.R.Count("differs_from_model")
		e.R.Note("model %s, code %s (must %s): %s rx=%s want=%s", c.Res, errStr(d.Err), c.Must, desc, c.Rx, c.Want)
	}
}

func editStr(v []CEdit) string {
	s := ""
	for _, x := range v {
		s += fmt.Sprintf("%s(%s,%d,%d) ", x.Op, x.F, x.A, x.B)
	}
	if s == "" {
		return "unmodified"
	}
	return s
}

func cmdContainer(e *Env) error {
	cases, err := AllCases[CCase](e.Cases)
	if err != nil {
		return err
	}
	groups := map[string][]*CCase{}
	var order []string
	for _, c := range cases {
		g := c.group()
		if groups[g] == nil {
			order = append(order, g)
		}
		groups[g] = append(groups[g], c)
	}
	p := Parties(append(fillers, "r1", "r2", "x", "S", "T", "E")...)
	units := []int{1, 16, 1 + Rng(e.Seed, "u").Intn(60), 700}
	if e.Thorough() {
		units = []int{1, 2, 8, 16, 33, 700, 40000}
	}
	per := 1
	if e.Thorough() {
		per = 3
	}
	type key struct {
		g string
		u int
	}
	worlds := map[key]*world{}
	var mu sync.Mutex
	getWorld := func(g string, c *CCase, u int) (*world, error) {
		mu.Lock()
		defer mu.Unlock()
		k := key{g, u}
		if w := worlds[k]; w != nil {
			return w, nil
		}
		r := Rng(e.Seed, "world", g, u)
		w := &world{p: p, unit: u}
		var err error
		if w.a, err = mkHonest(e, p, "A", c.Sh, c.Keys, c.Sig, u, r); err != nil {
			return nil, err
		}
		if w.b, err = mkHonest(e, p, "B", []int{1, 1}, []string{"r1", "r2"}, c.SigB, u, r); err != nil {
			return nil, err
		}
		worlds[k] = w
		return w, nil
	}
	var firstErr error
	fail := func(err error) {
		mu.Lock()
		if firstErr == nil {
			firstErr = err
		}
		mu.Unlock()
	}
	type job struct {
		g string
		c *CCase
		n int
		// the way the program also opens this file, if it does
		prog string
	}
	var jobs []job
	for _, g := range order {
		for i, c := range groups[g] {
			jobs = append(jobs, job{g: g, c: c, n: i})
		}
	}
	var prog *progDec
	if e.Bin != "" {
		if prog, err = newProgDec(e, p); err != nil {
			return err
		}
		prog.pick(len(jobs), func(i int) (string, *string) {
			c := jobs[i].c
			return fmt.Sprint(c.Must, c.Res, c.Rx, c.Want, c.Sig, c.Ins), &jobs[i].prog
		})
	}
	Par(len(jobs), func(i int) {
		j := jobs[i]
		c := j.c
		if e.Late() {
			e.R.Count("skipped_out_of_time")
			return
		}
		for k := 0; k < per; k++ {
			u := units[(j.n+k*3)%len(units)]
			w, err := getWorld(j.g, c, u)
			if err != nil {
				fail(err)
				return
			}
			r := Rng(e.Seed, "edit", j.g, editStr(c.Edits), c.Rx, c.Want, k)
			cf := &cfile{f: cloneFile(w.a.f), org: "A", cut: -1}
			err = Guard(func() error {
				for _, ed := range c.Edits {
					if err := w.apply(cf, ed, r); err != nil {
						return err
					}
				}
				return nil
			})
			if err != nil {
				fail(fmt.Errorf("edit %s: %w", editStr(c.Edits), err))
				return
			}
			b := cf.bytes(r)
			if c.Must == "ok" && len(c.Edits) > 0 && !bytes.Equal(b, w.a.f.Bytes()) && !bytes.Equal(b, w.b.f.Bytes()) {
				// the edits cancel out in the specification, not in the bytes
				n := *c
				n.Must, n.Res = "exact", "any"
				c = &n
			}
			pt := w.a.pt
			if c.Orig == "B" {
				pt = w.b.pt
			}
			var want *Party
			if c.Want != "none" {
				want = p[c.Want]
			}
			modes := []string{"file", "stream"}
			if len(c.Edits) > 1 {
				modes = modes[(j.n+k)%2:][:1]
			}
			if k == 0 && j.prog != "" {
				modes = append(modes, j.prog)
			}
			for _, mode := range modes {
				var d *Decrypted
				if mode == j.prog {
					d = prog.decrypt(b, c.Rx, c.Want, mode)
					if d.Err == nil && mode == "program -t" {
						d.Out = pt // not shown
					}
				} else {
					d = DecryptWith(b, p[c.Rx], want, mode, r)
				}
				desc := fmt.Sprintf("shape %v unit %d to %v signed %s (B %s), edits: %s", c.Sh, u, c.Keys, c.Sig, c.SigB, editStr(c.Edits))
				rep := map[string]any{"case": c, "unit": u, "mode": mode, "result": errStr(d.Err), "file_hex": hexCap(b), "rx_sk": hex.EncodeToString(p[c.Rx].Ed), "released": hexCap(d.Out), "original": hexCap(pt)}
				if want != nil {
					rep["want_pk"] = hex.EncodeToString(want.EdPK)
				}
				if pe, ok := d.Err.(*Panic); ok {
					rep["stack"] = pe.Stack
				}
				judge(e, c, d, pt, mode, desc, rep)
				e.R.Exec(1)
			}
			if j.n%997 == 0 && k == 0 {
				e.R.Sample(map[string]any{"shape": c.Sh, "recipients": c.Keys, "signed": c.Sig, "edits": editStr(c.Edits), "open": c.Rx, "demand": c.Want, "must": c.Must, "model": c.Res})
			}
		}
		e.R.Trace()
		e.R.Count("must_" + c.Must)
		e.R.Count("model_" + c.Res)
		for _, ed := range c.Edits {
			e.R.Count("edit_" + ed.Op)
		}
	})
	if firstErr != nil {
		return firstErr
	}
	switch e.Prop {
	case "C02":
		return containerSweeps(e, p)
	case "C01":
		return containerSizes(e, prog, p)
	case "C04":
		return containerMany(e, p)
	case "C03":
		return containerSenderSweep(e, p)
	}
	return nil
}

func hexCap(b []byte) string {
	if len(b) > 6000 {
		return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:6000]), len(b))
	}
	return hex.EncodeToString(b)
}
