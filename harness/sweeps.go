package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime/debug"
	"sort"

	"github.com/opencoff/sigtool/sign"
	"verifharness/ref"
)

// expect runs one decryption of an edited (or not) file against a demand.
func expect(e *Env, must, mode string, b []byte, rx, want *Party, pt []byte, desc string, r *rand.Rand) *Decrypted {
	d := DecryptWith(b, rx, want, mode, r)
	c := &CCase{Must: must, Rx: rx.Name, Want: "none", Sig: "none", Res: "err", Keys: []string{"", ""}, Edits: []CEdit{{Op: "raw"}}}
	if must == "ok" {
		c.Edits = nil
	}
	if must == "ok" || d.Err == nil {
		c.Res = map[bool]string{true: "ok", false: "err"}[d.Err == nil] // no prediction here
	}
	if want != nil {
		c.Want, c.Sig = want.Name, "S"
	}
	rep := map[string]any{"what": desc, "mode": mode, "result": errStr(d.Err), "file_hex": hexCap(b), "rx_sk": hex.EncodeToString(rx.Ed), "released": hexCap(d.Out), "original": hexCap(pt)}
	if want != nil {
		rep["want_pk"] = hex.EncodeToString(want.EdPK)
	}
	judge(e, c, d, pt, mode, desc, rep)
	e.R.Exec(1)
	return d
}

// longEdits applies each kind of edit at near and far blocks of longer files.
func longEdits(e *Env, p map[string]*Party) {
	cases := []struct {
		bs, blocks int
		by         string
	}{{8, 33, ""}, {8, 33, "S"}, {64, 300, "S"}, {16, 301, ""}, {1, 2100, ""}, {5, 2100, "S"}, {5000, 40, ""}, {70000, 20, "S"}}
	for ci, c := range cases {
		r := Rng(e.Seed, "longedits", ci)
		n := c.bs * c.blocks
		if ci%2 == 1 {
			n -= c.bs / 2
		}
		pt := bytesOf(r, n)
		b, err := Encrypt(uint64(c.bs), p[c.by], withOthers(p, otherRecipients(r), "r1"), pt, []string{"file", "stream"}[ci/2%2], r)
		var f *ref.File
		if err == nil {
			f, err = ref.Split(b)
		}
		if err != nil || len(f.Segs) < c.blocks {
			e.R.Note("long edits: %v", err)
			continue
		}
		at := map[int]bool{0: true}
		last := len(f.Segs) - 1
		for k := 1; k <= last; k *= 2 {
			for _, x := range []int{k - 1, k, k + 1, last - k, last - k + 1, r.Intn(last)} {
				if x >= 0 && x <= last {
					at[x] = true
				}
			}
		}
		var pos []int
		for x := range at {
			pos = append(pos, x)
		}
		sort.Ints(pos)
		head := len(f.Bytes()) - len(f.Trl) - len(f.Tail)
		for _, s := range f.Segs {
			head -= len(s.LW) + len(s.Box)
		}
		full := f.Bytes()
		offs := make([]int, last+2)
		offs[0] = head
		for i, s := range f.Segs {
			offs[i+1] = offs[i] + len(s.LW) + len(s.Box)
		}
		Par(len(pos), func(i int) {
			x := pos[i]
			o, z := offs[x], offs[x+1]
			cat := func(v ...[]byte) []byte { return bytes.Join(v, nil) }
			flip := func(off int, m byte) []byte {
				b := bytes.Clone(full)
				b[off] ^= m
				return b
			}
			edits := map[string][]byte{
				"cut before it":                     full[:o],
				"cut 1 byte into it":                full[:o+1],
				"cut 3 bytes into it":               full[:o+3],
				"cut after its length":              full[:o+4],
				"cut 5 bytes into it":               full[:o+5],
				"cut before its last byte":          full[:z-1],
				"cut before it, trailer kept":       cat(full[:o], f.Trl),
				"cut before it, zeros added":        cat(full[:o], make([]byte, 100)),
				"cut before it, empty last block":   cat(full[:o], []byte{0x80, 0, 0, 0}, make([]byte, 16), f.Trl),
				"cut before it, bare end mark":      cat(full[:o], []byte{0x80, 0, 0, 0}, f.Trl),
				"marked as the last":                cat(flip(o, 0x80)[:z], f.Trl),
				"its end mark turned":               flip(o, 0x80),
				"left out":                          cat(full[:o], full[z:]),
				"twice":                             cat(full[:z], full[o:]),
				"its length one off":                flip(o+3, 1),
				"its first byte changed":            flip(o+4, 1),
				"its last plaintext byte changed":   flip(max(z-17, o+4), 0x40),
				"its tag changed":                   flip(z-1, 0x80),
				"from here on the file starts anew": cat(full[:z], full[head:]),
			}
			if x < last {
				edits["exchanged with the next"] = cat(full[:o], full[z:offs[x+2]], full[o:z], full[offs[x+2]:])
			}
			for what, g := range edits {
				for _, mode := range []string{"file", "stream"} {
					expect(e, "exact", mode, g, p["r1"], p[c.by], pt, fmt.Sprintf("%d blocks of %d bytes, block %d %s", c.blocks, c.bs, x, what), nil)
				}
				e.R.Count("long_edits")
			}
		})
	}
}

// containerSweeps refines the abstract edits Cut, Flip*, DropChunk ... of the
// specification to every concrete position of small files, and the block
// edits to far apart positions of long ones.
func containerSweeps(e *Env, p map[string]*Party) error {
	type fl struct {
		name string
		b    []byte
		pt   []byte
		by   *Party
		hl   int
	}
	r := Rng(e.Seed, "sweep")
	var files []fl
	for _, by := range []*Party{nil, p["S"]} {
		for _, n := range []int{0, 5, 8, 13, 16} {
			for _, iface := range []string{"file", "stream"} {
				pt := bytesOf(r, n)
				b, err := Encrypt(8, by, []*Party{p["r1"]}, pt, iface, r)
				if err != nil {
					e.R.Note("sweep: cannot encrypt %d bytes: %v", n, err)
					continue
				}
				_, hl, err := ref.ParseHeader(b)
				if err != nil {
					e.R.Note("sweep: reference cannot parse header: %v", err)
					hl = 0
				}
				files = append(files, fl{fmt.Sprintf("%d bytes (%s, signed %v)", n, iface, by != nil), b, pt, by, hl})
			}
		}
	}
	for fi, f := range files {
		n := len(f.b)
		// every truncation
		Par(n, func(i int) {
			mode := []string{"file", "stream"}[(i+fi)%2]
			expect(e, "exact", mode, f.b[:i], p["r1"], f.by, f.pt, fmt.Sprintf("%s truncated to %d of %d", f.name, i, n), nil)
			expect(e, "exact", mode, append(bytes.Clone(f.b[:i]), make([]byte, 64)...), p["r1"], f.by, f.pt, fmt.Sprintf("%s truncated to %d of %d, 64 zero bytes appended", f.name, i, n), nil)
		})
		// every bit; in the header also with the checksum recomputed
		Par(n*8, func(i int) {
			mode := []string{"file", "stream"}[(i+fi)%2]
			b := bytes.Clone(f.b)
			b[i/8] ^= 1 << (i % 8)
			expect(e, "exact", mode, b, p["r1"], f.by, f.pt, fmt.Sprintf("%s bit %d flipped", f.name, i), nil)
			if i/8 < f.hl-32 {
				copy(b[f.hl-32:f.hl], sha(b[:f.hl-32]))
				expect(e, "exact", mode, b, p["r1"], f.by, f.pt, fmt.Sprintf("%s bit %d flipped, checksum recomputed", f.name, i), nil)
			}
		})
		e.R.Count("sweep_files")
	}
	// random byte level edits
	N := 6000
	if e.Thorough() {
		N = 150000
	}
	Par(N, func(i int) {
		if e.Late() {
			return
		}
		r := Rng(e.Seed, "mut", i)
		f := files[r.Intn(len(files))]
		g := files[r.Intn(len(files))]
		b := bytes.Clone(f.b)
		for k := 1 + r.Intn(3); k > 0; k-- {
			if len(b) == 0 {
				break
			}
			x, y := r.Intn(len(b)), r.Intn(len(b)+1)
			if x > y {
				x, y = y, x
			}
			switch r.Intn(7) {
			case 0:
				b = append(bytes.Clone(b[:x]), b[y:]...)
			case 1:
				b = append(bytes.Clone(b[:y]), b[x:]...)
			case 2:
				b[x] = byte(r.Intn(256))
			case 3:
				z := min(x+1+r.Intn(40), len(g.b))
				if x < z {
					b = append(append(bytes.Clone(b[:x]), g.b[x:z]...), b[x:]...)
				}
			case 4:
				z := min(len(b), len(g.b))
				if x < z {
					copy(b[x:], g.b[x:min(z, x+1+r.Intn(100))])
				}
			case 5:
				if f.hl < len(b) {
					copy(b[f.hl:], []byte{0x80, 0, 0, 0})
					b = b[:min(len(b), f.hl+4+r.Intn(100))]
				}
			case 6:
				for j := x; j < min(y, x+8); j++ {
					b[j] = 0
				}
			}
		}
		expect(e, "exact", []string{"file", "stream"}[i%2], b, p["r1"], f.by, f.pt, fmt.Sprintf("%s random edit %d", f.name, i), nil)
	})
	// far apart blocks
	far := []int{1, 2, 128, 255, 256, 257, 4096, 32768, 65535, 65536}
	type longf struct {
		f     *ref.File
		pt    []byte
		iface string
	}
	for _, iface := range []string{"file", "stream"} {
		pt := bytesOf(r, 66000)
		b, err := Encrypt(1, nil, withOthers(p, otherRecipients(r), "r1"), pt, iface, r)
		if err != nil {
			e.R.Note("far: cannot encrypt: %v", err)
			continue
		}
		f, err := ref.Split(b)
		if err != nil || len(f.Segs) < 66000 {
			e.R.Note("far: reference cannot split: %v", err)
			continue
		}
		Par(len(far)*4, func(i int) {
			r := Rng(e.Seed, "far", i, iface)
			d := far[i/4]
			g := *f
			g.Segs = append([]ref.Seg(nil), f.Segs...)
			var x, y int
			for {
				x = r.Intn(66000 - d)
				y = x + d
				if pt[x] != pt[y] {
					break
				}
			}
			what := ""
			switch i % 4 {
			case 0:
				g.Segs[x], g.Segs[y] = g.Segs[y], g.Segs[x]
				what = "swapped"
			case 1:
				g.Segs[x] = g.Segs[y]
				what = "first replaced by second"
			case 2:
				g.Segs[y] = g.Segs[x]
				what = "second replaced by first"
			case 3:
				g.Segs = append(append([]ref.Seg(nil), f.Segs[:x]...), f.Segs[y:]...)
				what = "blocks between removed"
			}
			for _, mode := range []string{"file", "stream"} {
				expect(e, "exact", mode, g.Bytes(), p["r1"], nil, pt, fmt.Sprintf("66000 blocks (%s), blocks %d and %d %s", iface, x, y, what), nil)
			}
			e.R.Count("far_block_edits")
		})
	}
	longEdits(e, p)
	// blocks from places too far away to be reached by writing all of them: what
	// a long file of the same key would have there
	for _, more := range []int{0, 1, 2, 3, 9} {
		pt := bytesOf(r, 20)
		b, err := Encrypt(8, nil, withOthers(p, more, "r1"), pt, "file", r)
		var f *ref.File
		if err == nil {
			f, err = ref.Split(b)
		}
		if err != nil || f.H.Unwrap(p["r1"].Ed) == nil {
			e.R.Note("far: reference cannot open: %v", err)
		} else {
			dk := ref.DataKeys(f.H.Unwrap(p["r1"].Ed), f.Sum)
			for k := 2; k < 32; k++ {
				for _, d := range []uint32{1 << k, 1<<k - 1, 1<<k + 1, -(1 << k), 3 << k} {
					for j := range f.Segs {
						g := *f
						g.Segs = append([]ref.Seg(nil), f.Segs...)
						lw, box := dk.Seal(uint32(j)+d, j == len(f.Segs)-1, bytesOf(r, len(f.Segs[j].Box)-16))
						g.Segs[j] = ref.Seg{LW: lw, Box: box}
						expect(e, "exact", []string{"file", "stream"}[(j+k)%2], g.Bytes(), p["r1"], nil, pt, fmt.Sprintf("block %d is replaced by block %d", j, uint32(j)+d), nil)
						e.R.Count("far_block_edits")
					}
				}
			}
		}
	}
	// large blocks: a few block edits with the default block size
	big := bytesOf(r, 9<<20)
	for _, iface := range []string{"file", "stream"} {
		b, err := Encrypt(0, p["S"], withOthers(p, otherRecipients(r), "r1"), big, iface, nil)
		if err != nil {
			e.R.Note("big: %v", err)
			continue
		}
		f, err := ref.Split(b)
		if err != nil || len(f.Segs) < 3 {
			e.R.Note("big: reference: %v", err)
			continue
		}
		var vs []*ref.File
		var names []string
		add := func(n string, fn func(g *ref.File)) {
			g := cloneFile(f)
			fn(g)
			vs = append(vs, g)
			names = append(names, n)
		}
		add("blocks 0 and 1 swapped", func(g *ref.File) { g.Segs[0], g.Segs[1] = g.Segs[1], g.Segs[0] })
		add("last block dropped, end mark set", func(g *ref.File) { g.Segs = g.Segs[:2]; g.Segs[1].LW[0] |= 0x80 })
		add("byte changed in block 1", func(g *ref.File) { g.Segs[1].Box[len(g.Segs[1].Box)/2] ^= 1 })
		add("byte changed in last block", func(g *ref.File) { s := g.Segs[len(g.Segs)-1]; s.Box[len(s.Box)/2] ^= 1 })
		add("byte changed in last tag", func(g *ref.File) { s := g.Segs[len(g.Segs)-1]; s.Box[len(s.Box)-1] ^= 1 })
		for i, g := range vs {
			for _, mode := range []string{"file", "stream"} {
				expect(e, "exact", mode, g.Bytes(), p["r1"], p["S"], big, "9 MB in 4 MB blocks: "+names[i], nil)
			}
		}
	}
	return nil
}

// containerSizes: round trips over real block sizes and lengths, and the
// configurations at and beyond the documented limits.
func containerSizes(e *Env, g *progDec, p map[string]*Party) error {
	type cfg struct {
		bs, n    int
		rc       []string
		by       string
		in       string
		overread bool
	}
	var v []cfg
	r := Rng(e.Seed, "sizes")
	bss := []int{1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 33, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 70001}
	if e.Thorough() {
		for i := 5; i < 140; i++ {
			bss = append(bss, i)
		}
		bss = append(bss, 1<<20-1, 1<<20, 1<<20+1, 5<<20)
	}
	rcs := [][]string{{"r1"}, {"r1", "r2"}, {"r2", "r1"}, {"r1", "r1"}, {"S", "r1", "T"}}
	for _, bs := range bss {
		for _, n := range []int{0, 1, bs - 1, bs, bs + 1, 2*bs - 1, 2 * bs, 2*bs + 1, 3 * bs, 5*bs + bs/2} {
			for k, in := range []string{"file", "stream"} {
				v = append(v, cfg{bs, max(n, 0), rcs[(bs+n+k)%len(rcs)], []string{"", "S", "r1"}[r.Intn(3)], in, false})
			}
			v = append(v, cfg{bs, max(n, 0), rcs[(bs+n+2)%len(rcs)], []string{"", "S", "r1"}[r.Intn(3)], "program", false})
		}
	}
	Par(len(v), func(i int) {
		if e.Late() {
			e.R.Count("skipped_out_of_time")
			return
		}
		c := v[i]
		r := Rng(e.Seed, "size", i)
		sizeCase(e, g, p, uint64(c.bs), c.n, c.rc, c.by, c.in, r)
	})
	contentCases(e, g, p)
	// default block size and around it; several large ones
	big := []struct {
		bs uint64
		n  int
	}{{0, 0}, {0, 1}, {0, 4<<20 - 1}, {0, 4 << 20}, {0, 4<<20 + 1}, {0, 8 << 20}, {0, 9<<20 + 5}, {16 << 20, 16<<20 + 1}, {100 << 20, 1000}}
	if e.Thorough() {
		big = append(big, []struct {
			bs uint64
			n  int
		}{{0, 64 << 20}, {0, 65<<20 + 1}, {64 << 20, 128 << 20}, {4<<20 + 1, 13 << 20}}...)
	}
	Par(len(big)*3, func(i int) {
		c := big[i/3]
		r := Rng(e.Seed, "big", i)
		sizeCase(e, g, p, c.bs, c.n, []string{"r1", "r2"}, []string{"", "S"}[r.Intn(2)], []string{"file", "stream", "program"}[i%3], r)
	})
	// the maximum; what is asked for beyond it is clamped or refused
	for i, bs := range []uint64{1 << 30, 1<<30 + 1, 1 << 31, 1<<32 + 5, 1 << 40} {
		if i > 1 && !e.Thorough() && i != 2+int(e.Seed)%3 {
			continue
		}
		sizeCase(e, g, p, bs, 1000, []string{"r1"}, "", []string{"file", "stream"}[i%2], r)
	}
	if e.Thorough() {
		sizeCase(e, g, p, 1<<30-1, 5, []string{"r1"}, "S", "stream", r)
		sizeCase(e, g, p, 1<<30, 1<<30+7, []string{"r1"}, "", "file", r)
		sizeCase(e, g, p, 1<<30, 1<<30, []string{"r1"}, "", "stream", r)
	}
	longCase(e, p, 4<<20, 4<<30+4097, "file")
	if e.Thorough() {
		longCase(e, p, 1<<20-1, 9<<30+1, "stream")
	}
	for _, bs := range []uint64{1 << 30, 1<<30 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 1, 3 << 30, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 5, 1<<32 + 1<<20, 1<<32 + 1<<30, 1<<32 + 1<<30 + 1,
		1 << 33, 1 << 40, 1<<48 + 77, 1<<63 - 1, 1 << 63, 1<<63 + 4096, 1<<64 - 1<<32, 1<<64 - 1<<32 + 64, 1<<64 - 1} {
		clampCase(e, p, bs)
	}
	for i := 0; i < 40; i++ {
		clampCase(e, p, r.Uint64()>>uint(r.Intn(34)))
	}
	// number of recipients
	for _, n := range []int{0, 1, 2, 3, 10, 100, 1000, 15000, 16000} {
		if n == 1000 && !e.Thorough() {
			continue
		}
		rcptCase(e, p, n, "file", r)
		rcptCase(e, p, n, "stream", r)
	}
	everyRecipient(e, p, 400, r)
	if e.Thorough() {
		everyRecipient(e, p, 2000, r)
		// around the largest header a decryptor accepts
		for n := 15880; n < 15892; n++ {
			rcptCase(e, p, n, "file", r)
		}
	}
	return nil
}

// everyRecipient: all of many different recipients can open the file.
func everyRecipient(e *Env, p map[string]*Party, n int, r *rand.Rand) {
	to := make([]*Party, n)
	for i := range to {
		to[i] = NewParty(fmt.Sprint("recipient ", i+1))
	}
	pt := bytesOf(r, 50)
	b, err := Encrypt(64, p["S"], to, pt, "file", r)
	if err != nil {
		e.R.Violation("encrypt fails", fmt.Sprintf("%d different recipients: %v", n, err), n)
		return
	}
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	Par(n, func(i int) {
		expect(e, "ok", "file", b, to[i], p["S"], pt, fmt.Sprintf("%d different recipients, opened by %s", n, to[i].Name), Rng(seeds[i], "every"))
	})
	e.R.Count("every_recipient")
}

// clampCase: whatever block size is asked for, a file that is begun is one a
// decryptor accepts.
func clampCase(e *Env, p map[string]*Party, bs uint64) {
	var out Sink
	e.R.Exec(1)
	err := Guard(func() error {
		x, err := sign.NewEncryptor(nil, bs)
		if err == nil {
			err = x.AddRecipient(p["r1"].PK)
		}
		if err == nil {
			_, err = x.NewStreamWriter(&out)
		}
		return err
	})
	debug.FreeOSMemory()
	if IsPanic(err) {
		e.R.Violation("encrypt crash", fmt.Sprintf("block size %d: %v", bs, err), bs)
		return
	}
	if err != nil {
		if bs <= 1<<30 {
			e.R.Violation("encrypt fails", fmt.Sprintf("block size %d: %v", bs, err), bs)
		}
		e.R.Count("block_sizes_refused")
		return
	}
	err = Guard(func() error {
		_, err := sign.NewDecryptor(bytes.NewReader(out.Bytes()))
		return err
	})
	if err != nil {
		e.R.Violation("block size nobody accepts", fmt.Sprintf("asked for blocks of %d bytes the encryptor begins a file that no decryptor accepts: %v", bs, err), bs)
	}
	e.R.Count("block_sizes_begun")
}

// longData makes or checks n bytes whose content depends on where they are.
type longData struct {
	at, n int64
	page  []byte
	wrong bool
}

func (l *longData) next(m int) []byte {
	if l.page == nil {
		l.page = bytesOf(Rng(7, "long"), 65536)
	}
	o := int(l.at % 65536)
	if o < 8 || l.at == 0 {
		for i := 0; i < 8; i++ {
			l.page[i] = byte(l.at / 65536 >> (8 * i))
		}
	}
	m = min(m, 65536-o, int(min(l.n-l.at, 65536)))
	l.at += int64(m)
	return l.page[o : o+m]
}

func (l *longData) Read(b []byte) (int, error) {
	if l.at >= l.n {
		return 0, io.EOF
	}
	return copy(b, l.next(len(b))), nil
}

func (l *longData) Write(b []byte) (int, error) {
	n := len(b)
	for len(b) > 0 {
		x := l.next(len(b))
		if len(x) == 0 || !bytes.Equal(x, b[:len(x)]) {
			l.wrong = true
			return 0, errors.New("harness: other data")
		}
		b = b[len(x):]
	}
	return n, nil
}

// longCase: a round trip longer than 32 bits can count, in one pass.
func longCase(e *Env, p map[string]*Party, bs uint64, n int64, mode string) {
	desc := fmt.Sprintf("block size %d, %d bytes (%s)", bs, n, mode)
	src, dst := &longData{n: n}, &longData{n: n}
	rd, wr := io.Pipe()
	ch := make(chan error, 1)
	go func() {
		ch <- Guard(func() error {
			defer wr.CloseWithError(io.ErrUnexpectedEOF)
			x, err := sign.NewEncryptor(p["S"].SK, bs)
			if err == nil {
				err = x.AddRecipient(p["r1"].PK)
			}
			if err != nil {
				return err
			}
			if mode == "file" {
				return x.Encrypt(src, wr)
			}
			w, err := x.NewStreamWriter(wr)
			if err == nil {
				if _, err = io.Copy(struct{ io.Writer }{w}, src); err == nil {
					err = w.Close()
				}
			}
			return err
		})
	}()
	err := Guard(func() error {
		defer rd.Close()
		d, err := sign.NewDecryptor(rd)
		if err == nil {
			err = d.SetPrivateKey(p["r1"].SK, p["S"].PK)
		}
		if err != nil {
			return err
		}
		if mode == "file" {
			return d.Decrypt(dst)
		}
		s, err := d.NewStreamReader()
		if err == nil {
			_, err = io.Copy(dst, struct{ io.Reader }{s})
		}
		return err
	})
	xe := <-ch
	e.R.Exec(2)
	e.R.Trace()
	e.R.Count("long_round_trips")
	switch {
	case dst.wrong:
		e.R.Violation("wrong plaintext/long", desc+fmt.Sprintf(": differs before byte %d", dst.at), desc)
	case xe != nil:
		e.R.Violation("encrypt fails", desc+": "+xe.Error(), desc)
	case err != nil:
		e.R.Violation("recipient cannot decrypt/long", desc+": "+errStr(err), desc)
	case dst.at != n:
		e.R.Violation("wrong plaintext/long", desc+fmt.Sprintf(": %d bytes come out", dst.at), desc)
	}
}

func sizeCase(e *Env, g *progDec, p map[string]*Party, bs uint64, n int, rc []string, by, in string, r *rand.Rand) {
	roundCase(e, g, p, bs, contentOf(r, n), "", rc, by, in, r)
}

// contentCases: files of the tool's own formats and others are contents like any other.
func contentCases(e *Env, g *progDec, p map[string]*Party) {
	r := Rng(e.Seed, "contents")
	type content struct {
		name string
		b    []byte
	}
	var v []content
	for _, h := range formatHeads {
		v = append(v, content{fmt.Sprintf("%q", h), []byte(h)}, content{fmt.Sprintf("%q and more", h), append([]byte(h), bytesOf(r, 500)...)})
	}
	for _, by := range []*Party{nil, p["S"]} {
		b, err := Encrypt(256, by, []*Party{p["r1"]}, bytesOf(r, 700), "file", r)
		must(err)
		v = append(v, content{"an encrypted file", b}, content{"two encrypted files", append(bytes.Clone(b), b...)}, content{"a truncated encrypted file", b[:len(b)-3]})
	}
	v = append(v, content{"a key", ref.MakePriv(p["r1"].Ed, nil, "x", 2, 1, 1).Bytes()}, content{"a public key", ref.MakePub(p["r1"].EdPK, "x")},
		content{"a signature", ref.MakeSig(p["r1"].Ed, ref.FileDigest([]byte("x")), "x")}, content{"an OpenSSH key", ref.DefSSH(p["r1"].Ed, "x").Bytes()})
	for _, n := range []int{1, 64, 65536, 131072 + 1} {
		v = append(v, content{fmt.Sprint(n, " zeros"), make([]byte, n)})
	}
	Par(len(v)*6, func(i int) {
		c := v[i/6]
		r := Rng(e.Seed, "content", i)
		roundCase(e, g, p, uint64(pick2(r, 16, 64, 4096, 0)), c.b, " ("+c.name+")", []string{"r1"}, []string{"", "S"}[i%2], []string{"file", "stream", "program"}[i%6/2], r)
	})
}

func roundCase(e *Env, g *progDec, p map[string]*Party, bs uint64, pt []byte, name string, rc []string, by, in string, r *rand.Rand) {
	n := len(pt)
	var to []*Party
	for _, x := range rc {
		to = append(to, p[x])
	}
	var want *Party
	if by != "" {
		want = p[by]
	}
	desc := fmt.Sprintf("block size %d, %d bytes%s, to %v signed by %q (%s)", bs, n, name, rc, by, in)
	var b []byte
	var err error
	if in == "program" {
		b, err = g.encrypt(bs, by, rc, pt, r)
	} else {
		b, err = Encrypt(bs, want, to, pt, in, r)
	}
	e.R.Exec(1)
	if err != nil {
		if IsPanic(err) {
			e.R.Violation("encrypt crash", desc+": "+err.Error(), desc)
		} else if bs <= 1<<30 {
			e.R.Violation("encrypt fails", desc+": "+err.Error(), desc)
		}
		return
	}
	for i, x := range to {
		if i > 0 && len(b) > 1<<26 {
			break
		}
		modes := []string{"file", "stream"}
		if n > 1<<20 {
			modes = modes[r.Intn(2):][:1]
		}
		for _, mode := range modes {
			expect(e, "ok", mode, b, x, want, pt, desc, r)
		}
		if in == "program" && i == 0 {
			if by == "" {
				by = "none"
			}
			mode := progModes[r.Intn(len(progModes))]
			d := g.decrypt(b, rc[i], by, mode)
			e.R.Exec(1)
			if d.Err != nil {
				e.R.Violation("recipient cannot decrypt/"+mode, desc+": "+errStr(d.Err), desc)
			} else if mode != "program -t" && !bytes.Equal(d.Out, pt) {
				e.R.Violation("wrong plaintext/"+mode, desc, desc)
			}
		}
	}
	e.R.Trace()
	e.R.Count("size_cases")
}

func rcptCase(e *Env, p map[string]*Party, n int, in string, r *rand.Rand) {
	desc := fmt.Sprintf("%d recipients (%s)", n, in)
	pt := bytesOf(r, 50)
	var to []*Party
	base := []*Party{p["r2"], p["S"], p["T"]}
	for i := 0; i < n; i++ {
		to = append(to, base[i%3])
	}
	var at []int
	if n > 0 {
		at = []int{r.Intn(n), n - 1}
		to[at[0]], to[at[1]] = p["r1"], p["x"]
	}
	b, err := Encrypt(64, nil, to, pt, in, r)
	e.R.Exec(1)
	if err != nil {
		if IsPanic(err) {
			e.R.Violation("encrypt crash", desc+": "+err.Error(), desc)
		} else if n > 0 && n <= 15000 {
			// the header of so many recipients is within the documented maximum
			e.R.Violation("encrypt fails", desc+": "+err.Error(), desc)
		}
		e.R.Count("rcpt_refused")
		return
	}
	if n == 0 {
		e.R.Violation("no recipients", "encryption to nobody reports success: no one can open the file", desc)
		return
	}
	who := []*Party{p["x"]}
	if at[0] != at[1] {
		who = append(who, p["r1"])
	}
	if n <= 100 {
		who = append(who, to...)
	}
	for i, w := range who {
		if i > 12 {
			break
		}
		expect(e, "ok", "file", b, w, nil, pt, fmt.Sprintf("%s, opened by %s", desc, w.Name), r)
	}
	e.R.Count("rcpt_accepted")
}

// containerMany: recipients work independently of position and number, and
// keys that are not among them never open the file.
func containerMany(e *Env, p map[string]*Party) error {
	ns := []int{1, 2, 3, 5, 8, 17, 40}
	if e.Thorough() {
		ns = append(ns, 100, 254, 255, 256, 257, 300)
	}
	others := Parties("x1", "x2", "x3", "x4", "x5")
	for _, n := range ns {
		r := Rng(e.Seed, "many", n)
		var to []*Party
		for i := 0; i < n; i++ {
			to = append(to, NewParty(fmt.Sprintf("m%d", i)))
		}
		pt := bytesOf(r, 100)
		for _, by := range []*Party{nil, p["S"]} {
			b, err := Encrypt(64, by, to, pt, []string{"file", "stream"}[n%2], r)
			if err != nil {
				e.R.Violation("encrypt fails", fmt.Sprintf("%d recipients: %v", n, err), n)
				continue
			}
			desc := fmt.Sprintf("%d recipients signed %v", n, by != nil)
			Par(n, func(i int) {
				// rule for C04: "named recipient cannot decrypt"
				c := expect(e, "ok", "file", b, to[i], by, pt, fmt.Sprintf("%s, number %d", desc, i), nil)
				_ = c
			})
			f, ferr := ref.Split(b)
			for _, x := range others {
				expect(e, "none", "file", b, x.as("x"), by, pt, desc+", outsider", nil)
				expect(e, "none", "stream", b, x.as("x"), by, pt, desc+", outsider", nil)
				if ferr != nil {
					continue
				}
				// other recipients' entries changed in every way an outsider can
				for k := 0; k < 6; k++ {
					g := cloneFile(f)
					i := r.Intn(n)
					w := &g.H.Keys[i]
					switch k {
					case 0:
						flip(w.DKey, r)
					case 1:
						flip(w.Nonce, r)
					case 2:
						w.DKey = make([]byte, len(w.DKey))
					case 3:
						w.Nonce = nil
					case 4:
						g.H.Pk = make([]byte, 32)
					case 5:
						for j := range g.H.Keys {
							g.H.Keys[j] = ref.Wrapped{DKey: bytesOf(r, 48), Nonce: bytesOf(r, 12)}
						}
					}
					g.Sum = g.H.Sum()
					expect(e, "none", "file", g.Bytes(), x.as("x"), by, pt, fmt.Sprintf("%s, entry %d changed (%d), outsider", desc, i, k), nil)
				}
			}
			e.R.Trace()
		}
	}
	return nil
}

func (p *Party) as(n string) *Party {
	q := *p
	q.Name = n
	return &q
}

// containerSenderSweep: real files of many lengths; the insider changes what
// it can at every length.
func containerSenderSweep(e *Env, p map[string]*Party) error {
	const bs = 8
	top := 4*bs + 1
	Par((top+1)*2, func(k int) {
		n := k / 2
		in := []string{"file", "stream"}[k%2]
		r := Rng(e.Seed, "sender", k)
		pt := contentOf(r, n)
		desc := fmt.Sprintf("%d bytes in blocks of %d (%s)", n, bs, in)
		to := []*Party{p["r1"], p["r2"]}
		signed, err := Encrypt(bs, p["S"], to, pt, in, r)
		plain, err2 := Encrypt(bs, nil, to, pt, in, r)
		if err != nil || err2 != nil {
			e.R.Note("sender sweep: %s: %v %v", desc, err, err2)
			return
		}
		for _, mode := range []string{"file", "stream"} {
			expect(e, "ok", mode, signed, p["r1"], p["S"], pt, desc, r)
			for _, bad := range []*Party{p["T"], p["r1"], p["r2"], p["E"]} {
				expect(e, "none", mode, signed, p["r1"], bad, pt, desc+" wrong sender demanded", r)
				expect(e, "none", mode, plain, p["r1"], bad, pt, desc+" unsigned, sender demanded", r)
			}
			d := DecryptWith(signed, p["r1"], nil, mode, r)
			e.R.Exec(1)
			if d.Err == nil || len(d.Out) > 0 {
				e.R.Violation("no sender key", desc+": authenticated file decrypted without sender key", hexCap(signed))
			}
		}
		f, err := ref.Split(signed)
		if err != nil {
			e.R.Note("sender sweep: reference: %v", err)
			return
		}
		root := f.H.Unwrap(p["r2"].Ed)
		if root == nil {
			e.R.Note("sender sweep: reference cannot unwrap")
			return
		}
		// r2 replaces the content by content of any other length
		for m := 0; m <= top; m++ {
			g := cloneFile(f)
			evil := bytesOf(r, m)
			if m == n && bytes.Equal(evil, pt) {
				continue
			}
			g.Fill(root, evil, r.Intn(2) == 0)
			for v := 0; v < 3; v++ {
				switch v {
				case 1:
					g.Trl = ref.SignMsg(p["r2"].Ed, g.MacOf(root))
				case 2:
					g.Trl = make([]byte, 64)
				}
				for _, mode := range []string{"file", "stream"} {
					d := DecryptWith(g.Bytes(), p["r1"], p["S"], mode, r)
					e.R.Exec(1)
					if IsPanic(d.Err) {
						e.R.Violation("crash", desc+": "+d.Err.Error(), hexCap(g.Bytes()))
					} else if d.Err == nil && !bytes.Equal(d.Out, pt) {
						e.R.Violation("insider content accepted", fmt.Sprintf("%s: another recipient's %d bytes accepted as the sender's (trailer variant %d, %s)", desc, m, v, mode), hexCap(g.Bytes()))
					}
				}
			}
		}
		e.R.Trace()
	})
	insiderFar(e, p)
	// authenticated sender is reported only when there is one
	var out Sink
	err := Guard(func() error {
		b, err := Encrypt(8, nil, []*Party{p["r1"]}, []byte("x"), "file", nil)
		if err != nil {
			return nil
		}
		d, err := sign.NewDecryptor(bytes.NewReader(b))
		if err != nil {
			return nil
		}
		if err := d.SetPrivateKey(p["r1"].SK, nil); err != nil {
			return nil
		}
		if d.AuthenticatedSender() {
			e.R.Violation("unauthenticated reported", "AuthenticatedSender is true for a file without sender authentication", hexCap(b))
		}
		return d.Decrypt(&out)
	})
	if IsPanic(err) {
		e.R.Violation("crash", err.Error(), nil)
	}
	return nil
}

func sha(b []byte) []byte {
	return ref.SHA256(b)
}

var _ = io.EOF
