package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/opencoff/sigtool/sign"
	"verifharness/ref"
)

func init() {
	cmds["far"] = cmdFar
}

// insiderFar: another recipient changes one byte somewhere in a long file or
// a large block, everything else stays as the sender made it.
func insiderFar(e *Env, p map[string]*Party) {
	type cfg struct {
		bs  uint64
		n   int
		pos []int
	}
	every := func(n, step int) (v []int) {
		for i := 0; i < n; i += step {
			v = append(v, i)
		}
		return append(v, n-1)
	}
	pow := func(n int) (v []int) {
		for i := 1; i < n; i *= 2 {
			v = append(v, i-1, i, i+1, n-i, n/2+i/2)
		}
		r := Rng(e.Seed, "far", n)
		for i := 0; i < 20; i++ {
			v = append(v, r.Intn(n))
		}
		return
	}
	v := []cfg{
		{8, 8*300 + 3, every(8*300+3, 7)},
		{16, 16 * 1100, pow(16 * 1100)},
		{1024, 1024*70 + 1, every(1024*70+1, 511)},
		{200000, 500001, pow(200000)},
		{200000, 500001, []int{200000, 265535, 265536, 265537, 399999, 400000, 465536, 465537, 500000}},
		{1 << 20, 1<<20 + 9, pow(1<<20 + 9)},
		{0, 4<<20 + 70000, pow(4<<20 + 70000)},
		{16, 16 * 66000, []int{0, 16*255 + 1, 16 * 256, 16 * 65534, 16 * 65535, 16 * 65536, 16 * 65537, 16*66000 - 1}},
	}
	for k, c := range v {
		r := Rng(e.Seed, "far", k)
		pt := bytesOf(r, c.n)
		to := withOthers(p, otherRecipients(r), "r1", "r2")
		b, err := Encrypt(c.bs, p["S"], to, pt, []string{"file", "stream"}[k%2], r)
		if err != nil {
			e.R.Note("far: %v", err)
			continue
		}
		f, err := ref.Split(b)
		if err != nil {
			e.R.Note("far: reference: %v", err)
			continue
		}
		root := f.H.Unwrap(p["r2"].Ed)
		if root == nil {
			e.R.Note("far: reference cannot unwrap")
			continue
		}
		dk := ref.DataKeys(root, f.Sum)
		bs := int(c.bs)
		if bs == 0 {
			bs = int(f.H.Chunk)
		}
		expect(e, "ok", "file", b, p["r1"], p["S"], pt, fmt.Sprintf("%d bytes in blocks of %d", c.n, bs), nil)
		Par(len(c.pos), func(i int) {
			at := c.pos[i]
			if at < 0 || at >= c.n {
				return
			}
			g := *f
			g.Segs = append([]ref.Seg(nil), f.Segs...)
			blk := at / bs
			if blk >= len(g.Segs) {
				return
			}
			old := append([]byte(nil), pt[blk*bs:min(c.n, (blk+1)*bs)]...)
			old[at-blk*bs] ^= 1 << uint(at%8)
			lw, box := dk.Seal(uint32(blk), blk == len(g.Segs)-1, old)
			if !bytes.Equal(lw, f.Segs[blk].LW) {
				e.R.Note("far: the reference does not know the block layout")
				return
			}
			g.Segs[blk] = ref.Seg{LW: lw, Box: box}
			d := DecryptWith(g.Bytes(), p["r1"], p["S"], []string{"file", "stream"}[i%2], nil)
			e.R.Exec(1)
			if d.Err == nil {
				e.R.Violation("insider content accepted/far", fmt.Sprintf("%d bytes in blocks of %d: byte %d changed by another recipient is accepted as the sender's", c.n, bs, at), fmt.Sprint(at))
			}
		})
		e.R.Count("insider_far_files")
	}
}

// cutReader hands out n bytes and then ends or fails.
type cutReader struct {
	rd  io.Reader
	n   int
	err error
}

func (c *cutReader) Read(b []byte) (int, error) {
	if c.n <= 0 {
		return 0, c.err
	}
	if len(b) > c.n {
		b = b[:c.n]
	}
	n, err := c.rd.Read(b)
	c.n -= n
	return n, err
}

// cutSink accepts n bytes and then fails.
type cutSink struct {
	n      int
	got    int
	failed bool
}

var errFar = errors.New("harness: far fault")

func (c *cutSink) Write(b []byte) (int, error) {
	if c.got+len(b) > c.n {
		m := c.n - c.got
		c.got = c.n
		c.failed = true
		return m, errFar
	}
	c.got += len(b)
	return len(b), nil
}
func (c *cutSink) Close() error { return nil }

// cmdFar: faults far into long files.
func cmdFar(e *Env) error {
	p := Parties(append(fillers, "r1", "S")...)
	const bs = 16
	blocks := []int{1, 2, 3, 7, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 299, 300, 301, 1023, 1024, 1025, 4096}
	if e.Thorough() {
		blocks = append(blocks, 32767, 32768, 65535, 65536, 65537, 100000)
	} else {
		blocks = append(blocks, 65536)
	}
	total := blocks[len(blocks)-1] + 5
	for _, by := range []*Party{nil, p["S"]} {
		pt := bytesOf(Rng(e.Seed, "far"), total*bs+3)
		to := withOthers(p, otherRecipients(Rng(e.Seed, "far", by != nil)), "r1")
		b, err := Encrypt(bs, by, to, pt, "stream", nil)
		if err != nil {
			e.R.Note("far: %v", err)
			continue
		}
		hdr := 12 + int(uint32(b[8])<<24|uint32(b[9])<<16|uint32(b[10])<<8|uint32(b[11])) + 32
		const blk = 4 + bs + 16
		Par(len(blocks), func(i int) {
			k := blocks[i]
			at := hdr + k*blk
			r := Rng(e.Seed, "far", k)
			for _, cut := range []int{at, at + 1, at + 4, at + 5, at + blk - 1, at - 1} {
				if cut >= len(b) || cut <= hdr {
					continue
				}
				for m, fault := range []error{io.EOF, errFar, io.ErrUnexpectedEOF} {
					if m == 2 && cut != at {
						continue
					}
					for _, mode := range []string{"file", "stream"} {
						var out bytes.Buffer
						err := Guard(func() error {
							d, err := sign.NewDecryptor(&cutReader{bytes.NewReader(b), cut, fault})
							if err != nil {
								return err
							}
							var want *sign.PublicKey
							if by != nil {
								want = by.PK
							}
							if err = d.SetPrivateKey(p["r1"].SK, want); err != nil {
								return err
							}
							if mode == "file" {
								return d.Decrypt(&out)
							}
							s, err := d.NewStreamReader()
							if err != nil {
								return err
							}
							_, err = io.CopyBuffer(struct{ io.Writer }{&out}, struct{ io.Reader }{s}, make([]byte, 1+r.Intn(4000)))
							return err
						})
						e.R.Exec(1)
						if IsPanic(err) {
							e.R.Violation("crash/far", err.Error(), cut)
						} else if err == nil {
							e.R.Violation("fault hidden/dec/"+mode, fmt.Sprintf("decrypting (%s) reports success although its source ended or failed (%v) after %d blocks", mode, fault, k), map[string]any{"cut": cut, "blocks": k})
						} else if !bytes.HasPrefix(pt, out.Bytes()) {
							e.R.Violation("wrong data/far", fmt.Sprintf("%d blocks: bytes released before the error are not a prefix", k), cut)
						}
					}
				}
				// the destination of a decryption fails
				err := Guard(func() error {
					d, err := sign.NewDecryptor(bytes.NewReader(b))
					if err != nil {
						return err
					}
					var want *sign.PublicKey
					if by != nil {
						want = by.PK
					}
					if err = d.SetPrivateKey(p["r1"].SK, want); err != nil {
						return err
					}
					return d.Decrypt(&cutSink{n: k*bs + cut%bs})
				})
				e.R.Exec(1)
				if err == nil {
					e.R.Violation("fault hidden/dec-out", fmt.Sprintf("decrypting reports success although its destination failed in block %d", k), k)
				}
			}
			// encryption: source and destination
			for _, in := range []string{"file", "stream"} {
				for _, fault := range []error{errFar, io.ErrUnexpectedEOF, nil} {
					for _, d := range []int{0, 1, 4, blk - 1} {
						if fault != nil && in == "stream" {
							continue
						}
						var sink *cutSink
						err := Guard(func() error {
							var sk *sign.PrivateKey
							if by != nil {
								sk = by.SK
							}
							x, err := sign.NewEncryptor(sk, bs)
							for _, t := range to {
								if err == nil {
									err = x.AddRecipient(t.PK)
								}
							}
							if err != nil {
								return err
							}
							if fault != nil {
								return x.Encrypt(&cutReader{bytes.NewReader(pt), k*bs + d, fault}, &Sink{})
							}
							sink = &cutSink{n: at + d}
							if in == "file" {
								return x.Encrypt(bytes.NewReader(pt), sink)
							}
							w, err := x.NewStreamWriter(sink)
							if err != nil {
								return err
							}
							for i := 0; i < len(pt) && err == nil; {
								n := min(len(pt)-i, 1+r.Intn(5000))
								_, err = w.Write(pt[i : i+n])
								i += n
							}
							if err != nil && r.Intn(2) == 0 {
								return err
							}
							return w.Close()
						})
						e.R.Exec(1)
						if err == nil && (fault != nil || sink.failed) {
							e.R.Violation("fault hidden/enc/"+in, fmt.Sprintf("encrypting (%s) reports success although its source or destination failed (%v) in block %d", in, fault, k), k)
						}
						if IsPanic(err) {
							e.R.Violation("crash/far", err.Error(), k)
						}
					}
				}
			}
			e.R.Count("far_positions")
		})
		e.R.Trace()
	}
	return nil
}
