package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"

	"github.com/opencoff/sigtool/sign"
)

func init() {
	cmds["interleave"] = cmdInterleave
}

// TurnCase is a behaviour of Interleave.tla.
type TurnCase struct {
	Ops   []string `json:"ops"`
	Obj   bool     `json:"obj"`
	Sched []int    `json:"sched"`
}

// turns lets operations run one at a time: each until its next call to the
// outside, or its end.
type turns struct {
	go_  []chan bool
	back chan int // an operation paused
	end  []bool
}

type turn struct {
	t *turns
	p int
	n int
}

// pause is called from within an operation.
func (t *turn) pause() {
	t.n++
	t.t.back <- t.p
	<-t.t.go_[t.p]
}

type turnReader struct {
	t *turn
	r io.Reader
}

func (r *turnReader) Read(b []byte) (int, error) { r.t.pause(); return r.r.Read(b) }

type turnWriter struct {
	t *turn
	Sink
}

func (w *turnWriter) Write(b []byte) (int, error) {
	w.t.pause()
	n, err := w.Sink.Write(b)
	w.t.pause()
	return n, err
}

func (w *turnWriter) Close() error { w.t.pause(); return w.Sink.Close() }

// turnOp is sharedMade.run with calls to the outside.
func (m *sharedMade) turnOp(op string, o *sharedObj, k int, t *turn) (later func() error, err error) {
	ok := func() error { return nil }
	bs := uint64(600)
	switch op {
	case "enc", "encs":
		out := &turnWriter{t: t}
		x, err := sign.NewEncryptor(o.sk, bs)
		if k%2 == 1 {
			x, err = sign.NewEncryptor(nil, bs)
		}
		if err == nil {
			err = x.AddRecipient(o.pk)
		}
		if err != nil {
			return nil, err
		}
		if op == "enc" {
			err = x.Encrypt(&turnReader{t, bytes.NewReader(o.content)}, out)
		} else {
			var w io.WriteCloser
			if w, err = x.NewStreamWriter(out); err == nil {
				for i := 0; i < len(o.content) && err == nil; i += 250 {
					t.pause()
					_, err = w.Write(o.content[i : i+250])
				}
				if err == nil {
					err = w.Close()
				}
			}
		}
		if err != nil {
			return nil, err
		}
		return func() error {
			want := m.p
			if k%2 == 1 {
				want = nil
			}
			d := DecryptWith(out.Bytes(), m.p, want, []string{"file", "stream"}[k%2], nil)
			if d.Err != nil || !bytes.Equal(d.Out, m.content) {
				return fmt.Errorf("the encrypted file does not decrypt to its content (%v)", d.Err)
			}
			return nil
		}, nil
	case "dec", "decs":
		b, want := o.enc, (*sign.PublicKey)(nil)
		if k%2 == 1 {
			b, want = o.signed, o.pk
		}
		d, err := sign.NewDecryptor(&turnReader{t, bytes.NewReader(b)})
		if err == nil {
			err = d.SetPrivateKey(o.sk, want)
		}
		if err != nil {
			return nil, err
		}
		out := &turnWriter{t: t}
		if op == "dec" {
			err = d.Decrypt(out)
		} else {
			var rd io.Reader
			if rd, err = d.NewStreamReader(); err == nil {
				buf := make([]byte, 333)
				for err == nil {
					var n int
					n, err = rd.Read(buf)
					t.pause()
					out.Sink.Write(buf[:n])
				}
				if err == io.EOF {
					err = nil
				}
			}
		}
		if err == nil && !bytes.Equal(out.Bytes(), m.content) {
			err = fmt.Errorf("decrypts to something else")
		}
		return ok, err
	case "readpriv", "readssh":
		b := o.priv
		if op == "readssh" {
			b = o.sshenc
		}
		sk, err := sign.MakePrivateKey(b, func() ([]byte, error) {
			t.pause()
			if op == "readpriv" {
				return nil, nil
			}
			return o.pw, nil
		})
		if err == nil && !bytes.Equal(sk.Sk, m.p.Ed) {
			err = fmt.Errorf("reads as another key")
		}
		return ok, err
	}
	return m.run(op, o, k)
}

func cmdInterleave(e *Env) error {
	cs, err := AllCases[TurnCase](e.Cases)
	if err != nil {
		return err
	}
	made := make([]*sharedMade, 4)
	for i := range made {
		if made[i], err = newSharedMade(e, 10+i); err != nil {
			return err
		}
		// two blocks
		for s, by := range map[bool]*Party{false: nil, true: made[i].p} {
			b, err := Encrypt(600, by, []*Party{made[i].p}, made[i].content, "file", nil)
			if err != nil {
				return err
			}
			if s {
				made[i].signed = b
			} else {
				made[i].enc = b
			}
		}
	}
	// what one operation lets go of, the next one is to find
	runtime.GOMAXPROCS(1)
	for i, c := range cs {
		if e.Late() {
			e.R.Count("skipped_out_of_time")
			break
		}
		n := len(c.Ops)
		t := &turns{back: make(chan int), end: make([]bool, n)}
		res := make([]error, n)
		later := make([]func() error, n)
		ms := make([]*sharedMade, n)
		os := make([]*sharedObj, n)
		for p := range c.Ops {
			ms[p] = made[p]
			if c.Obj {
				ms[p] = made[0]
			}
			if c.Obj && p > 0 {
				os[p] = os[0]
			} else if os[p], err = ms[p].fresh(i%2 == 0); err != nil {
				return err
			}
			t.go_ = append(t.go_, make(chan bool))
		}
		for p := range c.Ops {
			go func() {
				<-t.go_[p]
				res[p] = Guard(func() (err error) {
					later[p], err = ms[p].turnOp(c.Ops[p], os[p], i/2+p, &turn{t: t, p: p})
					return err
				})
				t.end[p] = true
				t.back <- p
			}()
		}
		step := func(p int) {
			if !t.end[p] {
				t.go_[p] <- true
				<-t.back
			}
		}
		for _, p := range c.Sched {
			step(p - 1)
		}
		for p := range c.Ops {
			for !t.end[p] {
				step(p)
			}
		}
		for p := range c.Ops {
			err := res[p]
			if err == nil {
				err = Guard(later[p])
			}
			if err != nil {
				e.R.Violation("turns/"+c.Ops[p], fmt.Sprintf("%s goes wrong (%v) when %v take turns at their calls to the outside in the order %v (objects shared: %v)", c.Ops[p], err, c.Ops, c.Sched, c.Obj), c)
			}
		}
		e.R.Exec(n)
		e.R.Trace()
	}
	return nil
}
