package main

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"io"
	"math/rand"
	"testing/iotest"

	"github.com/opencoff/sigtool/sign"
)

// Party is a key pair in both representations.
type Party struct {
	Name string
	SK   *sign.PrivateKey
	PK   *sign.PublicKey
	Ed   ed25519.PrivateKey
	EdPK ed25519.PublicKey
}

func NewParty(name string) *Party {
	sk, err := sign.NewPrivateKey()
	if err != nil {
		panic(err)
	}
	p := &Party{Name: name, SK: sk, PK: sk.PublicKey(), Ed: ed25519.PrivateKey(append([]byte(nil), sk.Sk...))}
	p.EdPK = p.Ed.Public().(ed25519.PublicKey)
	sk.ToCurve25519SK() // both conversions are cached lazily; do it before sharing
	p.PK.ToCurve25519PK()
	return p
}

func Parties(names ...string) map[string]*Party {
	m := map[string]*Party{}
	for _, n := range names {
		m[n] = NewParty(n)
		m[n].PK.Comment = "user@host" // says nothing about which key it is
	}
	return m
}

// Sink is an in-memory destination that counts closes.
type Sink struct {
	bytes.Buffer
	Closes int
}

func (s *Sink) Close() error { s.Closes++; return nil }

// Encrypt runs the real encryptor. Interface "file" or "stream".
func Encrypt(bs uint64, sender *Party, to []*Party, pt []byte, iface string, r *rand.Rand) ([]byte, error) {
	var out Sink
	err := Guard(func() error {
		var sk *sign.PrivateKey
		if sender != nil {
			sk = sender.SK
		}
		e, err := sign.NewEncryptor(sk, bs)
		if err != nil {
			return err
		}
		for _, p := range to {
			if err := e.AddRecipient(p.PK); err != nil {
				return err
			}
		}
		if iface == "file" {
			return e.Encrypt(sourceOf(pt, r), &out)
		}
		w, err := e.NewStreamWriter(&out)
		if err != nil {
			return err
		}
		rest := pt
		var own []byte // what is passed belongs to the caller again after the call
		for len(rest) > 0 {
			n := len(rest)
			if r != nil {
				n = 1 + r.Intn(len(rest))
			}
			own = append(own[:0], rest[:n]...)
			m, err := w.Write(own)
			for i := range own {
				own[i] ^= 0x5a
			}
			if err != nil {
				return err
			}
			if m != n {
				return io.ErrShortWrite
			}
			rest = rest[n:]
		}
		return w.Close()
	})
	return out.Bytes(), err
}

// sourceOf hands out b in one of the ways io.Reader allows.
func sourceOf(b []byte, r *rand.Rand) io.Reader {
	var rd io.Reader = bytes.NewReader(b)
	if r == nil {
		return rd
	}
	switch r.Intn(7) {
	case 0:
		return iotest.HalfReader(rd)
	case 1:
		return iotest.DataErrReader(rd)
	case 2:
		return &idleReader{rd: rd, max: 1 + r.Intn(1+len(b)), r: r}
	case 3:
		return &idleReader{rd: iotest.DataErrReader(rd), max: 1 + r.Intn(40+len(b)/50), r: r}
	case 4:
		if len(b) < 5000 {
			return iotest.OneByteReader(rd)
		}
	}
	return rd
}

// idleReader now and then has nothing yet.
type idleReader struct {
	rd  io.Reader
	max int
	r   *rand.Rand
}

func (x *idleReader) Read(b []byte) (int, error) {
	if x.r.Intn(3) == 0 {
		return 0, nil
	}
	return x.rd.Read(b[:min(len(b), x.max)])
}

// Decrypted is the outcome of one decryption attempt.
type Decrypted struct {
	Err  error
	Out  []byte // everything released, also before an error
	Auth bool
	Set  bool // SetPrivateKey succeeded
}

var errStall = errors.New("harness: reader makes no progress")

// DecryptWith runs the real decryptor. mode: "file" or "stream".
func DecryptWith(b []byte, who *Party, want *Party, mode string, r *rand.Rand) *Decrypted {
	d := &Decrypted{}
	var out bytes.Buffer
	d.Err = Guard(func() error {
		x, err := sign.NewDecryptor(sourceOf(b, r))
		if err != nil {
			return err
		}
		var wp *sign.PublicKey
		if want != nil {
			wp = want.PK
		}
		if err = x.SetPrivateKey(who.SK, wp); err != nil {
			return err
		}
		d.Set = true
		d.Auth = x.AuthenticatedSender()
		if mode == "file" {
			return x.Decrypt(&out)
		}
		s, err := x.NewStreamReader()
		if err != nil {
			return err
		}
		buf := make([]byte, 32768)
		zero := 0
		for {
			n := len(buf)
			if r != nil {
				n = 1 + r.Intn(len(buf))
				if r.Intn(3) == 0 {
					n = 1 + r.Intn(8)
				}
			}
			m, err := s.Read(buf[:n])
			out.Write(buf[:m])
			if err == io.EOF {
				return nil
			}
			if err != nil {
				return err
			}
			if m == 0 {
				if zero++; zero > 1000 {
					return errStall
				}
			} else {
				zero = 0
			}
		}
	})
	d.Out = out.Bytes()
	return d
}
