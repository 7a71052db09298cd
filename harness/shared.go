package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"

	"github.com/opencoff/sigtool/sign"
	"verifharness/ref"
)

func init() {
	cmds["shared"] = cmdShared
}

// SharedCase is a behaviour of Shared.tla: operations that run at the same
// time and what they share.
type SharedCase struct {
	Ops    []string `json:"ops"`
	Shared []string `json:"shared"`
	Warm   bool     `json:"warm"`
}

// sharedMade is made once: bytes from which each run makes its objects.
type sharedMade struct {
	p            *Party
	priv, pub    []byte
	content, enc []byte
	signed       []byte // enc with sender
	sigMsg       []byte
	sigFile      []byte
	file         string
	auth, sshpub []byte
	sshpriv      []byte
	sshenc       []byte
}

func newSharedMade(e *Env, who int) (*sharedMade, error) {
	p := detParty(fmt.Sprint("shared", who))
	m := &sharedMade{p: p}
	m.priv = ref.MakePriv(p.Ed, nil, "c", 2, 1, 1).Bytes()
	m.pub = ref.MakePub(p.EdPK, "c")
	m.content = bytesOf(Rng(1, "shared", who), 1000)
	m.file = filepath.Join(e.Work, fmt.Sprint("content", who))
	if err := os.WriteFile(m.file, m.content, 0600); err != nil {
		return nil, err
	}
	var err error
	if m.enc, err = Encrypt(64, nil, []*Party{p}, m.content, "file", nil); err != nil {
		return nil, err
	}
	if m.signed, err = Encrypt(64, p, []*Party{p}, m.content, "stream", nil); err != nil {
		return nil, err
	}
	s, err := p.SK.SignMessage(m.content, "")
	if err == nil {
		m.sigMsg, err = s.MarshalBinary("c")
	}
	if err != nil {
		return nil, err
	}
	if s, err = p.SK.SignFile(m.file); err == nil {
		m.sigFile, err = s.MarshalBinary("c")
	}
	if err != nil {
		return nil, err
	}
	m.sshpub = []byte(ref.SSHPub(p.EdPK, "me@there"))
	m.auth = []byte("# comment\n" + string(m.sshpub) + "\nno-pty,command=\"a b\" " + string(m.sshpub) + "\r\njunk line\n" + string(m.sshpub))
	m.sshpriv = ref.DefSSH(p.Ed, "c").Bytes()
	x := ref.DefSSH(p.Ed, "c")
	x.Cipher, x.KDF, x.Pass = "aes256-cbc", "bcrypt", []byte("pw")
	m.sshenc = x.Bytes()
	return m, nil
}

// sharedObj are the objects one operation works on.
type sharedObj struct {
	sk      *sign.PrivateKey
	pk      *sign.PublicKey
	msg     *sign.Signature
	file    *sign.Signature
	content []byte
	enc     []byte
	signed  []byte
	priv    []byte
	pub     []byte
	auth    []byte
	sshpub  []byte
	sshpriv []byte
	sshenc  []byte
	pw      []byte
	path    string
}

func (m *sharedMade) fresh(inner bool) (*sharedObj, error) {
	o := &sharedObj{}
	var err error
	if o.sk, err = sign.MakePrivateKey(m.priv, nil); err != nil {
		return nil, err
	}
	if inner {
		o.pk = o.sk.PublicKey()
	} else if o.pk, err = sign.MakePublicKey(m.pub); err != nil {
		return nil, err
	}
	o.msg, o.file = new(sign.Signature), new(sign.Signature)
	if err = o.msg.UnmarshalBinary(m.sigMsg); err != nil {
		return nil, err
	}
	if err = o.file.UnmarshalBinary(m.sigFile); err != nil {
		return nil, err
	}
	c := func(b []byte) []byte { return append([]byte(nil), b...) }
	o.content, o.enc, o.signed = c(m.content), c(m.enc), c(m.signed)
	o.priv, o.pub, o.auth, o.sshpub, o.sshpriv, o.sshenc, o.pw = c(m.priv), c(m.pub), c(m.auth), c(m.sshpub), c(m.sshpriv), c(m.sshenc), []byte("pw")
	o.path = m.file
	return o, nil
}

// run does one operation; later checks its result when nothing runs any more.
func (m *sharedMade) run(op string, o *sharedObj, k int) (later func() error, err error) {
	ok := func() error { return nil }
	switch op {
	case "sign", "signfile":
		var s *sign.Signature
		if op == "sign" {
			s, err = o.sk.SignMessage(o.content, "c")
		} else {
			s, err = o.sk.SignFile(o.path)
		}
		if err != nil {
			return nil, err
		}
		return func() error {
			good := m.p.PK.VerifyMessage(m.content, s)
			if op == "signfile" {
				good, err = m.p.PK.VerifyFile(o.path, s)
			}
			if err != nil || !good || !s.IsPKMatch(m.p.PK) {
				return fmt.Errorf("the signature is wrong (%v)", err)
			}
			return nil
		}, nil
	case "verify":
		if !o.pk.VerifyMessage(o.content, o.msg) {
			return nil, fmt.Errorf("a good signature does not verify")
		}
		if o.pk.VerifyMessage(o.content[1:], o.msg) {
			return nil, fmt.Errorf("the signature of something else verifies")
		}
		return ok, nil
	case "verifyfile":
		good, err := o.pk.VerifyFile(o.path, o.file)
		if err != nil || !good {
			return nil, fmt.Errorf("a good signature of a file does not verify (%v)", err)
		}
		return ok, nil
	case "hint":
		if !o.msg.IsPKMatch(o.pk) {
			return nil, fmt.Errorf("the key hint does not match")
		}
		return ok, nil
	case "enc", "encs":
		var out Sink
		x, err := sign.NewEncryptor(o.sk, 64)
		if err == nil {
			err = x.AddRecipient(o.pk)
		}
		if err == nil {
			err = x.AddRecipient(m.p.PK)
		}
		if err != nil {
			return nil, err
		}
		if op == "enc" {
			err = x.Encrypt(bytes.NewReader(o.content), &out)
		} else {
			var w io.WriteCloser
			if w, err = x.NewStreamWriter(&out); err == nil {
				for i := 0; i < len(o.content) && err == nil; i += 100 {
					_, err = w.Write(o.content[i : i+100])
				}
				if err == nil {
					err = w.Close()
				}
			}
		}
		if err != nil {
			return nil, err
		}
		return func() error {
			d := DecryptWith(out.Bytes(), m.p, m.p, []string{"file", "stream"}[k%2], nil)
			if d.Err != nil || !bytes.Equal(d.Out, m.content) {
				return fmt.Errorf("the encrypted file does not decrypt to its content (%v)", d.Err)
			}
			return nil
		}, nil
	case "dec", "decs":
		b, want := o.enc, (*sign.PublicKey)(nil)
		if k%2 == 1 {
			b, want = o.signed, o.pk
		}
		d, err := sign.NewDecryptor(bytes.NewReader(b))
		if err == nil {
			err = d.SetPrivateKey(o.sk, want)
		}
		if err != nil {
			return nil, err
		}
		var out bytes.Buffer
		if op == "dec" {
			err = d.Decrypt(&out)
		} else {
			var rd io.Reader
			if rd, err = d.NewStreamReader(); err == nil {
				_, err = io.Copy(&out, struct{ io.Reader }{rd})
			}
		}
		if err == nil && !bytes.Equal(out.Bytes(), m.content) {
			err = fmt.Errorf("decrypts to something else")
		}
		return ok, err
	case "curvesk":
		clamp := func(b []byte) []byte {
			b = append([]byte(nil), b...)
			if len(b) == 32 {
				b[0], b[31] = b[0]&248, b[31]&127|64
			}
			return b
		}
		if !bytes.Equal(clamp(o.sk.ToCurve25519SK()), clamp(ref.CurveSK(m.p.Ed[:32]))) {
			return nil, fmt.Errorf("wrong Curve25519 private key")
		}
		return ok, nil
	case "curvepk":
		if !bytes.Equal(o.pk.ToCurve25519PK(), ref.CurvePK(m.p.EdPK)) {
			return nil, fmt.Errorf("wrong Curve25519 public key")
		}
		return ok, nil
	case "savepub":
		b, err := o.pk.MarshalBinary("c")
		if err != nil {
			return nil, err
		}
		o.pk.Hash()
		return func() error {
			k, err := sign.MakePublicKey(b)
			if err != nil || !bytes.Equal(k.Pk, m.p.EdPK) {
				return fmt.Errorf("the saved public key is another one (%v)", err)
			}
			return nil
		}, nil
	case "savesig":
		b, err := o.msg.MarshalBinary("c")
		if err != nil {
			return nil, err
		}
		return func() error {
			if !bytes.Equal(b, m.sigMsg) {
				return fmt.Errorf("the saved signature is another one")
			}
			return nil
		}, nil
	case "reads":
		pw := func() ([]byte, error) { return o.pw, nil }
		for i, b := range [][]byte{o.priv, o.sshpriv, o.sshenc} {
			if i == 2 && k%4 != 0 { // slow
				continue
			}
			f := pw
			if i == 0 {
				f = nil
			}
			x, err := sign.MakePrivateKey(b, f)
			if err != nil {
				return nil, fmt.Errorf("reading private key %d: %w", i, err)
			}
			if !bytes.Equal(x.Sk, m.p.Ed) {
				return nil, fmt.Errorf("private key %d reads as another", i)
			}
		}
		for i, b := range [][]byte{o.pub, o.sshpub} {
			x, err := sign.MakePublicKey(b)
			if err != nil {
				return nil, fmt.Errorf("reading public key %d: %w", i, err)
			}
			if !bytes.Equal(x.Pk, m.p.EdPK) {
				return nil, fmt.Errorf("public key %d reads as another", i)
			}
		}
		v, err := sign.ParseAuthorizedKeys(o.auth)
		if err != nil || len(v) != 3 {
			return nil, fmt.Errorf("authorized_keys reads as %d keys (%v)", len(v), err)
		}
		for _, x := range v {
			if !bytes.Equal(x.Pk, m.p.EdPK) || x.Comment != "me@there" {
				return nil, fmt.Errorf("authorized_keys reads as another key")
			}
		}
		return ok, nil
	}
	return nil, fmt.Errorf("harness: unknown operation %q", op)
}

// cmdShared replays behaviours of Shared.tla, many times each, under the race
// detector (reports go to the file named in GORACE and are judged by the
// caller) and checks every result.
func cmdShared(e *Env) error {
	m, err := newSharedMade(e, 0)
	if err != nil {
		return err
	}
	// what operations that share nothing work on
	var own [4]*sharedMade
	for i := range own {
		if own[i], err = newSharedMade(e, i+1); err != nil {
			return err
		}
	}
	files := 0
	cs, err := AllCases[SharedCase](e.Cases)
	if err != nil {
		return err
	}
	reps := 4
	if e.Thorough() {
		reps = 40
	}
	r := Rng(e.Seed, "shared")
	r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	runtime.GOMAXPROCS(max(4, runtime.NumCPU()))
	for _, c := range cs {
		if e.Late() {
			e.R.Count("skipped_out_of_time")
			continue
		}
		has := map[string]bool{}
		for _, s := range c.Shared {
			has[s] = true
		}
		for rep := 0; rep < reps; rep++ {
			common, err := m.fresh(rep%2 == 0)
			if err != nil {
				return err
			}
			objs := make([]*sharedObj, len(c.Ops))
			made := make([]*sharedMade, len(c.Ops))
			for i := range objs {
				made[i] = m
				if len(has) == 0 {
					made[i] = own[i%len(own)]
				}
				o, err := made[i].fresh(rand.Intn(2) == 0)
				if err != nil {
					return err
				}
				if !has["in"] {
					files++
					o.path = filepath.Join(e.Work, fmt.Sprint("own", files))
					if err := os.WriteFile(o.path, made[i].content, 0600); err != nil {
						return err
					}
					defer os.Remove(o.path)
				}
				if has["sk"] {
					o.sk = common.sk
				}
				if has["pk"] {
					o.pk = common.pk
				}
				if has["sig"] {
					o.msg, o.file = common.msg, common.file
				}
				if has["in"] {
					o.content, o.enc, o.signed, o.priv, o.pub = common.content, common.enc, common.signed, common.priv, common.pub
					o.auth, o.sshpub, o.sshpriv, o.sshenc, o.pw = common.auth, common.sshpub, common.sshpriv, common.sshenc, common.pw
				}
				if c.Warm {
					o.sk.ToCurve25519SK()
					o.pk.ToCurve25519PK()
				}
				objs[i] = o
			}
			res := make([]error, len(objs))
			later := make([]func() error, len(objs))
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range objs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					res[i] = Guard(func() (err error) {
						later[i], err = made[i].run(c.Ops[i], objs[i], rep)
						return err
					})
				}()
			}
			close(start)
			wg.Wait()
			for i := range objs {
				err := res[i]
				if err == nil {
					err = Guard(later[i])
				}
				if err != nil {
					e.R.Violation("result/"+c.Ops[i], fmt.Sprintf("%s, run at the same time as %v and sharing %v, goes wrong: %v", c.Ops[i], c.Ops, c.Shared, err), c)
				}
			}
			o := common
			for n, p := range map[string][2][]byte{"content": {o.content, m.content}, "encrypted file": {o.enc, m.enc}, "signed file": {o.signed, m.signed}, "private key": {o.priv, m.priv},
				"public key": {o.pub, m.pub}, "authorized_keys": {o.auth, m.auth}, "SSH public key": {o.sshpub, m.sshpub}, "SSH private key": {o.sshpriv, m.sshpriv}, "encrypted SSH key": {o.sshenc, m.sshenc}, "passphrase": {o.pw, []byte("pw")}} {
				if !bytes.Equal(p[0], p[1]) {
					e.R.Violation("input changed/"+n, fmt.Sprintf("%v change the %s they were given", c.Ops, n), c)
				}
			}
			e.R.Exec(len(objs))
		}
		e.R.Trace()
	}
	return nil
}
