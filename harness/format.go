package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/opencoff/sigtool/sign"
	"verifharness/ref"
)

func init() {
	cmds["format"] = cmdFormat
	cmds["docs"] = cmdDocs
	cmds["fixtures"] = cmdFixtures
	cmds["mkfixtures"] = cmdMkFixtures
	cmds["formatcli"] = cmdFormatCli
}

// FormatCase is a file of Format.tla.
type FormatCase struct {
	N     int    `json:"n"`
	C     uint64 `json:"c"`
	K     int    `json:"k"`
	Sign  bool   `json:"sign"`
	Style string `json:"style"`
	Order string `json:"order"`
	Hdr   int    `json:"hdr"`
	Len   int    `json:"len"`
	Sizes []int  `json:"sizes"`
}

// bytesLayout returns the header length, the whole length and the block sizes.
func bytesLayout(b []byte) (hdr, length int, sizes []int, err error) {
	f, err := ref.Split(b)
	if err != nil {
		return 0, 0, nil, err
	}
	if len(f.Tail) > 0 {
		return 0, 0, nil, fmt.Errorf("%d bytes after the trailer", len(f.Tail))
	}
	for _, s := range f.Segs {
		sizes = append(sizes, len(s.Box)-16)
	}
	return len(f.H.Var()), len(b), sizes, nil
}

func (c *FormatCase) fits(b []byte) error {
	h, l, s, err := bytesLayout(b)
	if err != nil {
		return err
	}
	if h != c.Hdr || l != c.Len || fmt.Sprint(s) != fmt.Sprint(c.Sizes) {
		return fmt.Errorf("header %d, length %d, blocks %v; the format has header %d, length %d, blocks %v", h, l, s, c.Hdr, c.Len, c.Sizes)
	}
	return nil
}

// varOf writes the header fields of an encrypted file in another order,
// as protobuf allows.  The checksum and so the data keys change with it.
func varOf(h *ref.Header, order string) []byte {
	one := func(n byte) []byte {
		x := &ref.Header{}
		switch n {
		case '1':
			x.Chunk = h.Chunk
		case '2':
			x.Salt = h.Salt
		case '3':
			x.Pk = h.Pk
		case '4':
			x.Sender = h.Sender
		case '5':
			x.Keys = h.Keys
		}
		return x.Var()
	}
	var b []byte
	for i := 0; i < len(order); i++ {
		b = append(b, one(order[i])...)
	}
	return b
}

// refFile makes a file by the reference implementation.
func refFile(c *FormatCase, sender *Party, to []*Party, pt []byte) ([]byte, error) {
	sp := ref.Spec{Chunk: c.C, EmptyLast: c.Style == "empty"}
	if c.Sign {
		sp.Sender = sender.Ed
	}
	for _, p := range to {
		sp.To = append(sp.To, p.EdPK)
	}
	b, root, err := ref.Encrypt(sp, pt)
	if err != nil || c.Order == "12345" {
		return b, err
	}
	f, err := ref.Split(b)
	if err != nil {
		return nil, err
	}
	v := varOf(f.H, c.Order)
	pre := append([]byte(ref.Magic), ref.Version)
	pre = binary.BigEndian.AppendUint32(pre, uint32(len(v)))
	pre = append(pre, v...)
	sum := sha256.Sum256(pre)
	f.Sum = sum[:]
	f.Fill(root, pt, sp.EmptyLast)
	if c.Sign {
		f.Trl = ref.SignMsg(sender.Ed, f.MacOf(root))
	}
	n := len(f.H.Bytes())
	whole := f.Bytes()
	return append(append(pre, sum[:]...), whole[n:]...), nil
}

func cmdFormat(e *Env) error {
	cases, err := AllCases[FormatCase](e.Cases)
	if err != nil {
		return err
	}
	var ps []*Party
	for i := 0; i < 130; i++ {
		ps = append(ps, detParty(fmt.Sprint("format", i)))
	}
	snd := detParty("format sender")
	key := func(c *FormatCase) string { return fmt.Sprint(c.N, c.C, c.K, c.Sign) }
	other := map[string][]*FormatCase{}
	for _, c := range cases {
		other[key(c)] = append(other[key(c)], c)
	}
	Par(len(cases), func(i int) {
		if e.Late() {
			return
		}
		c := cases[i]
		r := Rng(e.Seed, "format", i)
		e.R.Trace()
		pt := bytesOf(r, c.N)
		var by *Party
		if c.Sign {
			by = snd
		}
		to := append([]*Party{}, ps...)
		r.Shuffle(len(to), func(a, b int) { to[a], to[b] = to[b], to[a] })
		to = to[:c.K]
		desc := fmt.Sprintf("%d bytes, block size %d, %d recipients, signed %v, ends with %s block, header order %s", c.N, c.C, c.K, c.Sign, c.Style, c.Order)
		// 1: made by the reference implementation, read by the code
		b, err := refFile(c, snd, to, pt)
		if err != nil {
			panic(err)
		}
		if c.Order == "12345" {
			if err := c.fits(b); err != nil {
				panic(fmt.Sprintf("the reference implementation and Format.tla differ: %s: %v", desc, err))
			}
		}
		for j, p := range to {
			for _, mode := range []string{"file", "stream"} {
				if (i+j)%2 == 0 && mode == "file" && c.K > 2 {
					continue
				}
				d := DecryptWith(b, p, by, mode, r)
				e.R.Exec(1)
				if d.Err != nil || !bytes.Equal(d.Out, pt) || d.Auth != c.Sign {
					e.R.Violation("read", fmt.Sprintf("a file of the format (%s) is not read (%s): %v, %d bytes, authenticated %v", desc, mode, d.Err, len(d.Out), d.Auth), c)
				}
			}
		}
		if c.Order != "12345" {
			return
		}
		// 2: made by the code, read by the reference implementation
		for _, iface := range []string{"file", "stream", "file, default block size"} {
			size := c.C
			if len(iface) > 6 {
				if size != 4<<20 {
					continue
				}
				size = 0
			}
			b, err := Encrypt(size, by, to, pt, iface[:min(6, len(iface))], r)
			e.R.Exec(1)
			if err != nil {
				e.R.Violation("write-error", fmt.Sprintf("%s: %v", desc, err), c)
				continue
			}
			var ferr error
			for _, o := range other[key(c)] {
				if ferr = o.fits(b); ferr == nil {
					break
				}
			}
			if ferr != nil {
				e.R.Violation("layout", fmt.Sprintf("written by %s interface (%s): %v", iface, desc, ferr), c)
				continue
			}
			var spk ed25519.PublicKey
			if by != nil {
				spk = by.EdPK
			}
			for _, p := range to {
				in, err := ref.Decrypt(b, p.Ed, spk)
				if err != nil || !bytes.Equal(in.Plain, pt) || in.Signed != c.Sign {
					e.R.Violation("write", fmt.Sprintf("written by %s interface (%s), not read by an independent implementation: %v", iface, desc, err), c)
					break
				}
			}
			e.R.Count("layouts_checked")
		}
	})
	return nil
}

// DocCase is a file of Docs.tla.
type DocCase struct {
	Kind  string   `json:"kind"`
	Com   string   `json:"com"`
	Order []string `json:"order"`
	Quote string   `json:"quote"`
	Frame string   `json:"frame"`
}

func (c *DocCase) render(v map[string]string) string {
	q := func(f, s string) string {
		num := f == "Z" || f == "r" || f == "p"
		switch {
		case num:
			return s
		case c.Quote == "double" || s == "":
			return `"` + s + `"`
		case c.Quote == "single":
			return "'" + s + "'"
		case c.Quote == "fold":
			return ">-\n  " + s
		case c.Quote == "literal":
			return "|-\n  " + s
		}
		return s
	}
	var l []string
	for _, f := range c.Order {
		l = append(l, f+": "+q(f, v[f]))
	}
	switch c.Frame {
	case "start":
		return "---\n" + strings.Join(l, "\n") + "\n"
	case "comments":
		return "# a file\n\n" + strings.Join(l, "\n# more\n") + "\n"
	case "nonl":
		return strings.Join(l, "\n")
	case "crlf":
		return strings.ReplaceAll(strings.Join(l, "\n"), "\n", "\r\n") + "\r\n"
	case "flow":
		for i := range l {
			l[i] = strings.ReplaceAll(l[i], "\n", "")
		}
		return "{" + strings.Join(l, ", ") + "}\n"
	}
	return strings.Join(l, "\n") + "\n"
}

func cmdDocs(e *Env) error {
	cases, err := AllCases[DocCase](e.Cases)
	if err != nil {
		return err
	}
	p := detParty("docs")
	dir := e.Work
	msg := []byte("a signed file")
	must(os.WriteFile(filepath.Join(dir, "msg"), msg, 0600))
	pw := []byte("a passphrase")
	priv := ref.MakePriv(p.Ed, pw, "", 2, 8, 1)
	ck := ref.FileDigest(msg)
	b64 := base64.StdEncoding.EncodeToString
	Par(len(cases), func(i int) {
		c := cases[i]
		if e.Late() || (c.Frame == "flow" && (c.Quote == "fold" || c.Quote == "literal")) {
			return
		}
		com := map[string]string{"none": "", "empty": "", "word": "me@host", "words": "the key of me"}[c.Com]
		v := map[string]string{"comment": com}
		switch c.Kind {
		case "priv":
			v["esk"], v["salt"], v["algo"], v["Z"], v["r"], v["p"] = priv.Esk, priv.Salt, priv.Algo, "2", "8", "1"
		case "pub":
			v["pk"], v["hash"] = b64(p.EdPK), b64(ref.PKHash(p.EdPK))
		case "sig":
			v["pkhash"], v["signature"] = b64(ref.PKHash(p.EdPK)), b64(ref.SignMsg(p.Ed, ck))
		}
		t := []byte(c.render(v))
		e.R.Exec(1)
		e.R.Trace()
		e.R.Count("documents_" + c.Kind)
		err := Guard(func() error {
			switch c.Kind {
			case "priv":
				sk, err := sign.MakePrivateKey(t, func() ([]byte, error) { return pw, nil })
				if err != nil {
					return err
				}
				if !bytes.Equal(sk.Sk, p.Ed) {
					return fmt.Errorf("another key was read")
				}
			case "pub":
				pk, err := sign.MakePublicKey(t)
				if err != nil {
					return err
				}
				if !bytes.Equal(pk.Pk, p.EdPK) {
					return fmt.Errorf("read key %x", pk.Pk)
				}
			case "sig":
				f := filepath.Join(dir, fmt.Sprint(i, ".sig"))
				defer os.Remove(f)
				if err := os.WriteFile(f, t, 0600); err != nil {
					return err
				}
				s, err := sign.ReadSignature(f)
				if err != nil {
					return err
				}
				if !s.IsPKMatch(p.PK) {
					return fmt.Errorf("the key hint does not match")
				}
				ok, err := p.PK.VerifyFile(filepath.Join(dir, "msg"), s)
				if err != nil || !ok {
					return fmt.Errorf("does not verify: %v %v", ok, err)
				}
			}
			return nil
		})
		if err != nil {
			e.R.Violation("document", fmt.Sprintf("%s file %q: %v", c.Kind, t, err), c)
		}
	})
	return nil
}

// --- files made by the released version ---

// Fixture describes one of them.
type Fixture struct {
	Kind   string   `json:"kind"` // enc, sig, priv, pub
	File   string   `json:"file"`
	N      int      `json:"n"`
	C      uint64   `json:"c,omitempty"`
	To     []string `json:"to,omitempty"`
	By     string   `json:"by,omitempty"`
	Iface  string   `json:"iface,omitempty"`
	Pw     string   `json:"pw,omitempty"`
	Com    string   `json:"com,omitempty"`
	Key    string   `json:"key,omitempty"`    // hex public key of key files
	Digest string   `json:"digest,omitempty"` // of the plaintext
}

func fixBytes(name string, n int) []byte {
	var b []byte
	for i := 0; len(b) < n; i++ {
		s := sha256.Sum256([]byte(fmt.Sprint("fixture ", name, " ", i)))
		b = append(b, s[:]...)
	}
	return b[:n]
}

func fixParty(n string) *Party { return detParty("fixture party " + n) }

// cmdMkFixtures is run once, built against the released version.
func cmdMkFixtures(e *Env) error {
	dir := e.Extra["dir"]
	var all []*Fixture
	put := func(f *Fixture, b []byte) {
		must(os.WriteFile(filepath.Join(dir, f.File), b, 0644))
		all = append(all, f)
	}
	id := 0
	for _, x := range []struct {
		n int
		c uint64
	}{{0, 0}, {1, 0}, {131072, 0}, {140000, 0}, {0, 512}, {1, 1024}, {511, 512}, {512, 512}, {513, 512}, {1536, 512}, {1600, 512}, {5000, 4096}, {8192, 4096}, {40, 16}, {48, 16}, {300, 1}} {
		for _, by := range []string{"", "S"} {
			for _, iface := range []string{"file", "stream"} {
				if x.n > 100000 && (by == "") != (iface == "file") {
					continue
				}
				for _, to := range [][]string{{"A"}, {"B", "A", "C"}} {
					if len(to) > 1 && x.n > 5000 {
						continue
					}
					id++
					f := &Fixture{Kind: "enc", File: fmt.Sprintf("f%03d.enc", id), N: x.n, C: x.c, To: to, By: by, Iface: iface}
					var tp []*Party
					for _, t := range to {
						tp = append(tp, fixParty(t))
					}
					var bp *Party
					if by != "" {
						bp = fixParty(by)
					}
					b, err := Encrypt(x.c, bp, tp, fixBytes(f.File, x.n), iface, nil)
					if err != nil {
						return fmt.Errorf("%+v: %w", f, err)
					}
					put(f, b)
				}
			}
		}
	}
	for _, n := range []int{0, 1, 63, 64, 1000, 5000} {
		for _, com := range []string{"", "dir/a file.txt"} {
			id++
			f := &Fixture{Kind: "sig", File: fmt.Sprintf("f%03d.sig", id), N: n, By: "S", Com: com}
			t := filepath.Join(e.Work, "t")
			must(os.WriteFile(t, fixBytes(f.File, n), 0600))
			s, err := fixParty("S").SK.SignFile(t)
			if err != nil {
				return err
			}
			o := filepath.Join(e.Work, f.File)
			if err := s.Serialize(o, com, true); err != nil {
				return err
			}
			b, err := os.ReadFile(o)
			if err != nil {
				return err
			}
			put(f, b)
		}
	}
	for i, x := range []struct{ pw, com string }{{"", ""}, {"correct horse", "me@host"}, {"pässword", "some words: here"}} {
		k := filepath.Join(e.Work, fmt.Sprint("k", i))
		a := []string{"generate", "-c", x.com}
		var env []string
		if x.pw == "" {
			a = append(a, "--no-password")
		} else {
			a, env = append(a, "-E", "PW"), []string{"PW=" + x.pw}
		}
		c := exec.Command(e.Bin, append(a, k)...)
		c.Env = append(os.Environ(), env...)
		if o, err := c.CombinedOutput(); err != nil {
			return fmt.Errorf("generate: %v: %s", err, o)
		}
		pb, err := os.ReadFile(k + ".pub")
		if err != nil {
			return err
		}
		pk, err := sign.MakePublicKey(pb)
		if err != nil {
			return err
		}
		kb, err := os.ReadFile(k + ".key")
		if err != nil {
			return err
		}
		put(&Fixture{Kind: "priv", File: fmt.Sprintf("k%d.key", i), Pw: x.pw, Com: x.com, Key: fmt.Sprintf("%x", pk.Pk)}, kb)
		put(&Fixture{Kind: "pub", File: fmt.Sprintf("k%d.pub", i), Com: x.com, Key: fmt.Sprintf("%x", pk.Pk)}, pb)
	}
	b, err := json.MarshalIndent(all, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "index.json"), append(b, '\n'), 0644)
}

func cmdFixtures(e *Env) error {
	dir := e.Extra["dir"]
	b, err := os.ReadFile(filepath.Join(dir, "index.json"))
	if err != nil {
		return err
	}
	var all []*Fixture
	if err := json.Unmarshal(b, &all); err != nil {
		return err
	}
	runDir := func(i int) string {
		d := filepath.Join(e.Work, fmt.Sprint("d", i))
		must(os.Mkdir(d, 0700))
		return d
	}
	Par(len(all), func(i int) {
		f := all[i]
		b, err := os.ReadFile(filepath.Join(dir, f.File))
		if err != nil {
			panic(err)
		}
		e.R.Trace()
		e.R.Count("released_" + f.Kind)
		bad := func(what string, v ...any) {
			e.R.Violation("released-"+f.Kind, fmt.Sprintf("%s, made by the released version (%+v): %s", f.File, *f, fmt.Sprintf(what, v...)), f)
		}
		switch f.Kind {
		case "enc":
			pt := fixBytes(f.File, f.N)
			var by *Party
			if f.By != "" {
				by = fixParty(f.By)
			}
			for _, t := range f.To {
				for _, mode := range []string{"file", "stream"} {
					d := DecryptWith(b, fixParty(t), by, mode, Rng(e.Seed, "fix", i))
					e.R.Exec(1)
					if d.Err != nil || !bytes.Equal(d.Out, pt) || d.Auth != (by != nil) {
						bad("%s decrypts it (%s): %v, %d bytes, sender %v", t, mode, d.Err, len(d.Out), d.Auth)
					}
				}
			}
			d := runDir(i)
			must(os.WriteFile(filepath.Join(d, "in"), b, 0600))
			p := fixParty(f.To[0])
			must(os.WriteFile(filepath.Join(d, "k.key"), ref.MakePriv(p.Ed, nil, "", 2, 1, 1).Bytes(), 0600))
			a := []string{"decrypt", "--no-password", "-o", "out"}
			if by != nil {
				must(os.WriteFile(filepath.Join(d, "s.pub"), ref.MakePub(by.EdPK, ""), 0600))
				a = append(a, "-v", "s.pub")
			}
			pr := e.Run(d, nil, nil, append(a, "k.key", "in")...)
			e.R.Exec(1)
			if o, err := os.ReadFile(filepath.Join(d, "out")); pr.Code != 0 || err != nil || !bytes.Equal(o, pt) {
				bad("sigtool %q: exit %d %s", a, pr.Code, headOf(pr.Err))
			}
		case "sig":
			d := runDir(i)
			p := fixParty(f.By)
			must(os.WriteFile(filepath.Join(d, "in"), fixBytes(f.File, f.N), 0600))
			must(os.WriteFile(filepath.Join(d, "in.sig"), b, 0600))
			must(os.WriteFile(filepath.Join(d, "s.pub"), ref.MakePub(p.EdPK, ""), 0600))
			err := Guard(func() error {
				s, err := sign.ReadSignature(filepath.Join(d, "in.sig"))
				if err != nil {
					return err
				}
				if !s.IsPKMatch(p.PK) {
					return fmt.Errorf("the key hint does not match")
				}
				ok, err := p.PK.VerifyFile(filepath.Join(d, "in"), s)
				if err != nil || !ok {
					return fmt.Errorf("does not verify: %v %v", ok, err)
				}
				return nil
			})
			e.R.Exec(2)
			if err != nil {
				bad("%v", err)
			}
			if pr := e.Run(d, nil, nil, "verify", "s.pub", "in.sig", "in"); pr.Code != 0 {
				bad("sigtool verify: exit %d %s", pr.Code, headOf(pr.Err+pr.Out))
			}
		case "priv":
			sk, err := sign.MakePrivateKey(b, func() ([]byte, error) { return []byte(f.Pw), nil })
			e.R.Exec(1)
			if err != nil {
				bad("%v", err)
			} else if fmt.Sprintf("%x", sk.PublicKey().Pk) != f.Key {
				bad("it is read as another key, %x", sk.PublicKey().Pk)
			}
		case "pub":
			pk, err := sign.MakePublicKey(b)
			e.R.Exec(1)
			if err != nil {
				bad("%v", err)
			} else if fmt.Sprintf("%x", pk.Pk) != f.Key {
				bad("it is read as key %x", pk.Pk)
			}
		}
	})
	return nil
}

// cmdFormatCli: what the program writes is read by the reference
// implementation.
func cmdFormatCli(e *Env) error {
	d := e.Work
	p, s := detParty("fcli"), detParty("fcli sender")
	w := func(n string, b []byte) { must(os.WriteFile(filepath.Join(d, n), b, 0600)) }
	w("p.pub", ref.MakePub(p.EdPK, "x"))
	w("p.ssh", []byte(ref.SSHPub(p.EdPK, "x")+"\n"))
	w("s.key", ref.MakePriv(s.Ed, nil, "", 2, 1, 1).Bytes())
	for _, x := range []struct {
		pw, com string
		arg     []string
	}{{"", "", []string{"--no-password"}}, {"a phrase", "me at home", []string{"-E", "PW"}}} {
		p := e.Run(d, nil, []string{"PW=" + x.pw}, append(append([]string{"generate", "-c", x.com}, x.arg...), "g"+x.pw)...)
		e.R.Exec(1)
		e.R.Trace()
		kb, err1 := os.ReadFile(filepath.Join(d, "g"+x.pw+".key"))
		pb, err2 := os.ReadFile(filepath.Join(d, "g"+x.pw+".pub"))
		if p.Code != 0 || err1 != nil || err2 != nil {
			e.R.Violation("generate", fmt.Sprintf("generate: exit %d %s", p.Code, headOf(p.Err)), nil)
			continue
		}
		sk, c1, err := ref.OpenPriv(kb, []byte(x.pw))
		if err != nil || c1 != x.com {
			e.R.Violation("key-format", fmt.Sprintf("a private key file is not read by an independent implementation: %v, comment %q: %s", err, c1, kb), nil)
			continue
		}
		pk, c2, err := ref.OpenPub(pb)
		if err != nil || c2 != x.com || !bytes.Equal(pk, sk.Public().(ed25519.PublicKey)) {
			e.R.Violation("key-format", fmt.Sprintf("a public key file is not read by an independent implementation: %v, comment %q: %s", err, c2, pb), nil)
		}
	}
	r := Rng(e.Seed, "fcli")
	for _, n := range []int{0, 1, 1023, 1024, 1025, 4096, 70000, 131072, 262144, 300000} {
		pt := bytesOf(r, n)
		w("in", pt)
		for _, opt := range [][]string{{}, {"-s", "s.key", "--no-password"}, {"-B", "1k"}, {"-B", "1k", "-s", "s.key", "--no-password"}, {"-B", "0"}, {"-B", "4M"}, {"-B", "64K", "-s", "s.key", "--no-password"}, {"-B", "777"}} {
			for _, rc := range []string{"p.pub", "p.ssh"} {
				a := append(append([]string{"encrypt"}, opt...), rc, "in")
				x := e.Run(d, nil, nil, a...)
				e.R.Exec(1)
				e.R.Trace()
				var by ed25519.PublicKey
				if strings.Contains(strings.Join(opt, " "), "-s") {
					by = s.EdPK
				}
				in, err := ref.Decrypt([]byte(x.Out), p.Ed, by)
				if x.Code != 0 || err != nil || !bytes.Equal(in.Plain, pt) || in.Signed != (by != nil) {
					e.R.Violation("program-format", fmt.Sprintf("sigtool %q: exit %d; an independent implementation: %v", a, x.Code, err), nil)
				}
			}
		}
		x := e.Run(d, nil, nil, "sign", "--no-password", "-o", "-", "s.key", "in")
		e.R.Exec(1)
		e.R.Trace()
		sig, hint, com, err := ref.OpenSig([]byte(x.Out))
		if x.Code != 0 || err != nil || !bytes.Equal(hint, ref.PKHash(s.EdPK)) || !ref.VerifyMsg(s.EdPK, ref.FileDigest(pt), sig) {
			e.R.Violation("signature-format", fmt.Sprintf("sigtool sign of %d bytes: exit %d; an independent implementation does not verify it (%v): %s", n, x.Code, err, x.Out), nil)
		}
		_ = com
	}
	return nil
}
