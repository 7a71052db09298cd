package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	mrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/opencoff/sigtool/sign"
	"golang.org/x/crypto/ssh"
	"verifharness/ref"
)

func init() {
	cmds["sshkey"] = cmdSSHKey
	cmds["sshpub"] = cmdSSHPub
	cmds["keyforms"] = cmdKeyForms
	cmds["sshkeygen"] = cmdSSHKeygen
}

// HCase is a behaviour of SshKey.tla.
type HCase struct {
	Made []string    `json:"made"`
	Com  string      `json:"com"`
	Devs [][2]string `json:"devs"`
	Pass string      `json:"pass"`
	Want string      `json:"want"`
}

func sshCom(c string, r *mrand.Rand) string {
	switch c {
	case "none":
		return ""
	case "word":
		return "user@host"
	case "words":
		return "my other key  (old)"
	case "uni":
		return "schlüssel"
	case "long":
		// all of one length modulo the block sizes, which leaves padding
		return strings.Repeat("long comment ", pick2(r, 40, 88, 392, 1496, 5496)) + "."
	case "pad0": // the private section ends on a block boundary: 4+4+15+36+68+4 = 131
		return strings.Repeat("x", 13)
	}
	panic(c)
}

// sshText builds the container of a case.
func sshText(c *HCase, p *Party, pw []byte, r *mrand.Rand) []byte {
	s := ref.DefSSH(p.Ed, sshCom(c.Com, r))
	if c.Com == "word" {
		s.Comment = "user@host"
	}
	s.KDF, s.Cipher = c.Made[0], c.Made[1]
	s.Made = s.Cipher
	s.Pass, s.Rounds = pw, 1
	salt := bytesOf(r, 16)
	s.Salt = salt
	post := func(b []byte) []byte { return b }
	opts := func(b []byte) { s.SetOpts, s.KdfOpts = true, b }
	good := binary.BigEndian.AppendUint32(append([]byte{0, 0, 0, 16}, salt...), 1)
	if s.KDF == "bcrypt" {
		opts(good)
	}
	for _, d := range c.Devs {
		v := d[1]
		if v == "empty" && (d[0] == "kdf" || d[0] == "cipher" || d[0] == "ktype") {
			v = ""
		}
		switch d[0] {
		case "pem":
			switch v {
			case "type":
				s.PEMType = pick(r, "RSA PRIVATE KEY", "EC PRIVATE KEY", "OPENSSH PRIVATE KEYS", "OPENSSH PRIVATE KEY-X")
			case "legacy":
				s.Hdr = map[string]string{"Proc-Type": "4,ENCRYPTED", "DEK-Info": "AES-128-CBC,00112233445566778899AABBCCDDEEFF"}
			case "cut":
				post = func(b []byte) []byte { return b[:bytes.Index(b, []byte("-----END"))] }
			case "nob64":
				post = func(b []byte) []byte { b[60] = '%'; return b }
			case "crlf":
				post = func(b []byte) []byte { return bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n")) }
			}
		case "magic":
			s.Magic = map[string]string{"version": "openssh-key-v2\x00", "cut": "openssh-key-v1"}[v]
		case "kdf":
			s.KDF = v
		case "cipher":
			s.Cipher = v
		case "opts":
			switch v {
			case "empty":
				opts(nil)
			case "nosalt":
				opts(binary.BigEndian.AppendUint32([]byte{0, 0, 0, 0}, 1))
			case "rounds0":
				opts(binary.BigEndian.AppendUint32(append([]byte{0, 0, 0, 16}, salt...), 0))
			case "short":
				opts(good[:len(good)-1-r.Intn(8)])
			case "trail":
				opts(append(good, 0))
			default:
				var n int
				if _, err := fmt.Sscanf(v, "salt%d", &n); err == nil {
					s.Salt = bytesOf(r, n)
				} else if _, err := fmt.Sscanf(v, "rounds%d", &n); err == nil {
					s.Rounds = uint32(n)
				} else {
					panic(v)
				}
				opts(append(binary.BigEndian.AppendUint32(nil, uint32(len(s.Salt))), binary.BigEndian.AppendUint32(append([]byte(nil), s.Salt...), s.Rounds)...))
			}
		case "nkeys":
			s.NumKeys = map[string]uint32{"0": 0, "2": 2, "max": 1<<32 - 1}[v]
		case "check":
			s.Check2 = map[string]uint32{"ne": 0x80000000, "ne1": 1}[v]
		case "ktype":
			s.KeyType = v
		case "priv":
			switch v {
			case "0":
				s.NoPriv = true
			default:
				fmt.Sscan(v, &s.PrivLen)
			}
		case "pad":
			s.Pad = v
		case "block":
			switch v {
			case "cut1":
				s.CutBlock = 1
			case "cutBs":
				s.CutBlock = 16
			case "empty":
				s.CutBlock = 1 << 20
			case "ext1":
				s.Ext = 1
			}
		case "all":
			switch v {
			case "half":
				s.CutAll = 100 + r.Intn(60)
			case "hdr":
				s.CutAll = 20 + r.Intn(20)
			case "trail":
				s.Trail = []byte{0}
			}
		}
	}
	return post(s.Bytes())
}

func cmdSSHKey(e *Env) error {
	cases, err := AllCases[HCase](e.Cases)
	if err != nil {
		return err
	}
	p := NewParty("ssh")
	pw := []byte("pass phrase")
	words := [][]byte{pw, []byte("x"), []byte(strings.Repeat("0123456789", 8)), []byte(strings.Repeat("very long ", 30)), []byte(" sp\tace "), []byte("nul\x00in\x00"), []byte("p\xe4ss\xff"), []byte("pässwörd")}
	Par(len(cases), func(i int) {
		if i%64 == 0 && e.Late() {
			e.R.Count("skipped_out_of_time")
			return
		}
		c := cases[i]
		r := Rng(e.Seed, "sshkey", i)
		pw := words[r.Intn(len(words))]
		text := sshText(c, p, pw, r)
		calls := 0
		given := map[string][]byte{"right": pw, "wrong": []byte("wrong"), "empty": {}, "prefix": pw[:len(pw)-1], "nl": append(append([]byte(nil), pw...), '\n')}[c.Pass]
		cb := func() ([]byte, error) { calls++; return given, nil }
		switch c.Pass {
		case "nocb":
			cb = nil
		case "cberr":
			cb = func() ([]byte, error) { return nil, errors.New("no passphrase today") }
		}
		desc := fmt.Sprintf("OpenSSH key %v, comment %s, deviations %v, passphrase %q, callback %s", c.Made, c.Com, c.Devs, pw, c.Pass)
		var sk *sign.PrivateKey
		err := Guard(func() error {
			var err error
			if i%2 == 0 {
				sk, err = sign.MakePrivateKey(text, cb)
			} else {
				sk = NewParty("used").SK
				err = sk.UnmarshalBinary(text, cb)
			}
			return err
		})
		e.R.Exec(1)
		e.R.Trace()
		e.R.Count("ssh_" + c.Want)
		rep := map[string]any{"key": string(text)}
		switch {
		case IsPanic(err):
			e.R.Violation("panic", desc+": "+err.Error(), rep)
		case err == nil && c.Want == "err":
			e.R.Violation("accepted", desc+": was accepted", rep)
		case err != nil && c.Want == "key":
			e.R.Violation("refused", desc+": "+err.Error(), rep)
		case err == nil:
			if err := sameKey(sk, p); err != nil {
				e.R.Violation("other", desc+": "+err.Error(), rep)
			}
		}
		if i%4001 == 0 {
			e.R.Sample(map[string]any{"case": c})
		}
	})
	// every bit of an unencrypted and of an encrypted container; whatever is
	// read must be the key itself
	for _, m := range [][]string{{"none", "none"}, {"bcrypt", "aes256-ctr"}, {"bcrypt", "aes256-cbc"}} {
		c := &HCase{Made: m, Com: "words", Pass: "right"}
		blk, _ := pem.Decode(sshText(c, p, pw, Rng(e.Seed, "flips")))
		priv := p.Ed[:32]
		Par(len(blk.Bytes)*8, func(i int) {
			b := append([]byte(nil), blk.Bytes...)
			b[i/8] ^= 1 << (i % 8)
			if n := len(b); m[0] == "bcrypt" && i/8 >= 15+14+10+4 && i/8 < 15+14+10+32 {
				return // the number of rounds: may take for ever
			} else if n == 0 {
				return
			}
			text := pem.EncodeToMemory(&pem.Block{Type: "OPENSSH PRIVATE KEY", Bytes: b})
			var sk *sign.PrivateKey
			err := Guard(func() error {
				var err error
				sk, err = sign.MakePrivateKey(text, func() ([]byte, error) { return pw, nil })
				return err
			})
			e.R.Exec(1)
			e.R.Count("ssh_bit_flips")
			if IsPanic(err) || (err == nil && sk == nil) {
				e.R.Violation("panic/flip", fmt.Sprintf("%v with bit %d flipped: %v", m, i, err), map[string]any{"key": string(text)})
			} else if err == nil && m[0] == "bcrypt" && !bytes.Equal(sk.Sk[:32], priv) && m[1] != "aes256-ctr" {
				e.R.Count("flips_giving_another_key") // no authentication in this format
			}
		})
	}
	return nil
}

// PCase2 is a line of SshPub.tla.
type PCase2 struct {
	L   []string `json:"l"`
	Key string   `json:"key"`
	Com []string `json:"com"`
}

func cmdSSHPub(e *Env) error {
	cases, err := AllCases[PCase2](e.Cases)
	if err != nil {
		return err
	}
	w := &authWorld{pk: map[string][]byte{}}
	ps := Parties("K", "L")
	for n, p := range ps {
		w.pk[n] = p.EdPK
	}
	Par(len(cases), func(i int) {
		if i%64 == 0 && e.Late() {
			e.R.Count("skipped_out_of_time")
			return
		}
		c := cases[i]
		r := Rng(e.Seed, "sshpub", i)
		var b strings.Builder
		var off []int
		for _, t := range c.L {
			off = append(off, b.Len())
			switch t {
			case "nl":
				b.WriteString("\n")
			case "crlf":
				b.WriteString("\r\n")
			default:
				b.WriteString(w.tok(t, r, nil))
			}
		}
		text := b.String()
		com := ""
		if n := len(c.Com); n > 0 {
			end := len(c.L)
			for end > 0 && (c.L[end-1] == "sp" || c.L[end-1] == "nl" || c.L[end-1] == "crlf") {
				end--
			}
			com = strings.TrimSpace(text[off[end-n]:])
		}
		var pk *sign.PublicKey
		err := Guard(func() error {
			var err error
			switch i % 3 {
			case 0:
				pk, err = sign.MakePublicKey([]byte(text))
			case 1:
				fn := filepath.Join(e.Work, fmt.Sprint("pub", i))
				defer os.Remove(fn)
				if err = os.WriteFile(fn, []byte(text), 0600); err == nil {
					pk, err = sign.ReadPublicKey(fn)
				}
			default:
				pk = &sign.PublicKey{}
				*pk = *NewParty("used").PK
				err = pk.UnmarshalBinary([]byte(text))
			}
			return err
		})
		e.R.Exec(1)
		e.R.Trace()
		e.R.Count("pub_" + c.Key)
		rep := map[string]any{"text": text}
		desc := fmt.Sprintf("public key %q (%v)", text, c.L)
		switch {
		case IsPanic(err):
			e.R.Violation("panic/pub", desc+": "+err.Error(), rep)
		case c.Key == "any":
		case c.Key == "none" && err == nil:
			e.R.Violation("pub/accepted", desc+": was accepted", rep)
		case c.Key != "none" && err != nil:
			e.R.Violation("pub/refused", desc+": "+err.Error(), rep)
		case c.Key != "none":
			if err := samePub(pk, ps[c.Key]); err != nil {
				e.R.Violation("pub/other", desc+": "+err.Error(), rep)
			} else if pk.Comment != com {
				e.R.Violation("pub/comment", fmt.Sprintf("%s: comment %q, want %q", desc, pk.Comment, com), rep)
			}
		}
		if i%2003 == 0 {
			e.R.Sample(map[string]any{"text": text, "key": c.Key})
		}
	})
	return nil
}

// FCase is a behaviour of KeyForms.tla.
type FCase struct {
	K   string `json:"k"`
	F   string `json:"f"`
	K2  string `json:"k2"`
	F2  string `json:"f2"`
	Use string `json:"use"`
	Ok  bool   `json:"ok"`
}

func privForm(p *Party, f string) (text, pw []byte) {
	s := ref.DefSSH(p.Ed, "a b")
	s.Pass, s.Rounds = []byte("pw"), 1
	switch f {
	case "native":
		return ref.MakePriv(p.Ed, nil, "", 2, 1, 1).Bytes(), nil
	case "native-pw":
		return ref.MakePriv(p.Ed, []byte("pw"), "c", 2, 1, 1).Bytes(), []byte("pw")
	case "ssh":
		return s.Bytes(), nil
	case "ssh-ctr":
		s.KDF, s.Cipher = "bcrypt", "aes256-ctr"
		return s.Bytes(), s.Pass
	case "ssh-cbc":
		s.KDF, s.Cipher = "bcrypt", "aes256-cbc"
		return s.Bytes(), s.Pass
	}
	panic(f)
}

func pubForm(p *Party, f string) (*sign.PublicKey, error) {
	switch f {
	case "native":
		return sign.MakePublicKey(ref.MakePub(p.EdPK, "c"))
	case "ssh":
		return sign.MakePublicKey([]byte(ref.SSHPub(p.EdPK, "") + "\n"))
	case "ssh-com":
		return sign.MakePublicKey([]byte(ref.SSHPub(p.EdPK, "two words") + "\n"))
	case "auth":
		v, err := sign.ParseAuthorizedKeys([]byte("no-pty " + ref.SSHPub(p.EdPK, "u@h") + "\n"))
		if err == nil && len(v) != 1 {
			err = fmt.Errorf("%d keys", len(v))
		}
		if err != nil {
			return nil, err
		}
		return v[0], nil
	case "str":
		return sign.MakePublicKeyFromString(ref.B64(p.EdPK))
	case "str-ssh":
		return sign.MakePublicKeyFromString(edBlob(p.EdPK))
	case "derived":
		text, pw := privForm(p, "ssh-ctr")
		sk, err := sign.MakePrivateKey(text, func() ([]byte, error) { return pw, nil })
		if err != nil {
			return nil, err
		}
		return sk.PublicKey(), nil
	}
	panic(f)
}

// stringKeys: what is almost a key written as a string is no key.
func stringKeys(e *Env, p *Party) {
	for form, s := range map[string]string{"native": ref.B64(p.EdPK), "ssh": edBlob(p.EdPK)} {
		try := func(what, x string) {
			var pk *sign.PublicKey
			err := Guard(func() (err error) { pk, err = sign.MakePublicKeyFromString(x); return })
			e.R.Exec(1)
			if IsPanic(err) {
				e.R.Violation("string/panic", fmt.Sprintf("the %s key string %q: %v", form, x, err), nil)
			} else if err == nil {
				got := "nothing"
				if pk != nil {
					got = fmt.Sprintf("%x", pk.Pk)
				}
				e.R.Violation("string/accepted", fmt.Sprintf("the %s key string %s: %q gives %s", form, what, x, got), nil)
			}
		}
		raw, _ := base64.StdEncoding.DecodeString(s)
		for _, j := range []string{"A", "=", "AAAA", "====", " ", " x", "x", "*", "!comment", s, " " + s, "," + s, "\x00"} {
			try("with something after it", s+j)
			try("with something before it", j+s)
		}
		for i := range s {
			try("without one character", s[:i]+s[i+1:])
			try("cut", s[:i])
			try("with a strange character", s[:i]+"*"+s[i+1:])
		}
		for i := range raw {
			if i != 32 { // any 32 bytes are a native key
				try("of fewer bytes", ref.B64(raw[:i]))
			}
			try("of more bytes", ref.B64(append(bytes.Clone(raw), raw[:i+1]...)))
		}
		e.R.Trace()
	}
}

func cmdKeyForms(e *Env) error {
	cases, err := AllCases[FCase](e.Cases)
	if err != nil {
		return err
	}
	p := Parties("A", "B")
	other := NewParty("other")
	stringKeys(e, p["A"])
	Par(len(cases), func(i int) {
		c := cases[i]
		desc := fmt.Sprintf("%s with key %s (%s) and public key %s (%s)", c.Use, c.K, c.F, c.K2, c.F2)
		var got bool
		err := Guard(func() error {
			text, pw := privForm(p[c.K], c.F)
			sk, err := sign.MakePrivateKey(text, func() ([]byte, error) { return pw, nil })
			if err != nil {
				return fmt.Errorf("private key: %w", err)
			}
			pk, err := pubForm(p[c.K2], c.F2)
			if err != nil {
				return fmt.Errorf("public key: %w", err)
			}
			msg := []byte("some content")
			enc := func(from *sign.PrivateKey, to *sign.PublicKey) ([]byte, error) {
				x, err := sign.NewEncryptor(from, 16)
				if err != nil {
					return nil, err
				}
				if err = x.AddRecipient(to); err != nil {
					return nil, err
				}
				var out Sink
				err = x.Encrypt(bytes.NewReader(msg), &out)
				return out.Bytes(), err
			}
			dec := func(b []byte, sk *sign.PrivateKey, from *sign.PublicKey) bool {
				d, err := sign.NewDecryptor(bytes.NewReader(b))
				if err != nil {
					return false
				}
				if err = d.SetPrivateKey(sk, from); err != nil {
					return false
				}
				var out bytes.Buffer
				return d.Decrypt(&out) == nil && bytes.Equal(out.Bytes(), msg)
			}
			switch c.Use {
			case "sign":
				s, err := sk.SignMessage(msg, "")
				if err != nil {
					return err
				}
				ok := pk.VerifyMessage(msg, s)
				got = ok && s.IsPKMatch(pk)
				if ok != s.IsPKMatch(pk) {
					return errors.New("signature and hint disagree")
				}
			case "encrypt":
				b, err := enc(nil, pk)
				if err != nil {
					return err
				}
				got = dec(b, sk, nil)
			case "sender":
				b, err := enc(sk, other.PK)
				if err != nil {
					return err
				}
				got = dec(b, other.SK, pk)
			}
			return nil
		})
		e.R.Exec(1)
		e.R.Trace()
		e.R.Count("forms_" + c.Use)
		if err != nil {
			e.R.Violation("forms/"+c.F+"/"+c.F2, desc+": "+err.Error(), nil)
		} else if got != c.Ok {
			e.R.Violation("forms/"+c.F+"/"+c.F2, fmt.Sprintf("%s: works: %v, want %v", desc, got, c.Ok), nil)
		}
	})
	return nil
}

// cmdSSHKeygen reads keys made by OpenSSH itself, and by golang.org/x/crypto.
func cmdSSHKeygen(e *Env) error {
	keygen, err := exec.LookPath("ssh-keygen")
	if err != nil {
		e.R.Note("ssh-keygen is not here; its keys were not tried")
	}
	type job struct {
		typ, cipher, com, pw string
		rounds               string
	}
	var jobs []job
	coms := []string{"", "user@host", "two words", "schlüssel an der wand", strings.Repeat("z", 200)}
	if e.Thorough() {
		for n := 1; n < 40; n++ {
			coms = append(coms, strings.Repeat("p", n))
		}
	}
	for _, com := range coms {
		jobs = append(jobs, job{"ed25519", "", com, "", ""})
		for _, ci := range []string{"aes256-ctr", "aes256-cbc"} {
			for _, pw := range []string{"secret", "two words, 日本", strings.Repeat("l", 100)} {
				if !e.Thorough() && pw != "secret" && com != "two words" {
					continue
				}
				rounds := pick(Rng(e.Seed, com, ci, pw), "1", "2", "16")
				if com == "two words" { // more than ssh-keygen's default
					rounds = map[string]string{"secret": "33", "two words, 日本": "100"}[pw]
					if rounds == "" {
						rounds = "24"
					}
				}
				jobs = append(jobs, job{"ed25519", ci, com, pw, rounds})
			}
		}
	}
	bad := []job{{"rsa", "", "r", "", ""}, {"ecdsa", "", "e", "", ""}, {"rsa", "aes256-ctr", "r", "secret", "1"}, {"ecdsa", "aes256-cbc", "e", "secret", "1"}}
	for _, ci := range []string{"aes128-ctr", "aes192-cbc", "aes256-gcm@openssh.com", "chacha20-poly1305@openssh.com"} {
		bad = append(bad, job{"ed25519", ci, "x", "secret", "1"})
	}
	all := append(append([]job(nil), jobs...), bad...)
	Par(len(all), func(i int) {
		j := all[i]
		if keygen == "" {
			return
		}
		dir := filepath.Join(e.Work, fmt.Sprint("kg", i))
		os.Mkdir(dir, 0700)
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "id")
		arg := []string{"-q", "-t", j.typ, "-C", j.com, "-N", j.pw, "-f", fn}
		if j.typ == "rsa" {
			arg = append(arg, "-b", "2048")
		}
		if j.cipher != "" {
			arg = append(arg, "-Z", j.cipher, "-a", j.rounds)
		}
		cmd := exec.Command(keygen, arg...)
		cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
		if out, err := cmd.CombinedOutput(); err != nil {
			e.R.Note("ssh-keygen -t %s -Z %s: %s", j.typ, j.cipher, strings.TrimSpace(string(out)))
			return
		}
		text, _ := os.ReadFile(fn)
		pub, _ := os.ReadFile(fn + ".pub")
		desc := fmt.Sprintf("ssh-keygen -t %s -Z %q -C %q -N %q", j.typ, j.cipher, j.com, j.pw)
		var sk *sign.PrivateKey
		var pk *sign.PublicKey
		err1 := Guard(func() error {
			var err error
			sk, err = sign.ReadPrivateKey(fn, func() ([]byte, error) { return []byte(j.pw), nil })
			return err
		})
		err2 := Guard(func() error { var err error; pk, err = sign.ReadPublicKey(fn + ".pub"); return err })
		e.R.Exec(2)
		rep := map[string]any{"priv": string(text), "pub": string(pub)}
		if IsPanic(err1) || IsPanic(err2) {
			e.R.Violation("keygen/panic", fmt.Sprintf("%s: %v; %v", desc, err1, err2), rep)
			return
		}
		if i >= len(jobs) {
			e.R.Count("openssh_other")
			if err1 == nil {
				e.R.Violation("keygen/accepted", desc+": the private key was accepted", rep)
			}
			if err2 == nil && j.typ != "ed25519" {
				e.R.Violation("keygen/accepted-pub", desc+": the public key was accepted", rep)
			}
			return
		}
		e.R.Count("openssh_ed25519")
		if err1 != nil || err2 != nil || sk == nil || pk == nil {
			e.R.Violation("keygen/refused", fmt.Sprintf("%s: private: %s; public: %s", desc, errStr(err1), errStr(err2)), rep)
			return
		}
		// what OpenSSH says the public key is
		f := strings.Fields(string(pub))
		if edBlob(pk.Pk) != f[1] || !bytes.Equal(sk.PublicKey().Pk, pk.Pk) || pk.Comment != strings.TrimSpace(j.com) {
			e.R.Violation("keygen/other", fmt.Sprintf("%s: private key of %x, public key %x (%q), OpenSSH says %s", desc, sk.PublicKey().Pk, pk.Pk, pk.Comment, f[1]), rep)
		}
		// and it must be usable
		s, err := sk.SignMessage([]byte("m"), "")
		if err == nil && !pk.VerifyMessage([]byte("m"), s) {
			err = errors.New("signature does not verify")
		}
		if err != nil {
			e.R.Violation("keygen/use", desc+": "+err.Error(), rep)
		}
		if j.pw != "" {
			for _, w := range []string{"", "Secret", j.pw + " ", j.pw[:len(j.pw)-1]} {
				err := Guard(func() error {
					_, err := sign.ReadPrivateKey(fn, func() ([]byte, error) { return []byte(w), nil })
					return err
				})
				e.R.Exec(1)
				if err == nil || IsPanic(err) {
					e.R.Violation("keygen/wrong", fmt.Sprintf("%s: with passphrase %q: %s", desc, w, errStr(err)), rep)
				}
			}
		}
	})
	// golang.org/x/crypto/ssh as another writer
	for i := 0; i < 12; i++ {
		p := NewParty("go")
		com := strings.Repeat("c", i)
		var blk *pem.Block
		var err error
		pw := []byte(nil)
		if i%3 == 0 {
			pw = []byte("x y")
			blk, err = ssh.MarshalPrivateKeyWithPassphrase(p.Ed, com, pw)
		} else {
			blk, err = ssh.MarshalPrivateKey(p.Ed, com)
		}
		if err != nil {
			return err
		}
		var sk *sign.PrivateKey
		err = Guard(func() error {
			var err error
			sk, err = sign.MakePrivateKey(pem.EncodeToMemory(blk), func() ([]byte, error) { return pw, nil })
			return err
		})
		if err == nil {
			err = sameKey(sk, p)
		}
		e.R.Exec(1)
		e.R.Count("xcrypto_keys")
		if err != nil {
			e.R.Violation("xcrypto", fmt.Sprintf("key written by x/crypto/ssh (passphrase %q): %v", pw, err), map[string]any{"key": string(pem.EncodeToMemory(blk))})
		}
	}
	rk, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		return err
	}
	ek, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return err
	}
	for n, k := range map[string]any{"rsa": rk, "ecdsa": ek} {
		blk, err := ssh.MarshalPrivateKey(k, "c")
		if err != nil {
			return err
		}
		err = Guard(func() error { _, err := sign.MakePrivateKey(pem.EncodeToMemory(blk), nil); return err })
		if err == nil || IsPanic(err) {
			e.R.Violation("xcrypto/"+n, fmt.Sprintf("%s key written by x/crypto/ssh: %s", n, errStr(err)), nil)
		}
	}
	return nil
}
