package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"github.com/opencoff/sigtool/sign"
	"verifharness/ref"
)

func init() { cmds["clispell"] = cmdCliSpell }

// SpellCase is a command line of Spell.tla.
type SpellCase struct {
	Cmd   string   `json:"cmd"`
	Bad   string   `json:"bad"`
	Opts  []string `json:"opts"`
	Extra bool     `json:"extra"`
	Line  []string `json:"line"`
}

func (c *SpellCase) has(o string) bool {
	for _, x := range c.Opts {
		if x == o {
			return true
		}
	}
	return false
}

func cmdCliSpell(e *Env) error {
	cases, err := AllCases[SpellCase](e.Cases)
	if err != nil {
		return err
	}
	p := Parties("r1", "S", "x")
	pt := bytesOf(Rng(e.Seed, "spell"), 2500)
	files := map[string][]byte{"file": pt, "altered": append([]byte{pt[0] ^ 1}, pt[1:]...), "junk": []byte("%: {[\n"),
		"r.key": ref.MakePriv(p["r1"].Ed, nil, "r", 2, 1, 1).Bytes(), "x.key": ref.MakePriv(p["x"].Ed, nil, "x", 2, 1, 1).Bytes(),
		"s.key": ref.MakePriv(p["S"].Ed, nil, "s", 2, 1, 1).Bytes(), "r.pub": ref.MakePub(p["r1"].EdPK, "r"),
		"x.pub": ref.MakePub(p["x"].EdPK, "x"), "s.pub": ref.MakePub(p["S"].EdPK, "s")}
	base := filepath.Join(e.Work, "base")
	if err := os.MkdirAll(base, 0755); err != nil {
		return err
	}
	for n, b := range files {
		if err := os.WriteFile(filepath.Join(base, n), b, 0600); err != nil {
			return err
		}
	}
	for n, fn := range map[string]string{"good.sig": "file", "other.sig": "altered"} {
		s, err := p["r1"].SK.SignFile(filepath.Join(base, fn))
		if err == nil {
			files[n], err = s.MarshalBinary("c")
		}
		if err != nil {
			return err
		}
	}
	for n, s := range map[string]*Party{"plain.enc": nil, "signed.enc": p["S"]} {
		if files[n], err = Encrypt(1024, s, []*Party{p["r1"], p["S"]}, pt, "file", nil); err != nil {
			return err
		}
		b := append([]byte(nil), files[n]...)
		b[len(b)-700] ^= 1
		files["tampered-"+n] = b
		files["truncated-"+n] = files[n][:len(files[n])-100]
	}
	var wg sync.WaitGroup
	n := runtime.NumCPU()
	for k := 0; k < n; k++ {
		dir := filepath.Join(e.Work, fmt.Sprint("p", k))
		if err := os.Mkdir(dir, 0700); err != nil {
			return err
		}
		for n, b := range files {
			if err := os.WriteFile(filepath.Join(dir, n), b, 0600); err != nil {
				return err
			}
		}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < len(cases) && !e.Late(); i += n {
				cases[i].run(e, p, pt, dir)
			}
		}(k)
	}
	wg.Wait()
	return nil
}

func (c *SpellCase) run(e *Env, p map[string]*Party, pt []byte, dir string) {
	name := map[string]string{"PK": "r.pub", "KEY": "r.key", "FILE": "file", "SIG": "good.sig", "OUT": "out", "SENDER": "s.key", "SENDERPK": "s.pub", "BLOCK": "1k", "EXTRA": "x.pub"}
	if c.Cmd == "decrypt" {
		enc := "plain.enc"
		if c.has("v") {
			enc = "signed.enc"
		}
		if c.Bad == "tampered" || c.Bad == "truncated" {
			enc = c.Bad + "-" + enc
		}
		name["FILE"] = enc
	}
	switch c.Bad {
	case "altered":
		name["FILE"] = "altered"
	case "wrongkey":
		name["PK"], name["KEY"] = "x.pub", "x.key"
	case "nosig":
		name["SIG"] = "missing"
	case "othersig":
		name["SIG"] = "other.sig"
	case "nofile":
		name["FILE"] = "missing"
	case "badkey":
		name["KEY"] = "junk"
	case "norcpt":
		name["PK"] = "missing"
	case "badsender":
		name["SENDER"] = "junk"
	case "wrongsender":
		name["SENDERPK"] = "x.pub"
	case "nodir":
		name["OUT"] = "nodir/out"
	}
	arg := make([]string, len(c.Line))
	for i, t := range c.Line {
		arg[i] = t
		// the longer names first: SENDERPK before SENDER and PK
		for _, n := range []string{"SENDERPK", "SENDER", "BLOCK", "EXTRA", "FILE", "KEY", "SIG", "OUT", "PK"} {
			if i > 0 && strings.HasSuffix(t, n) {
				arg[i] = strings.TrimSuffix(t, n) + name[n]
				break
			}
		}
	}
	out := filepath.Join(dir, "out")
	sigfn := filepath.Join(dir, name["FILE"]+".sig")
	os.Remove(out)
	os.Remove(sigfn)
	r := e.Run(dir, nil, nil, arg...)
	e.R.Exec(1)
	e.R.Trace()
	what := fmt.Sprintf("sigtool %s (%s): exit %d %s", strings.Join(arg, " "), c.Bad, r.Code, headOf(r.Err))
	if r.Killed || r.Crash || r.Code >= 128 {
		e.R.Violation("spelling-crash/"+c.Cmd, what, c)
		return
	}
	if c.Bad != "none" {
		if r.Code == 0 {
			e.R.Violation("spelling-zero/"+c.Cmd+"/"+c.Bad, what, c)
		}
		return
	}
	if c.Extra { // what one argument too many means is not judged
		return
	}
	if r.Code != 0 {
		e.R.Violation("spelling-fails/"+c.Cmd, what, c)
		return
	}
	got := []byte(r.Out)
	if c.has("o") {
		got, _ = os.ReadFile(out)
	}
	bad := ""
	switch c.Cmd {
	case "sign":
		if !c.has("o") {
			out = sigfn
		}
		s, err := sign.ReadSignature(out)
		ok := false
		if err == nil {
			ok, err = p["r1"].PK.VerifyFile(filepath.Join(dir, "file"), s)
		}
		if !ok {
			bad = fmt.Sprintf("the signature does not verify (%v)", err)
		}
	case "encrypt":
		d, err := sign.NewDecryptor(bytes.NewReader(got))
		var spk *sign.PublicKey
		if c.has("s") {
			spk = p["S"].PK
		}
		if err == nil {
			err = d.SetPrivateKey(p["r1"].SK, spk)
		}
		var w bytes.Buffer
		if err == nil {
			err = d.Decrypt(&w)
		}
		if err != nil || !bytes.Equal(w.Bytes(), pt) {
			bad = fmt.Sprintf("the output does not decrypt (%v)", err)
		} else if d.AuthenticatedSender() != c.has("s") {
			bad = "the sender is in the output, or not, against what was asked for"
		} else if c.has("B") && d.ChunkSize != 1024 {
			bad = fmt.Sprintf("the block size is %d", d.ChunkSize)
		}
	case "decrypt":
		if c.has("t") {
			if _, err := os.Lstat(out); err == nil || bytes.Contains([]byte(r.Out), pt[:100]) {
				bad = "-t wrote output"
			}
		} else if !bytes.Equal(got, pt) {
			bad = fmt.Sprintf("%d bytes of output are not the plaintext", len(got))
		}
	}
	if bad != "" {
		e.R.Violation("spelling-means/"+c.Cmd, what+": "+bad, c)
	}
}
