package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"verifharness/ref"
)

func init() { cmds["recip"] = cmdRecip }

// RecipCase is a behaviour of Recip.tla.
type RecipCase struct {
	Lines []string `json:"lines"`
	Args  []string `json:"args"`
	Auth  string   `json:"auth"`
	Sign  bool     `json:"sign"`
	Pad   bool     `json:"pad"`
	Times int      `json:"times"`
	Ok    bool     `json:"ok"`
	Free  bool     `json:"free"`
	Must  []string `json:"must"`
	May   []string `json:"may"`
}

type recipWorld struct {
	e *Env
	p map[string]*Party
}

func (w *recipWorld) line(k string, r *rand.Rand) string {
	mk := func(opt, key, com string) string {
		return strings.TrimRight(opt+"ssh-ed25519 "+edBlob(w.p[key].EdPK)+" "+com, " ")
	}
	switch k {
	case "a":
		return mk("", "A", "alice@host")
	case "opt":
		return mk(pick(r, "no-pty ", `command="echo \"hi\" bob@host",no-pty `, `from="*.host,10.0.0.1" `), "A", "alice@host")
	case "b":
		return mk("", "B", "bob@host")
	case "dup":
		return mk("", "X", "alice@host")
	case "user":
		return mk("", "X", "alice")
	case "more":
		return mk("", "X", "alice@host.org")
	case "short":
		return mk("", "X", "alice@hos")
	case "words":
		return mk("", "X", "alice@host laptop")
	case "word2":
		return mk("", "X", "of alice@host")
	case "case":
		return mk("", "X", "Alice@host")
	case "nocom":
		return mk("", "X", "")
	case "hash":
		return pick(r, "#", "# ", "\t# ") + mk("", "X", "alice@host")
	case "rsa":
		t, b := otherBlob(r)
		return t + " " + b + " alice@host"
	case "bad":
		return "ssh-ed25519 " + badBlob(r, w.p["X"].EdPK) + " alice@host"
	case "type":
		return pick(r, "ssh-rsa", "ssh-ed448", "ecdsa-sha2-nistp256") + " " + edBlob(w.p["X"].EdPK) + " alice@host"
	}
	panic(k)
}

func (w *recipWorld) arg(a string) string {
	switch a {
	case "alice", "bob", "carol", "Alice":
		return a + "@host"
	case "laptop":
		return "alice@host laptop"
	case "atA":
		return "@a"
	}
	return a
}

func cmdRecip(e *Env) error {
	cases, err := AllCases[RecipCase](e.Cases)
	if err != nil {
		return err
	}
	w := &recipWorld{e: e, p: map[string]*Party{}}
	for _, n := range []string{"A", "B", "C", "X", "S", "F"} {
		w.p[n] = detParty("recip " + n)
	}
	pt := bytesOf(Rng(e.Seed, "recip"), 700)
	t, rb := otherBlob(rand.New(rand.NewSource(1)))
	files := map[string][]byte{
		"natA": ref.MakePub(w.p["A"].EdPK, "alice@host"), "@a": ref.MakePub(w.p["A"].EdPK, "x"), "natC": ref.MakePub(w.p["C"].EdPK, "bob@host"), "natF": ref.MakePub(w.p["F"].EdPK, "f"),
		"sshB": []byte(ref.SSHPub(w.p["B"].EdPK, "alice@host") + "\n"), "void": {}, "junk": []byte("this is no key\n"),
		"priv": ref.MakePriv(w.p["X"].Ed, nil, "x", 2, 1, 1).Bytes(), "rsaf": []byte(t + " " + rb + " alice@host\n"),
		"s.key": ref.MakePriv(w.p["S"].Ed, nil, "s", 2, 1, 1).Bytes(), "in": pt,
	}
	for _, n := range []string{"alice@host", "bob@host", "carol@host", "Alice@host", "alice@host laptop"} {
		files[n] = ref.MakePub(w.p["X"].EdPK, n)
	}
	n := runtime.NumCPU()
	errs := make([]error, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			dir := filepath.Join(e.Work, fmt.Sprint("r", k))
			os.Mkdir(dir, 0700)
			for f, b := range files {
				must(os.WriteFile(filepath.Join(dir, f), b, 0600))
			}
			must(os.Mkdir(filepath.Join(dir, "dir"), 0700))
			must(os.Symlink("natC", filepath.Join(dir, "linkC")))
			for i := k; i < len(cases) && !e.Late(); i += n {
				if errs[k] = w.one(dir, cases[i], i, pt); errs[k] != nil {
					return
				}
			}
		}(k)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func (w *recipWorld) one(dir string, c *RecipCase, i int, pt []byte) error {
	r := Rng(w.e.Seed, "recip", i)
	home := filepath.Join(dir, "home")
	defer os.RemoveAll(home)
	ak := filepath.Join(home, ".ssh/authorized_keys")
	env := []string{"HOME=" + home}
	eol := pick(r, "\n", "\n", "\r\n")
	var body string
	if c.Pad {
		for j := pick2(r, 20, 70, 300, 2000); j > 0; j-- {
			body += "ssh-ed25519 " + edBlob(bytesOf(r, 32)) + fmt.Sprintf(" user%d@host", j) + eol
		}
	}
	for j, k := range c.Lines {
		body += w.line(k, r)
		if j < len(c.Lines)-1 || r.Intn(3) > 0 {
			body += eol
		}
	}
	mk := func(p string) error { return os.MkdirAll(p, 0700) }
	var err error
	switch c.Auth {
	case "there", "empty":
		if err = mk(filepath.Dir(ak)); err == nil {
			err = os.WriteFile(ak, []byte(body), 0600)
		}
	case "absent":
		if r.Intn(2) == 0 {
			err = mk(filepath.Dir(ak))
		}
	case "dir":
		err = mk(ak)
	case "nohome":
		env = []string{"HOME="}
	default:
		panic(c.Auth)
	}
	if err != nil {
		return err
	}
	toFile := r.Intn(2) == 0
	a := []string{"encrypt"}
	if toFile {
		a = append(a, "-o", "out")
	}
	if c.Sign {
		a = append(a, "-s", "s.key", "--no-password")
	}
	npad := 0
	if c.Pad {
		npad = pick2(r, 9, 17, 40, 130, 400)
		for j := 0; j < npad; j++ {
			a = append(a, "natF")
		}
	}
	for t := 0; t < c.Times; t++ {
		for _, x := range c.Args {
			a = append(a, w.arg(x))
		}
	}
	a = append(a, "in")
	p := w.e.Run(dir, nil, env, a...)
	w.e.R.Exec(1)
	w.e.R.Trace()
	var out []byte
	made := len(p.Out) > 0
	out = []byte(p.Out)
	if toFile {
		b, err := os.ReadFile(filepath.Join(dir, "out"))
		if err == nil {
			if made {
				w.e.R.Violation("both-outputs", fmt.Sprintf("sigtool %q wrote to standard output and to the file", a), c)
			}
			made, out = true, b
			os.Remove(filepath.Join(dir, "out"))
		}
	}
	desc := fmt.Sprintf("authorized_keys %s %q; sigtool %q: exit %d", c.Auth, body, a, p.Code)
	if c.Pad {
		desc = fmt.Sprintf("authorized_keys %s %q after many others; %d recipients before %q: exit %d", c.Auth, c.Lines, npad, c.Args, p.Code)
	}
	if c.Times > 1 {
		desc = fmt.Sprintf("authorized_keys %s %q; encrypting to %q, %d times over: exit %d", c.Auth, body, c.Args, c.Times, p.Code)
	}
	bad := func(key, f string, v ...any) {
		w.e.R.Violation(key, desc+": "+fmt.Sprintf(f, v...), map[string]any{"case": c, "authorized_keys": body, "stderr": headOf(p.Err)})
	}
	switch {
	case p.Code != 0:
		w.e.R.Count("failed")
		if made {
			bad("output-on-failure", "an output of %d bytes", len(out))
		}
		if c.Ok && !c.Free {
			bad("refused", "every recipient is there: %s", headOf(p.Err))
		}
		return nil
	case !c.Ok:
		bad("unresolved", "not every recipient can be resolved")
		return nil
	}
	w.e.R.Count("encrypted")
	h, _, err := ref.ParseHeader(out)
	if err != nil {
		bad("format", "the output is not an encrypted file: %v", err)
		return nil
	}
	got := map[string]bool{}
	for n, q := range w.p {
		if h.Unwrap(q.Ed) != nil {
			got[n] = true
			var snd ed25519.PublicKey
			if c.Sign {
				snd = w.p["S"].EdPK
			}
			if d, err := ref.Decrypt(out, q.Ed, snd); err != nil || !bytes.Equal(d.Plain, pt) {
				bad("content", "%s cannot decrypt it: %v", n, err)
			}
		}
	}
	may := map[string]bool{}
	for _, n := range c.May {
		may[n] = true
	}
	for _, n := range c.Must {
		if !got[n] {
			bad("left-out", "%s cannot decrypt the output (can: %v)", n, names(got))
		}
	}
	for n := range got {
		if !may[n] {
			bad("stranger", "%s can decrypt the output but was not named", n)
		}
	}
	if len(h.Keys) > len(c.Args)*c.Times+npad {
		bad("entries", "%d key entries for %d recipients", len(h.Keys), len(c.Args)*c.Times+npad)
	}
	return nil
}

func names(m map[string]bool) (v []string) {
	for k := range m {
		v = append(v, k)
	}
	sort.Strings(v)
	return
}
