package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"

	"github.com/opencoff/sigtool/sign"
	"verifharness/ref"
)

func init() {
	cmds["authline"] = cmdAuthLine
	cmds["authfile"] = cmdAuthFile
}

type ALine struct {
	L   []string `json:"l"`
	Key string   `json:"key"`
	Com []string `json:"com"`
}

type AFile struct {
	Ls    []string `json:"ls"`
	Eol   string   `json:"eol"`
	Final bool     `json:"final"`
	Keys  []int    `json:"keys"`
}

func edBlob(pk []byte) string { return ref.B64(ref.SSHBlob("ssh-ed25519", pk)) }

func pick(r *rand.Rand, v ...string) string { return v[r.Intn(len(v))] }

// otherBlob is a well formed key of another type.
func otherBlob(r *rand.Rand) (typ, blob string) {
	mp := func(n int) []byte { b := bytesOf(r, n); b[0] = 0x55; return b }
	switch r.Intn(5) {
	case 0:
		return "ssh-rsa", ref.B64(ref.SSHBlob("ssh-rsa", []byte{1, 0, 1}, mp(257)))
	case 1:
		return "ecdsa-sha2-nistp256", ref.B64(ref.SSHBlob("ecdsa-sha2-nistp256", []byte("nistp256"), mp(65)))
	case 2:
		return "sk-ssh-ed25519@openssh.com", ref.B64(ref.SSHBlob("sk-ssh-ed25519@openssh.com", mp(32), []byte("ssh:")))
	case 3:
		return "ssh-dss", ref.B64(ref.SSHBlob("ssh-dss", mp(129), mp(21), mp(128), mp(128)))
	}
	return "ssh-ed25519-cert-v01@openssh.com", ref.B64(ref.SSHBlob("ssh-ed25519-cert-v01@openssh.com", mp(32), mp(32)))
}

// badBlob is a malformed Ed25519 key.
func badBlob(r *rand.Rand, pk []byte) string {
	good := ref.SSHBlob("ssh-ed25519", pk)
	switch r.Intn(12) {
	case 0:
		return ref.B64(good[:len(good)-1])
	case 1:
		return ref.B64(append(bytes.Clone(good), 0))
	case 2:
		return ref.B64(ref.SSHBlob("ssh-ed25519", pk[:31]))
	case 3:
		return ref.B64(ref.SSHBlob("ssh-ed25519", append(bytes.Clone(pk), 7)))
	case 4:
		return ref.B64(ref.SSHBlob("ssh-ed25519", pk, []byte("x")))
	case 5:
		return ref.B64(ref.SSHBlob("ssh-ed25519"))
	case 6:
		return "AAAA"
	case 7:
		s := ref.B64(good)
		return s[:len(s)/2] + "*" + s[len(s)/2:]
	case 8:
		b := bytes.Clone(good)
		binary.BigEndian.PutUint32(b[15:], 0xffffffff)
		return ref.B64(b)
	case 9:
		b := bytes.Clone(good)
		binary.BigEndian.PutUint32(b, 0x7fffffff)
		return ref.B64(b)
	case 10:
		s := ref.B64(good)
		return s[:len(s)-3]
	}
	return ref.B64(bytesOf(r, 2))
}

type authWorld struct {
	pk map[string][]byte
}

func (w *authWorld) tok(t string, r *rand.Rand, x map[string]string) string {
	switch t {
	case "sp":
		return strings.Repeat(pick(r, " ", "\t"), 1+r.Intn(2))
	case "ed":
		return "ssh-ed25519"
	case "rsa":
		return pick(r, "ssh-rsa", "ecdsa-sha2-nistp256", "ssh-ed448", "ssh-ed25519x", "SSH-ED25519", "ssh-ed2551")
	case "K", "L":
		return edBlob(w.pk[t])
	case "X":
		return badBlob(r, w.pk["K"])
	case "R":
		_, b := otherBlob(r)
		return b
	case "w":
		return pick(r, "user@host", "no-pty", "from=1.2.3.4", "Zoë", "x", "command=ls", "a@b", "ssh-", "1", "=", "\\n")
	case "q":
		return `"`
	case "e":
		return `\"`
	case "b":
		return `\`
	case "c":
		return ","
	case "h":
		return "#"
	}
	panic(t)
}

func showKeys(v []*sign.PublicKey) string {
	var s []string
	for _, k := range v {
		if k == nil {
			s = append(s, "nil")
			continue
		}
		s = append(s, fmt.Sprintf("%.12x(%q)", k.Pk, k.Comment))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func cmdAuthLine(e *Env) error {
	cases, err := AllCases[ALine](e.Cases)
	if err != nil {
		return err
	}
	w := &authWorld{pk: map[string][]byte{"K": ref.Rand(32), "L": ref.Rand(32)}}
	w.pk["K"] = NewParty("K").EdPK
	w.pk["L"] = NewParty("L").EdPK
	around := fmt.Sprintf("ssh-ed25519 %s before\n", edBlob(NewParty("b").EdPK))
	after := fmt.Sprintf("\nssh-ed25519 %s after\n", edBlob(NewParty("a").EdPK))
	per := 1
	if e.Thorough() {
		per = 2
	}
	Par(len(cases), func(i int) {
		if i%256 == 0 && e.Late() {
			e.R.Count("skipped_out_of_time")
			return
		}
		c := cases[i]
		for k := 0; k < per; k++ {
			r := Rng(e.Seed, "authline", i, k)
			var b strings.Builder
			var off []int
			for _, t := range c.L {
				off = append(off, b.Len())
				b.WriteString(w.tok(t, r, nil))
			}
			line := b.String()
			// the comment is the tail of the line
			com := ""
			if n := len(c.Com); n > 0 {
				end := len(c.L)
				for end > 0 && c.L[end-1] == "sp" {
					end--
				}
				com = strings.Trim(line[off[end-n]:], " \t")
			}
			text := around + line + pick(r, after, "\r"+after)
			var got []*sign.PublicKey
			var perr error
			err := Guard(func() error { got, perr = sign.ParseAuthorizedKeys([]byte(text)); return nil })
			e.R.Exec(1)
			if err != nil {
				e.R.Violation("panic/line", fmt.Sprintf("line %q: %v", line, err), map[string]any{"text": text})
				continue
			}
			if c.Key == "any" {
				continue
			}
			e.R.Trace()
			var want []string
			want = append(want, "before")
			wantK := [][]byte{nil}
			if c.Key != "none" {
				want = append(want, com)
				wantK = append(wantK, w.pk[c.Key])
			}
			want = append(want, "after")
			wantK = append(wantK, nil)
			ok := perr == nil && len(got) == len(want)
			for j := range got {
				if !ok {
					break
				}
				ok = got[j] != nil && got[j].Comment == want[j] && (wantK[j] == nil || bytes.Equal(got[j].Pk, wantK[j]))
			}
			e.R.Count("line_" + c.Key)
			if !ok {
				e.R.Violation("line/"+c.Key, fmt.Sprintf("the line %q (tokens %v) must give key %s with comment %q; the file gives %s (%v)", line, c.L, c.Key, com, showKeys(got), perr), map[string]any{"text": text})
			}
			if i%20011 == 0 {
				e.R.Sample(map[string]any{"line": line, "key": c.Key})
			}
		}
	})
	return nil
}

// longLen: lengths of parts of long lines, around those of usual buffers.
func longLen(r *rand.Rand) int {
	switch r.Intn(24) {
	case 0, 1, 2:
		return 65536 - 300 + r.Intn(600)
	case 3:
		return 1<<20 - 50 + r.Intn(100)
	case 4, 5, 6, 7:
		return 70000
	case 8, 9, 10, 11:
		return 4096 - 200 + r.Intn(300)
	}
	return 10000
}

func cmdAuthFile(e *Env) error {
	cases, err := AllCases[AFile](e.Cases)
	if err != nil {
		return err
	}
	var pks []ed25519.PublicKey
	for i := 0; i < 16; i++ {
		pks = append(pks, NewParty("k").EdPK)
	}
	Par(len(cases), func(i int) {
		if i%256 == 0 && e.Late() {
			e.R.Count("skipped_out_of_time")
			return
		}
		c := cases[i]
		r := Rng(e.Seed, "authfile", i)
		var text strings.Builder
		com := map[int]string{}
		for j, k := range c.Ls {
			blob := edBlob(pks[j])
			cm := pick(r, "u@h", "two words", "tab\tin it", "ünï", "a # b", `say "x"`, "x=y,z")
			var s string
			switch k {
			case "key":
				s = "ssh-ed25519 " + blob + " " + cm
			case "again":
				cm = fmt.Sprintf("again%d@host", j)
				s = "ssh-ed25519 " + edBlob(pks[0]) + " " + cm
			case "keyopt":
				s = pick(r, "no-pty", "no-pty,no-X11-forwarding", `from="*.example.com,!bad"`, `restrict,pty`) + " ssh-ed25519 " + blob + "\t" + cm
			case "keynocomment":
				s, cm = "  ssh-ed25519\t"+blob+" ", ""
			case "keyquoted":
				s = pick(r, `command="dump /home, then \"quit\"",no-pty`, `environment="A=b c d"`, `command="ssh-ed25519 `+edBlob(pks[15])+` x"`, `command="a b",from="x y"`) + " ssh-ed25519 " + blob + " " + cm
			case "long":
				cm = strings.Repeat("x", 1+longLen(r))
				s = `command="` + strings.Repeat("y z ", 1+longLen(r)/4) + `" ssh-ed25519 ` + blob + " " + cm
			case "longhash":
				s = pick(r, "# ", "garbage", `command="unterminated `, "ssh-rsa ", "ssh-ed25519 ") + strings.Repeat(pick(r, "z", "# ", blob), 1+longLen(r))
				if len(s) > 1<<21 {
					s = s[:1<<21]
				}
			case "blank":
			case "spaces":
				s = " \t "
			case "hash":
				s = pick(r, "# comment", "  #x", "#ssh-ed25519 "+blob+" "+cm, "#")
			case "rsa":
				t, b := otherBlob(r)
				s = t + " " + b + " " + cm
			case "bad":
				s = pick(r, "ssh-ed25519 "+badBlob(r, pks[j])+" "+cm, "garbage in here", "ssh-ed25519", "no-pty ssh-ed25519 "+badBlob(r, pks[j]))
			case "oneword":
				s = pick(r, blob, "x", "ssh-ed25519")
			case "quote":
				s = `command="unterminated ssh-ed25519 ` + blob + " " + strings.ReplaceAll(cm, `"`, "")
			default:
				panic(k)
			}
			com[j+1] = strings.TrimSpace(cm)
			text.WriteString(s)
			if j < len(c.Ls)-1 || c.Final {
				switch c.Eol {
				case "lf":
					text.WriteString("\n")
				case "crlf":
					text.WriteString("\r\n")
				default:
					text.WriteString(pick(r, "\n", "\r\n"))
				}
			}
		}
		var got []*sign.PublicKey
		var perr error
		in := []byte(text.String())
		err := Guard(func() error { got, perr = sign.ParseAuthorizedKeys(in); return nil })
		e.R.Exec(1)
		e.R.Trace()
		if err != nil {
			e.R.Violation("panic/file", err.Error(), map[string]any{"text": text.String()})
			return
		}
		pkOf := func(k int) []byte {
			if c.Ls[k-1] == "again" {
				return pks[0]
			}
			return pks[k-1]
		}
		ok := perr == nil && len(got) == len(c.Keys)
		for j := 0; ok && j < len(got); j++ {
			k := c.Keys[j]
			ok = got[j] != nil && bytes.Equal(got[j].Pk, pkOf(k)) && got[j].Comment == com[k] && bytes.Equal(got[j].Hash(), ref.PKHash(pkOf(k)))
		}
		if !ok {
			e.R.Violation("file", fmt.Sprintf("lines %v (%s, final newline %v) must give the keys of lines %v, give %s (%v)", c.Ls, c.Eol, c.Final, c.Keys, showKeys(got), perr), map[string]any{"text": text.String()})
		}
		// keys must stay what they are when the input buffer is reused
		if ok {
			for x := range in {
				in[x] = 'A'
			}
			for j, k := range c.Keys {
				if !bytes.Equal(got[j].Pk, pkOf(k)) || got[j].Comment != com[k] {
					e.R.Violation("alias", "a parsed key changes with the input buffer", nil)
				}
			}
		}
		if i%5003 == 0 {
			e.R.Sample(map[string]any{"lines": c.Ls, "eol": c.Eol, "keys": c.Keys})
		}
	})
	return manyLines(e, pks)
}

// manyLines: long files, whose lines are of the same kinds.
func manyLines(e *Env, pks []ed25519.PublicKey) error {
	for _, n := range []int{100, 257, 1025, 4097, 20001} {
		r := Rng(e.Seed, "many", n)
		var text strings.Builder
		var want []string
		for i := 0; i < n; i++ {
			k := r.Intn(len(pks))
			cm := fmt.Sprintf("user%d@host", i)
			switch r.Intn(8) {
			case 0:
				text.WriteString("# " + cm)
			case 1:
				text.WriteString(pick(r, "", " ", "garbage", "ssh-ed25519 "+badBlob(r, pks[k])+" x"))
			case 2:
				text.WriteString(`command="a b",no-pty ssh-ed25519 ` + edBlob(pks[k]) + " " + cm)
				want = append(want, fmt.Sprintf("%x %s", pks[k], cm))
			default:
				text.WriteString("ssh-ed25519 " + edBlob(pks[k]) + " " + cm)
				want = append(want, fmt.Sprintf("%x %s", pks[k], cm))
			}
			text.WriteString("\n")
		}
		var got []*sign.PublicKey
		err := Guard(func() (err error) { got, err = sign.ParseAuthorizedKeys([]byte(text.String())); return })
		e.R.Exec(1)
		e.R.Trace()
		if err != nil {
			e.R.Violation("many", fmt.Sprintf("a file of %d lines: %v", n, err), nil)
			continue
		}
		bad := -1
		for i := 0; i < len(got) || i < len(want); i++ {
			if i >= len(got) || i >= len(want) || got[i] == nil || fmt.Sprintf("%x %s", got[i].Pk, got[i].Comment) != want[i] {
				bad = i
				break
			}
		}
		if bad >= 0 {
			e.R.Violation("many", fmt.Sprintf("a file of %d lines gives %d keys for %d, the first difference at key %d", n, len(got), len(want), bad), nil)
		}
	}
	return nil
}
