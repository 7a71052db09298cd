package main

// Runs the real program with the passphrases and keystrokes Pass.tla
// generates, on a terminal of its own.

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verifharness/ref"
)

func init() { cmds["pass"] = cmdPass }

// PassCase is what TLC prints.
type PassCase struct {
	Cmd   string   `json:"cmd"`
	Way   string   `json:"way"`
	Form  string   `json:"form"`
	KP    string   `json:"kp"`
	Env   string   `json:"env"`
	Lines []string `json:"lines"`
	OK    bool     `json:"ok"`
	Used  string   `json:"used"`
}

func (c *PassCase) String() string {
	s := c.Cmd + " " + c.Form + " key"
	if c.Cmd != "gen" {
		s += fmt.Sprintf(" saved with %q", passBytes(c.KP))
	}
	switch c.Way {
	case "nopw":
		s += ", --no-password"
	case "env":
		s += fmt.Sprintf(", -E with %q", passBytes(c.Env))
	default:
		s += fmt.Sprintf(", typed %q", passKeys(c.Lines))
	}
	return s
}

func passBytes(s string) string {
	const a = "Correct-horse7"
	long := strings.Repeat("Correct-horse-7 battery_", 20)
	switch s {
	case "e", "-", "":
		return ""
	case "a":
		return a
	case "A":
		return "correct-horse7"
	case "asp":
		return a + " "
	case "spa":
		return " " + a
	case "atab":
		return a + "\t"
	case "anl":
		return a + "\n"
	case "acr":
		return a + "\r"
	case "a0":
		return a[:len(a)-1]
	case "aa":
		return a + a
	case "uni":
		return "caf\u00e9-Correct7"
	case "nfd":
		return "cafe\u0301-Correct7"
	case "bin":
		return "Corr\xff\xfe\x80ect7"
	case "pct":
		return "Correct%s%dhorse7%n"
	case "quo":
		return "\"Correct\"'h\\orse7"
	case "dol":
		return "$HOME/Correct7"
	case "hash":
		return "# Correct: horse7"
	case "long":
		return long
	case "long2":
		return long[:len(long)-1] + "!"
	}
	panic("passphrase " + s)
}

// passKeys are the keystrokes of lines.
func passKeys(lines []string) []string {
	var v []string
	for _, l := range lines {
		switch l {
		case "intr":
			v = append(v, "")
		case "fixed":
			v = append(v, "Correct-horsX\x7fe7\n")
		default:
			v = append(v, passBytes(l)+"\n")
		}
	}
	return v
}

// --- terminals ----------------------------------------------------------

func ioctl(fd uintptr, req uintptr, p unsafe.Pointer) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p))
	if e != 0 {
		return e
	}
	return nil
}

// Pty is a terminal: M is where the user sits.
type Pty struct {
	m, s int
}

func NewPty() (*Pty, error) {
	m, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC|syscall.O_NONBLOCK, 0)
	if err != nil {
		return nil, err
	}
	var z, n int32
	if err = ioctl(uintptr(m), 0x40045431, unsafe.Pointer(&z)); err == nil { // TIOCSPTLCK
		err = ioctl(uintptr(m), 0x80045430, unsafe.Pointer(&n)) // TIOCGPTN
	}
	if err != nil {
		syscall.Close(m)
		return nil, err
	}
	s, err := syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		r, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(m), 0x5441, syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC) // TIOCGPTPEER
		if e != 0 {
			syscall.Close(m)
			return nil, err
		}
		s = int(r)
	}
	return &Pty{m, s}, nil
}

func (p *Pty) Close() { syscall.Close(p.m); syscall.Close(p.s) }

func (p *Pty) echo() bool {
	var t syscall.Termios
	if ioctl(uintptr(p.s), syscall.TCGETS, unsafe.Pointer(&t)) != nil {
		return true
	}
	return t.Lflag&syscall.ECHO != 0
}

// pending is how much typed input nobody has read yet.
func (p *Pty) pending() int {
	var n int32
	ioctl(uintptr(p.s), 0x541b, unsafe.Pointer(&n)) // FIONREAD
	return int(n)
}

// TTYRun is a run of the program on a terminal.
type TTYRun struct {
	Exit          int
	TTY, Out, Err []byte
	Typed         int  // lines it took
	Shown         bool // had to type while the terminal showed it
	EchoLeft      bool // the terminal shows what is typed at the end
	Stopped       bool // interrupted at a prompt
	Hang          bool
}

// RunTTY runs the program with the terminal as its input; whenever it turns
// the terminal's echo off, the next line is typed. An empty line, or one too
// many asked for, stands for an interrupt.
func RunTTY(bin, dir string, args, env []string, keys []string, errTTY bool) (*TTYRun, error) {
	p, err := NewPty()
	if err != nil {
		return nil, err
	}
	defer p.Close()
	r := &TTYRun{TTY: []byte{}}
	var out, errb bytes.Buffer
	sf, err := syscall.Dup(p.s)
	if err != nil {
		return nil, err
	}
	syscall.CloseOnExec(sf)
	in := os.NewFile(uintptr(sf), "tty")
	defer in.Close()
	c := exec.Command(bin, args...)
	c.Dir, c.Env, c.Stdin, c.Stdout, c.Stderr = dir, env, in, &out, &errb
	if errTTY {
		c.Stderr = in
	}
	// not its controlling terminal, which would hang up when the program ends
	c.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if err := c.Start(); err != nil {
		return nil, err
	}
	done := make(chan struct{})
	go func() { c.Wait(); close(done) }()
	over := func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
	buf := make([]byte, 4096)
	drain := func() {
		for {
			n, err := syscall.Read(p.m, buf)
			if n <= 0 || err != nil {
				return
			}
			r.TTY = append(r.TTY, buf[:n]...)
		}
	}
	start := time.Now()
	last := start
	nap := func() { drain(); time.Sleep(300 * time.Microsecond) }
	for !over() {
		if p.echo() {
			if time.Since(start) > 60*time.Second {
				r.Hang = true
				c.Process.Kill()
				<-done
				break
			}
			// it seems to be waiting without having turned the echo off
			if len(keys) > r.Typed && time.Since(last) > 20*time.Second {
				r.Shown = true
			} else {
				nap()
				continue
			}
		}
		time.Sleep(500 * time.Microsecond)
		if !r.Shown && p.echo() {
			continue
		}
		if r.Typed >= len(keys) || keys[r.Typed] == "" {
			r.Stopped = true
			c.Process.Signal(syscall.SIGINT)
			for t := time.Now(); !over(); nap() {
				if time.Since(t) > 5*time.Second { // not about passphrases
					c.Process.Kill()
					<-done
				}
			}
			break
		}
		k := keys[r.Typed]
		if _, err := syscall.Write(p.m, []byte(k)); err != nil {
			return nil, fmt.Errorf("typing: %w", err)
		}
		r.Typed++
		for t := time.Now(); !over() && p.pending() > 0 && time.Since(t) < 20*time.Second; {
			nap()
		}
		// the echo is on again between two questions; a line typed too early waits
		for t := time.Now(); !over() && !p.echo() && time.Since(t) < 40*time.Millisecond; {
			nap()
		}
		last = time.Now()
	}
	drain()
	r.EchoLeft = p.echo()
	r.Exit = c.ProcessState.ExitCode()
	r.Out, r.Err = out.Bytes(), errb.Bytes()
	return r, nil
}

// leaks tells in which form secret appears in b.
func leaks(b, secret []byte) string {
	if len(secret) < 6 {
		return ""
	}
	for _, f := range []struct {
		n string
		b []byte
	}{
		{"as it is", secret},
		{"in hexadecimal", []byte(hex.EncodeToString(secret))},
		{"in upper case hexadecimal", []byte(strings.ToUpper(hex.EncodeToString(secret)))},
		{"in base64", []byte(strings.TrimRight(base64.StdEncoding.EncodeToString(secret[:len(secret)/3*3]), "="))},
		{"in base64", []byte(strings.TrimRight(base64.URLEncoding.EncodeToString(secret[:len(secret)/3*3]), "="))},
		{"as a Go value", []byte(strings.Trim(fmt.Sprint(secret), "[]"))},
		{"quoted", []byte(strings.Trim(fmt.Sprintf("%q", secret), `"`))},
	} {
		if len(f.b) >= 6 && bytes.Contains(b, f.b) {
			return f.n
		}
	}
	return ""
}

// --- the check ----------------------------------------------------------

var sigLine = regexp.MustCompile(`^(comment|pkhash|signature): `)

func cmdPass(e *Env) error {
	all, err := AllCases[PassCase](e.Cases)
	if err != nil {
		return err
	}
	haveTTY := true
	if p, err := NewPty(); err != nil {
		haveTTY = false
		e.R.Note("no terminals here (%v): what is typed is not checked", err)
	} else {
		p.Close()
	}
	r, s := detParty("r"), detParty("s")
	pt := bytesOf(Rng(1, "pass"), 3000)
	sp := ref.Spec{Chunk: 1024, To: []ed25519.PublicKey{s.EdPK}, EmptyLast: true}
	ct, _, err := ref.Encrypt(sp, pt)
	if err != nil {
		return err
	}
	keys := filepath.Join(e.Work, "keys")
	if err := os.MkdirAll(filepath.Join(e.Work, "home"), 0755); err != nil {
		return err
	}
	os.MkdirAll(keys, 0755)
	for n, b := range map[string][]byte{"pt": pt, "ct": ct, "r.pub": ref.MakePub(r.EdPK, "r")} {
		if err := os.WriteFile(filepath.Join(keys, n), b, 0644); err != nil {
			return err
		}
	}
	made := map[string]bool{}
	keyFile := func(c *PassCase) (string, error) {
		n := filepath.Join(keys, c.Form+"-"+c.KP+".key")
		if made[n] {
			return n, nil
		}
		var b []byte
		if c.Form == "native" {
			b = ref.MakePriv(s.Ed, []byte(passBytes(c.KP)), "s", 2, 1, 1).Bytes()
		} else {
			k := ref.DefSSH(s.Ed, "s")
			switch c.Form {
			case "sshctr":
				k.Cipher, k.KDF = "aes256-ctr", "bcrypt"
			case "sshcbc":
				k.Cipher, k.KDF = "aes256-cbc", "bcrypt"
			}
			k.Pass = []byte(passBytes(c.KP))
			b = k.Bytes()
		}
		made[n] = true
		return n, os.WriteFile(n, b, 0600)
	}

	// which cases to run: every one that must succeed, and the near misses
	rng := Rng(e.Seed, "pass")
	var run, gens []*PassCase
	ngen := 0
	for _, i := range rng.Perm(len(all)) {
		c := all[i]
		if c.Way == "tty" && !haveTTY {
			continue
		}
		if c.Cmd == "gen" {
			if c.OK {
				if ngen++; ngen > 44 && !e.Thorough() {
					continue
				}
				gens = append(gens, c)
			} else {
				run = append(run, c)
			}
			continue
		}
		if c.OK || e.Thorough() || near(c) || rng.Intn(100) < 25 {
			run = append(run, c)
		}
	}
	for _, c := range run {
		if c.Cmd != "gen" {
			if _, err := keyFile(c); err != nil {
				return err
			}
		}
	}
	var mu sync.Mutex
	var ferr error
	one := func(i int, c *PassCase) {
		if e.Late() {
			e.R.Note("out of time")
			return
		}
		var v, key string
		// typing is a matter of timing: only what shows three times counts
		for try := 0; try < 3; try++ {
			k, m, err := runPass(e, c, i, keys, pt, ct, r, s)
			if err != nil {
				mu.Lock()
				if ferr == nil {
					ferr = fmt.Errorf("%v: %w", c, err)
				}
				mu.Unlock()
				return
			}
			if k == "" {
				v = ""
				break
			}
			key, v = k, m
		}
		e.R.Trace()
		e.R.Count("passphrase_runs_" + c.Way)
		if v != "" {
			e.R.Violation(key, fmt.Sprintf("%v: %s", c, v), c)
		}
		if i%400 == 0 {
			e.R.Sample(map[string]any{"case": c.String(), "succeeds": c.OK})
		}
	}
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for i, c := range gens {
		wg.Add(1)
		sem <- struct{}{}
		go func() { defer wg.Done(); one(100000+i, c); <-sem }()
	}
	wg.Wait()
	Par(len(run), func(i int) { one(i, run[i]) })
	return ferr
}

// near: the passphrase given differs from the right one in a way that is easily overlooked.
func near(c *PassCase) bool {
	g := c.Env
	if c.Way == "tty" {
		g = c.Lines[len(c.Lines)-1]
	}
	if c.Way == "nopw" {
		return true
	}
	a, b := passBytes(c.KP), g
	if g == "intr" {
		return true
	}
	if g != "fixed" {
		b = passBytes(g)
	} else {
		b = passBytes("a")
	}
	norm := func(s string) string {
		s = strings.ToLower(strings.TrimSpace(s))
		if len(s) > 64 {
			s = s[:64]
		}
		return s
	}
	return norm(a) == norm(b) || strings.HasPrefix(a, b) || strings.HasPrefix(b, a) || strings.Contains(a, "caf") && strings.Contains(b, "caf")
}

// runPass runs one case; key is empty if all is well.
func runPass(e *Env, c *PassCase, i int, keys string, pt, ct []byte, r, s *Party) (key, msg string, err error) {
	dir, err := os.MkdirTemp(e.Work, "p")
	if err != nil {
		return "", "", err
	}
	defer os.RemoveAll(dir)
	secret := passBytes(c.KP)
	if c.Cmd == "gen" {
		secret = passBytes("a")
	}
	vname := []string{"PW", "pw", "SIGTOOL_PW", "PW.1", "x y", "_"}[i%6]
	env := []string{"HOME=" + e.Work + "/home", "PATH=/usr/bin:/bin"}
	for _, n := range []string{"PASSWORD", "PASSPHRASE", "SIGTOOL_PASSWORD", "SIGTOOL_PASSPHRASE", "SSH_ASKPASS_PASSWORD", "Pw", "P", "PW1", "PW_", "SIGTOOL"} {
		env = append(env, n+"="+secret)
	}
	var opt []string
	switch c.Way {
	case "nopw":
		opt = []string{"--no-password"}
	case "env":
		env = append(env, vname+"="+passBytes(c.Env))
		opt = [][]string{{"-E", vname}, {"--env-password=" + vname}, {"--env-password", vname}, {"-E" + vname}}[i/6%4]
	}
	kf := filepath.Join(keys, c.Form+"-"+c.KP+".key")
	toFile := i%3 == 0
	outf := filepath.Join(dir, "out")
	var a []string
	switch c.Cmd {
	case "sign":
		a = append([]string{"sign", "-o", "-"}, opt...)
		if toFile {
			a[2] = outf
		}
		a = append(a, kf, filepath.Join(keys, "pt"))
	case "enc":
		a = append([]string{"encrypt", "-s", kf}, opt...)
		if toFile {
			a = append(a, "-o", outf)
		}
		a = append(a, filepath.Join(keys, "r.pub"), filepath.Join(keys, "pt"))
	case "dec":
		a = append([]string{"decrypt"}, opt...)
		if toFile {
			a = append(a, "-o", outf)
		}
		a = append(a, kf, filepath.Join(keys, "ct"))
	case "gen":
		a = append([]string{"generate"}, opt...)
		a = append(a, filepath.Join(dir, "k"))
	}
	var t *TTYRun
	if c.Way == "tty" || i%2 == 0 {
		t, err = RunTTY(e.Bin, dir, a, env, passKeys(c.Lines), i%5 == 0)
		if err != nil && c.Way == "tty" {
			return "", "", err
		}
	}
	if t == nil {
		x := exec.Command(e.Bin, a...)
		x.Dir, x.Env = dir, env
		var o, eb bytes.Buffer
		x.Stdout, x.Stderr = &o, &eb
		if err := x.Run(); x.ProcessState == nil {
			return "", "", err
		}
		t = &TTYRun{Exit: x.ProcessState.ExitCode(), Out: o.Bytes(), Err: eb.Bytes()}
	}
	e.R.Exec(1)
	if t.Hang {
		return "hang", "does not end", nil
	}
	var said []byte
	for _, b := range [][]byte{t.TTY, t.Err, t.Out} {
		said = append(append(said, b...), 0)
	}
	given := append([]string{c.Env, c.Used}, c.Lines...)
	for _, l := range given {
		if l == "intr" || l == "fixed" || l == "-" {
			continue
		}
		if how := leaks(said, []byte(strings.TrimSpace(passBytes(l)))); how != "" {
			return "shown", fmt.Sprintf("the passphrase is shown %s: terminal %q, stderr %q", how, tail(t.TTY), tail(t.Err)), nil
		}
	}
	if t.Shown {
		return "shown", "the terminal shows the passphrase while it is typed", nil
	}
	if t.TTY != nil && !t.EchoLeft && !t.Stopped {
		return "echo-off", "the terminal is left with its echo off", nil
	}
	if (t.Exit == 0) != c.OK {
		want := "fail"
		if c.OK {
			want = "succeed"
		}
		return "result-" + c.Cmd + "-" + c.Way, fmt.Sprintf("should %s: sigtool %q exits with %d; %s", want, a, t.Exit, tail(append(append([]byte{}, t.Err...), t.TTY...))), nil
	}
	if c.Cmd == "gen" {
		kb, err := os.ReadFile(filepath.Join(dir, "k.key"))
		pb, perr := os.ReadFile(filepath.Join(dir, "k.pub"))
		if !c.OK {
			if err == nil || perr == nil {
				return "gen-left", "generate fails but leaves a key", nil
			}
			return "", "", nil
		}
		if err != nil || perr != nil {
			return "gen-none", fmt.Sprintf("generate succeeds without keys: %v %v", err, perr), nil
		}
		sk, _, err := ref.OpenPriv(kb, []byte(passBytes(c.Used)))
		if err != nil {
			return "gen-pass-" + c.Way, fmt.Sprintf("the new key does not open with %q: %v", passBytes(c.Used), err), nil
		}
		pk, _, err := ref.OpenPub(pb)
		if err != nil || !bytes.Equal(pk, sk.Public().(ed25519.PublicKey)) {
			return "gen-pair", fmt.Sprintf("the new public key does not belong to the private key (%v)", err), nil
		}
		return "", "", nil
	}
	res := t.Out
	if toFile {
		if len(t.Out) > 0 {
			return "stdout-" + c.Cmd, fmt.Sprintf("the result goes to a file, yet stdout has %q", tail(t.Out)), nil
		}
		if res, err = os.ReadFile(outf); err != nil && c.OK {
			return "no-result", fmt.Sprintf("succeeds without a result: %v", err), nil
		}
	}
	if !c.OK {
		if len(res) > 0 {
			return "output-" + c.Cmd, fmt.Sprintf("fails, but puts out %q", tail(res)), nil
		}
		return "", "", nil
	}
	switch c.Cmd {
	case "dec":
		if !bytes.Equal(res, pt) {
			return "stdout-dec", fmt.Sprintf("the result is not the plaintext but starts %.60q", res), nil
		}
	case "enc":
		f, err := ref.Split(res)
		if err != nil {
			return "stdout-enc", fmt.Sprintf("the result is not an encrypted file (%v): starts %.60q", err, res), nil
		}
		if n := len(f.Bytes()); n != len(res) {
			return "stdout-enc", fmt.Sprintf("the result is %d bytes, the encrypted file in it %d", len(res), n), nil
		}
		in, err := ref.Decrypt(res, r.Ed, s.EdPK)
		if err != nil || !bytes.Equal(in.Plain, pt) {
			return "stdout-enc", fmt.Sprintf("the result does not decrypt: %v", err), nil
		}
	case "sign":
		for _, l := range strings.Split(strings.TrimRight(string(res), "\n"), "\n") {
			if !sigLine.MatchString(l) {
				return "stdout-sign", fmt.Sprintf("the result is not just a signature: %.80q", res), nil
			}
		}
		sig, _, _, err := ref.OpenSig(res)
		if err != nil || !ref.VerifyMsg(s.EdPK, ref.FileDigest(pt), sig) {
			return "stdout-sign", fmt.Sprintf("the result is not the signature: %v %.80q", err, res), nil
		}
	}
	return "", "", nil
}

func tail(b []byte) string {
	if len(b) > 200 {
		b = b[len(b)-200:]
	}
	return string(b)
}
