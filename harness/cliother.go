package main

// Runs of the program outside the tracer: as an unprivileged user, with odd
// command lines, and ended by signals.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	cmds["clinobody"] = cmdCliNobody
	cmds["cliargs"] = cmdCliArgs
	cmds["clisignals"] = cmdCliSignals
}

const nobody = 65534

// cmdCliNobody: existing outputs an unprivileged user cannot look into.
func cmdCliNobody(e *Env) error {
	if os.Geteuid() != 0 {
		e.R.Note("not root: cannot run as another user")
		return nil
	}
	w := newCliWorld(e)
	for d := e.Work; d != "/" && d != "/tmp"; d = filepath.Dir(d) {
		os.Chmod(d, 0755)
	}
	pt := w.pts["many"]
	sealed := w.cipher("many", false)
	type prep struct {
		what string
		do   func(dir, out string) error
	}
	preps := []prep{
		{"a write-only file with extended attributes", func(dir, out string) error {
			if err := os.WriteFile(out, []byte("precious"), 0600); err != nil {
				return err
			}
			if err := syscall.Setxattr(out, "user.note", []byte("x"), 0); err != nil {
				return err
			}
			return os.Chmod(out, 0200)
		}},
		{"an unreadable file", func(dir, out string) error {
			if err := os.WriteFile(out, []byte("precious"), 0600); err != nil {
				return err
			}
			return os.Chmod(out, 0)
		}},
		{"a link into a directory that cannot be searched", func(dir, out string) error {
			if err := os.Mkdir(filepath.Join(dir, "vault"), 0700); err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(dir, "vault/file"), []byte("precious"), 0644); err != nil {
				return err
			}
			if err := os.Chmod(filepath.Join(dir, "vault"), 0); err != nil {
				return err
			}
			return os.Symlink("vault/file", out)
		}},
		{"a link to a missing file", func(dir, out string) error { return os.Symlink("unmounted/file", out) }},
		{"a link in a loop", func(dir, out string) error { return os.Symlink(filepath.Base(out), out) }},
	}
	for pi, p := range preps {
		for _, cmd := range []string{"enc", "dec", "sign", "gen"} {
			dir := filepath.Join(e.Work, fmt.Sprintf("n%d-%s", pi, cmd))
			if err := os.MkdirAll(filepath.Join(dir, "home"), 0755); err != nil {
				return err
			}
			in := pt
			if cmd == "dec" {
				in = sealed
			}
			for n, b := range map[string][]byte{"in": in, "r.key": w.files["r.key"], "r.pub": w.files["r.pub"]} {
				if err := os.WriteFile(filepath.Join(dir, n), b, 0644); err != nil {
					return err
				}
			}
			out := filepath.Join(dir, "out")
			if cmd == "gen" {
				out = filepath.Join(dir, "k.key")
			}
			if err := p.do(dir, out); err != nil {
				e.R.Note("cannot make %s: %v", p.what, err)
				continue
			}
			filepath.Walk(dir, func(f string, fi os.FileInfo, err error) error {
				if err == nil {
					os.Lchown(f, nobody, nobody)
				}
				return nil
			})
			os.Lchown(dir, nobody, nobody)
			before, err := os.Lstat(out)
			if err != nil {
				return err
			}
			bb, _ := os.ReadFile(out)
			var a []string
			switch cmd {
			case "enc":
				a = []string{"encrypt", "-o", "out", "r.pub", "in"}
			case "dec":
				a = []string{"decrypt", "--no-password", "-o", "out", "r.key", "in"}
			case "sign":
				a = []string{"sign", "--no-password", "-o", "out", "r.key", "in"}
			case "gen":
				a = []string{"generate", "--no-password", "k"}
			}
			c := exec.Command(e.Bin, a...)
			c.Dir, c.Env = dir, []string{"HOME=" + dir + "/home", "PATH=/usr/bin:/bin"}
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
			o, err := c.CombinedOutput()
			if c.ProcessState == nil {
				e.R.Note("cannot run as another user: %v", err)
				return nil
			}
			e.R.Exec(1)
			e.R.Trace()
			e.R.Count("unprivileged_runs")
			after, err := os.Lstat(out)
			ab, _ := os.ReadFile(out)
			if err != nil || !os.SameFile(before, after) || before.Mode() != after.Mode() || !bytes.Equal(ab, bb) {
				e.R.Violation("unseen-output", fmt.Sprintf("%s replaced %s without --overwrite: sigtool %s: exit %d %s", cmd, p.what, strings.Join(a, " "), c.ProcessState.ExitCode(), o), nil)
			} else if c.ProcessState.ExitCode() == 0 {
				e.R.Violation("unseen-output-zero", fmt.Sprintf("%s left %s alone but exited with 0: %s", cmd, p.what, o), nil)
			}
		}
	}
	return nil
}

// ArgCase is a command line of Args.tla.
type ArgCase struct {
	Args  []string `json:"args"`
	Asked bool     `json:"asked"`
}

func cmdCliArgs(e *Env) error {
	cases, err := AllCases[ArgCase](e.Cases)
	if err != nil {
		return err
	}
	var wg sync.WaitGroup
	n := runtime.NumCPU()
	for k := 0; k < n; k++ {
		dir := filepath.Join(e.Work, fmt.Sprint("a", k))
		if err := os.Mkdir(dir, 0700); err != nil {
			return err
		}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < len(cases) && !e.Late(); i += n {
				c := cases[i]
				p := e.Run(dir, nil, nil, c.Args...)
				e.R.Exec(1)
				e.R.Trace()
				e.R.Count(fmt.Sprintf("command_lines_asking_%v_exit_%d", c.Asked, p.Code))
				switch {
				case p.Killed || p.Code >= 128 || p.Crash:
					e.R.Violation("args-crash", fmt.Sprintf("sigtool %q: exit %d %s", c.Args, p.Code, headOf(p.Err)), c)
				case !c.Asked && p.Code == 0:
					e.R.Violation("args-zero", fmt.Sprintf("sigtool %q did nothing and exited with 0", c.Args), c)
				}
				if es, _ := os.ReadDir(dir); len(es) > 0 {
					e.R.Violation("args-files", fmt.Sprintf("sigtool %q left %s", c.Args, es[0].Name()), c)
					os.RemoveAll(filepath.Join(dir, es[0].Name()))
				}
			}
		}(k)
	}
	wg.Wait()
	return nil
}

// cmdCliSignals ends the program in the middle of its work by signals.
func cmdCliSignals(e *Env) error {
	w := newCliWorld(e)
	for _, cmd := range []string{"enc", "dec"} {
		in := bytes.Repeat(w.pts["big"], 2)
		if cmd == "dec" {
			in = w.cipher("big", false)
		}
		for _, sig := range []syscall.Signal{syscall.SIGKILL, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGQUIT} {
			for _, had := range []bool{false, true} {
				for _, cut := range []int{0, 300, len(in) / 2, len(in) - 7} {
					dir, err := os.MkdirTemp(e.Work, "s")
					if err != nil {
						return err
					}
					for _, n := range []string{"r.key", "r.pub"} {
						must(os.WriteFile(filepath.Join(dir, n), w.files[n], 0600))
					}
					must(syscall.Mkfifo(filepath.Join(dir, "in"), 0600))
					out := filepath.Join(dir, "out")
					a := []string{"encrypt", "-o", "out", "-B", "1k", "r.pub", "in"}
					if cmd == "dec" {
						a = []string{"decrypt", "--no-password", "-o", "out", "r.key", "in"}
					}
					if had {
						must(os.WriteFile(out, []byte("precious"), 0640))
						a = append(a[:1:1], append([]string{"--overwrite"}, a[1:]...)...)
					}
					c := exec.Command(e.Bin, a...)
					c.Dir, c.Env = dir, []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
					if err := c.Start(); err != nil {
						return err
					}
					exited := make(chan struct{})
					go func() { c.Wait(); close(exited) }()
					fed := make(chan *os.File, 1)
					go func() {
						f, err := os.OpenFile(filepath.Join(dir, "in"), os.O_WRONLY, 0)
						if err == nil {
							f.Write(in[:cut])
						}
						fed <- f
					}()
					var f *os.File
					select {
					case f = <-fed:
					case <-exited:
						// opening for reading lets the feeder go
						if g, err := os.OpenFile(filepath.Join(dir, "in"), os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
							f = <-fed
							g.Close()
						}
					case <-time.After(20 * time.Second):
						c.Process.Kill()
						return fmt.Errorf("the program did not open its input")
					}
					time.Sleep(3 * time.Millisecond)
					c.Process.Signal(sig)
					select {
					case <-exited:
					case <-time.After(3 * time.Second):
						// it goes on: then its input has ended here, and it may finish
						f.Close()
						<-exited
						e.R.Exec(1)
						e.R.Count("signal_ignored")
						os.RemoveAll(dir)
						continue
					}
					f.Close()
					e.R.Exec(1)
					e.R.Trace()
					e.R.Count("ended_by_signal")
					b, err := os.ReadFile(out)
					fi, _ := os.Lstat(out)
					desc := fmt.Sprintf("%s ended by %v after %d of %d input bytes", cmd, sig, cut, len(in))
					switch {
					case !had && err == nil:
						e.R.Violation("signal", desc+": an output appeared", map[string]any{"len": len(b)})
					case had && (err != nil || string(b) != "precious" || fi.Mode().Perm() != 0640):
						e.R.Violation("signal", desc+": the existing output changed", map[string]any{"len": len(b)})
					case c.ProcessState.Success():
						e.R.Violation("signal-zero", desc+": exit 0", nil)
					}
					os.RemoveAll(dir)
				}
			}
		}
	}
	return nil
}
