package main

// A system call tracer for single runs of the program: it shows every moment
// at which the program has changed something, and can let single calls fail,
// transfer less, or be the last one.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Call is a system call of interest.
type Call struct {
	Op   string // create open read write close sync rename unlink chmod link symlink trunc stat mmap mkdir copy
	Role string
	Nth  int // among the calls with the same Op and Role, from 1
	Path string
	Ret  int64
	Hit  bool // the plan was applied to it
}

func (c *Call) String() string { return fmt.Sprintf("%s:%s#%d=%d", c.Op, c.Role, c.Nth, c.Ret) }

// Plan is what to do to one call (and a second one).
type Plan struct {
	Op, Role string
	Nth      int
	Kind     string // "error", "short", "kill", "appear"
	Errno    syscall.Errno
	Do       func()
}

func (p *Plan) String() string {
	if p == nil {
		return "no fault"
	}
	s := fmt.Sprintf("%s of %s:%s#%d", p.Kind, p.Op, p.Role, p.Nth)
	if p.Kind == "error" {
		s += " (" + p.Errno.Error() + ")"
	}
	return s
}

// Trace is one run.
type Trace struct {
	Calls []Call
	Code  int // exit status, 128+n for a signal
	Hung  bool
	Hits  int
}

type tracer struct {
	pid   int
	cwd   string
	role  func(path string) string
	obs   func(c *Call)
	plans []*Plan
	fds   map[int]string
	count map[string]int
	t     Trace
	pend  map[int]*Call // per thread
	regs  map[int]*syscall.PtraceRegs
	inSys map[int]bool
}

const (
	sysOpenat2   = 437
	sysStatx     = 332
	sysRenameat2 = 316
	sysCopyRange = 326
	sysFchmodat2 = 452
)

func (t *tracer) str(tid int, addr uint64) string {
	var b []byte
	for len(b) < 4096 {
		var w [64]byte
		n, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(b)), w[:])
		if n <= 0 || err != nil {
			break
		}
		if i := bytes.IndexByte(w[:n], 0); i >= 0 {
			return string(append(b, w[:i]...))
		}
		b = append(b, w[:n]...)
	}
	return string(b)
}

func (t *tracer) path(tid int, dirfd int64, addr uint64) string {
	s := t.str(tid, addr)
	if filepath.IsAbs(s) {
		return filepath.Clean(s)
	}
	d := t.cwd
	if int32(dirfd) != -100 {
		d = t.fds[int(int32(dirfd))]
	}
	return filepath.Join(d, s)
}

func isSysPath(p string) bool {
	for _, x := range []string{"/sys/", "/proc/", "/etc/", "/usr/"} {
		if strings.HasPrefix(p, x) {
			return true
		}
	}
	return false
}

func (t *tracer) pathRole(p string) string {
	if isSysPath(p) {
		return "sys"
	}
	return t.role(p)
}

func (t *tracer) fdRole(fd uint64) (string, string) {
	switch p, ok := t.fds[int(int32(fd))]; {
	case ok:
		return t.pathRole(p), p
	case fd == 0:
		return "stdin", ""
	case fd == 1:
		return "stdout", ""
	case fd == 2:
		return "stderr", ""
	}
	return "?", ""
}

// call describes the system call a thread enters.
func (t *tracer) call(tid int, r *syscall.PtraceRegs) *Call {
	c := &Call{}
	fd := func(op string, f uint64) { c.Op = op; c.Role, c.Path = t.fdRole(f) }
	at := func(op string, dir int64, a uint64) {
		c.Op, c.Path = op, t.path(tid, dir, a)
		c.Role = t.pathRole(c.Path)
	}
	open := func(dir int64, a uint64, flags uint64) {
		at("open", dir, a)
		if flags&syscall.O_CREAT != 0 {
			c.Op = "create"
		}
	}
	switch r.Orig_rax {
	case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_READV:
		fd("read", r.Rdi)
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_WRITEV:
		fd("write", r.Rdi)
	case syscall.SYS_OPEN:
		open(-100, r.Rdi, r.Rsi)
	case syscall.SYS_CREAT:
		open(-100, r.Rdi, syscall.O_CREAT)
	case syscall.SYS_OPENAT:
		open(int64(r.Rdi), r.Rsi, r.Rdx)
	case sysOpenat2:
		var w [8]byte
		syscall.PtracePeekData(tid, uintptr(r.Rdx), w[:])
		open(int64(r.Rdi), r.Rsi, binary.LittleEndian.Uint64(w[:]))
	case syscall.SYS_CLOSE:
		fd("close", r.Rdi)
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		fd("sync", r.Rdi)
	case syscall.SYS_RENAME:
		at("rename", -100, r.Rdi)
	case syscall.SYS_RENAMEAT, sysRenameat2:
		at("rename", int64(r.Rdi), r.Rsi)
	case syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		at("unlink", -100, r.Rdi)
	case syscall.SYS_UNLINKAT:
		at("unlink", int64(r.Rdi), r.Rsi)
	case syscall.SYS_CHMOD:
		at("chmod", -100, r.Rdi)
	case syscall.SYS_FCHMODAT, sysFchmodat2:
		at("chmod", int64(r.Rdi), r.Rsi)
	case syscall.SYS_FCHMOD:
		fd("chmod", r.Rdi)
	case syscall.SYS_LINK:
		at("link", -100, r.Rsi)
	case syscall.SYS_LINKAT:
		at("link", int64(r.Rdx), r.R10)
	case syscall.SYS_SYMLINK:
		at("symlink", -100, r.Rsi)
	case syscall.SYS_SYMLINKAT:
		at("symlink", int64(r.Rsi), r.Rdx)
	case syscall.SYS_MKDIR:
		at("mkdir", -100, r.Rdi)
	case syscall.SYS_MKDIRAT:
		at("mkdir", int64(r.Rdi), r.Rsi)
	case syscall.SYS_TRUNCATE:
		at("trunc", -100, r.Rdi)
	case syscall.SYS_FTRUNCATE, syscall.SYS_FALLOCATE:
		fd("trunc", r.Rdi)
	case syscall.SYS_STAT, syscall.SYS_LSTAT, syscall.SYS_ACCESS:
		at("stat", -100, r.Rdi)
	case syscall.SYS_NEWFSTATAT, sysStatx:
		at("stat", int64(r.Rdi), r.Rsi)
	case syscall.SYS_FSTAT:
		fd("stat", r.Rdi)
	case syscall.SYS_LISTXATTR, syscall.SYS_GETXATTR, syscall.SYS_LLISTXATTR, syscall.SYS_LGETXATTR:
		at("stat", -100, r.Rdi)
	case syscall.SYS_MMAP:
		if int32(r.R8) < 0 {
			return nil
		}
		fd("mmap", r.R8)
	case sysCopyRange:
		fd("copy", r.Rdx)
	case syscall.SYS_SENDFILE:
		fd("copy", r.Rdi)
	default:
		return nil
	}
	if c.Role == "?" {
		return nil
	}
	k := c.Op + ":" + c.Role
	t.count[k]++
	c.Nth = t.count[k]
	return c
}

func mutates(op string) bool {
	switch op {
	case "create", "write", "rename", "unlink", "chmod", "link", "symlink", "mkdir", "trunc", "copy", "close":
		return true
	}
	return false
}

// CanTrace tells whether this sandbox lets us trace our own children.
func CanTrace() bool {
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		return false
	}
	defer null.Close()
	tr, err := RunTraced("/bin/true", nil, "/", nil, [3]*os.File{null, null, null}, 022, nil, func(string) string { return "x" }, nil)
	return err == nil && tr.Code == 0 && len(tr.Calls) > 0
}

// RunTraced runs a program under the tracer.  The calling goroutine must not
// have other child processes.
func RunTraced(bin string, args []string, dir string, env []string, files [3]*os.File, umask int, plans []*Plan, role func(string) string, obs func(*Call)) (*Trace, error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	old := syscall.Umask(umask)
	pid, err := syscall.ForkExec(bin, append([]string{bin}, args...), &syscall.ProcAttr{
		Dir: dir, Env: env, Files: []uintptr{files[0].Fd(), files[1].Fd(), files[2].Fd()}, Sys: &syscall.SysProcAttr{Ptrace: true}})
	syscall.Umask(old)
	if err != nil {
		return nil, err
	}
	t := &tracer{pid: pid, cwd: dir, role: role, obs: obs, plans: plans, fds: map[int]string{}, count: map[string]int{},
		pend: map[int]*Call{}, regs: map[int]*syscall.PtraceRegs{}, inSys: map[int]bool{}}
	var ws syscall.WaitStatus
	if _, err = syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil {
		return nil, err
	}
	if !ws.Stopped() {
		return nil, fmt.Errorf("tracing: not stopped: %v", ws)
	}
	const opts = 1 /*SYSGOOD*/ | syscall.PTRACE_O_TRACECLONE | 0x100000 /*EXITKILL*/
	if err = syscall.PtraceSetOptions(pid, opts); err != nil {
		syscall.Kill(pid, syscall.SIGKILL)
		syscall.Wait4(pid, &ws, syscall.WALL, nil)
		return nil, fmt.Errorf("tracing: %w", err)
	}
	var late atomic.Bool
	tm := time.AfterFunc(60*time.Second, func() { late.Store(true); syscall.Kill(pid, syscall.SIGKILL) })
	defer tm.Stop()
	known := map[int]bool{pid: true}
	syscall.PtraceSyscall(pid, 0)
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return nil, fmt.Errorf("tracing: wait: %w", err)
		}
		switch {
		case ws.Exited() || ws.Signaled():
			if tid != pid {
				continue
			}
			if ws.Exited() {
				t.t.Code = ws.ExitStatus()
			} else {
				t.t.Code = 128 + int(ws.Signal())
			}
			t.t.Hung = late.Load()
			return &t.t, nil
		case !ws.Stopped():
			continue
		}
		sig := 0
		switch s := ws.StopSignal(); {
		case s == syscall.SIGTRAP|0x80:
			t.syscallStop(tid)
		case s == syscall.SIGTRAP:
			// an event stop, or a stray trap
		case s == syscall.SIGSTOP && !known[tid]:
		default:
			sig = int(s)
		}
		known[tid] = true
		syscall.PtraceSyscall(tid, sig)
	}
}

func (t *tracer) syscallStop(tid int) {
	var r syscall.PtraceRegs
	if syscall.PtraceGetRegs(tid, &r) != nil {
		return
	}
	if !t.inSys[tid] {
		t.inSys[tid] = true
		c := t.call(tid, &r)
		t.pend[tid] = c
		if c == nil {
			return
		}
		for _, p := range t.plans {
			if p == nil || p.Op != c.Op || p.Role != c.Role || p.Nth != c.Nth {
				continue
			}
			switch p.Kind {
			case "appear":
				c.Hit = true
				t.t.Hits++
				if p.Do != nil {
					p.Do()
				}
			case "kill":
				c.Hit = true
				t.t.Hits++
				syscall.Kill(t.pid, syscall.SIGKILL)
			case "error":
				c.Hit = true
				t.t.Hits++
				r.Orig_rax = ^uint64(0)
				syscall.PtraceSetRegs(tid, &r)
				c.Ret = -int64(p.Errno)
			case "short":
				if r.Rdx > 1 && (r.Orig_rax == syscall.SYS_READ || r.Orig_rax == syscall.SYS_WRITE || r.Orig_rax == syscall.SYS_PREAD64 || r.Orig_rax == syscall.SYS_PWRITE64) {
					c.Hit = true
					t.t.Hits++
					r.Rdx = (r.Rdx + 1) / 2
					syscall.PtraceSetRegs(tid, &r)
				}
			}
		}
		return
	}
	t.inSys[tid] = false
	c := t.pend[tid]
	if c == nil {
		return
	}
	t.pend[tid] = nil
	if c.Hit && c.Ret < 0 {
		r.Rax = uint64(c.Ret)
		syscall.PtraceSetRegs(tid, &r)
	} else {
		c.Ret = int64(r.Rax)
	}
	switch {
	case (c.Op == "open" || c.Op == "create") && c.Ret >= 0:
		t.fds[int(c.Ret)] = c.Path
	case c.Op == "close" && !(c.Hit && c.Ret < 0):
		delete(t.fds, int(int32(r.Rdi)))
	}
	t.t.Calls = append(t.t.Calls, *c)
	if t.obs != nil && mutates(c.Op) && c.Role != "stderr" && c.Role != "sys" {
		t.obs(c)
	}
}
