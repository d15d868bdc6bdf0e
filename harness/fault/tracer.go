// Package fault runs a program under ptrace, records its file-system calls and
// injects faults into them: errors, short writes, kills and pauses.
//
// The tracer is a process of its own (Main), started by Run.
package fault

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Event is a file-system call.
type Event struct {
	N      int    // number among the events that match the plan, 0 if none
	Call   string // openat, write, ...
	Path   string
	Path2  string `json:",omitempty"` // of renames and links
	Write  bool   // may change something
	Create bool   `json:",omitempty"`
	Len    int    `json:",omitempty"`
	Err    int    `json:",omitempty"` // errno of the result
	Ret    int    `json:",omitempty"` // what a read or write returned
	Fault  string `json:",omitempty"`
}

// Plan of faults.
type Plan struct {
	Under  string   // only calls on paths under one of these (prefix)
	Reads  bool     // count read-only calls too
	Calls  []string // only these calls, all if empty
	At     int      // number of the matching call (from 1)
	Action string   // "", kill, killafter, error, short, pause, hold
	Errno  int
	Sticky bool // all following writing calls fail too
	Exact  bool // Under is the path itself
	HoldMs int  // for hold: only the calling thread waits that long, others go on
	Every  int  // hold again after so many more calls
	KillAt int  // whatever the action, kill at this matching call

	// reads: "trim" delivers at most Max bytes at once, "interrupt" fails every
	// second one with EINTR, "bad" makes the bytes from From to Upto unreadable
	// (Errno, or the end of the file if that is 0), for the first Times reads;
	// "trimw" and "interruptw" are the same for writes, they are harmless
	Max        int
	From, Upto int64
	Times      int
	Seed       uint64
}

// Log of a run.
type Log struct {
	Events  []Event
	Matched int
	Exit    int
	Signal  int
	Injured bool // the fault was injected
	Late    bool // ended by the tracer: it took too long or made too many calls
}

const (
	sysRead, sysWrite, sysOpen, sysClose                               = 0, 1, 2, 3
	sysPread, sysPwrite, sysReadv, sysWritev                           = 17, 18, 19, 20
	sysFsync, sysFdatasync, sysTruncate, sysFtruncate                  = 74, 75, 76, 77
	sysRename, sysMkdir, sysRmdir, sysCreat, sysLink, sysUnlink        = 82, 83, 84, 85, 86, 87
	sysSymlink, sysChmod, sysFchmod, sysChown, sysFchown, sysLchown    = 88, 90, 91, 92, 93, 94
	sysMknod, sysUtime, sysSetxattr, sysUtimes, sysOpenat, sysMkdirat  = 133, 132, 188, 235, 257, 258
	sysFchownat, sysFutimesat, sysUnlinkat, sysRenameat, sysLinkat     = 260, 261, 263, 264, 265
	sysSymlinkat, sysFchmodat, sysUtimensat, sysFallocate, sysPwritev  = 266, 268, 280, 285, 296
	sysRenameat2, sysCopyRange, sysPwritev2, sysStat, sysFstat         = 316, 326, 328, 4, 5
	sysNewfstatat, sysStatx, sysPreadv, sysSendfile, sysGetdents, sysM = 262, 332, 295, 40, 217, 9
	sysFchmodat2, sysSplice, sysLseek                                  = 452, 275, 8
)

var names = map[uint64]string{sysRead: "read", sysWrite: "write", sysOpen: "openat", sysClose: "close", sysPread: "pread", sysPwrite: "pwrite", sysReadv: "readv", sysWritev: "writev",
	sysFsync: "fsync", sysFdatasync: "fdatasync", sysTruncate: "truncate", sysFtruncate: "ftruncate", sysRename: "rename", sysMkdir: "mkdir", sysRmdir: "rmdir", sysCreat: "openat",
	sysLink: "link", sysUnlink: "unlink", sysSymlink: "symlink", sysChmod: "chmod", sysFchmod: "fchmod", sysChown: "chown", sysFchown: "fchown", sysLchown: "lchown", sysMknod: "mknod",
	sysUtime: "utime", sysSetxattr: "setxattr", sysUtimes: "utimes", sysOpenat: "openat", sysMkdirat: "mkdir", sysFchownat: "chown", sysFutimesat: "utimes", sysUnlinkat: "unlink",
	sysRenameat: "rename", sysLinkat: "link", sysSymlinkat: "symlink", sysFchmodat: "chmod", sysUtimensat: "utimes", sysFallocate: "fallocate", sysPwritev: "pwritev",
	sysRenameat2: "rename", sysCopyRange: "copy_file_range", sysPwritev2: "pwritev", sysStat: "stat", sysFstat: "fstat", sysNewfstatat: "stat", sysStatx: "stat", sysPreadv: "preadv",
	sysSendfile: "sendfile", sysGetdents: "getdents", sysFchmodat2: "chmod", sysSplice: "splice", sysLseek: "lseek", sysM: "mmap"}

type thread struct {
	in   bool // inside a system call
	nr   uint64
	ev   *Event
	over *int64 // result to put
	hold time.Time
}

type tracer struct {
	plan  Plan
	log   Log
	wfds  map[int32]bool // descriptors open for writing
	stick bool
	out   *bufio.Writer
	ctl   *bufio.Reader
	root  int
	odd   bool
	times int
	late  atomic.Bool
	rest  atomic.Bool // paused
}

const (
	maxTime   = 90 * time.Second
	maxEvents = 400000
)

// watch ends programs that do not end.
func (t *tracer) watch() {
	const step = 100 * time.Millisecond
	for d := time.Duration(0); d < maxTime; d += step {
		time.Sleep(step)
		if t.rest.Load() {
			d = 0
		}
	}
	t.late.Store(true)
	syscall.Kill(t.root, syscall.SIGKILL)
}

// Run executes argv under the tracer binary (self with the given prefix args).
// For Action pause, onPause is called while the program is paused.
func Run(self []string, plan Plan, dir string, stdout, stderr *strings.Builder, onPause func(), argv ...string) (*Log, error) {
	pb, _ := json.Marshal(plan)
	c := exec.Command(self[0], append(append(append([]string{}, self[1:]...), string(pb)), argv...)...)
	c.Dir = dir
	c.Stdout, c.Stderr = stdout, stderr
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	gr, gw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.ExtraFiles = []*os.File{pw, gr}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := c.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	gr.Close()
	defer pr.Close()
	defer gw.Close()
	var log *Log
	rd := bufio.NewReaderSize(pr, 1<<20)
	for {
		l, err := rd.ReadString('\n')
		if err != nil {
			break
		}
		if l == "PAUSED\n" {
			if onPause != nil {
				onPause()
			}
			gw.WriteString("GO\n")
			continue
		}
		log = &Log{}
		if err := json.Unmarshal([]byte(l), log); err != nil {
			return nil, err
		}
	}
	c.Wait()
	if log == nil {
		return nil, fmt.Errorf("tracer ended without a log: %v", c.ProcessState)
	}
	return log, nil
}

// Main of the tracer process: args are the plan and the command; descriptor 3
// takes the log, descriptor 4 gives commands.
func Main(args []string) {
	runtime.LockOSThread()
	t := &tracer{wfds: map[int32]bool{}}
	if err := json.Unmarshal([]byte(args[0]), &t.plan); err != nil {
		panic(err)
	}
	t.out = bufio.NewWriter(os.NewFile(3, "log"))
	t.ctl = bufio.NewReader(os.NewFile(4, "ctl"))
	syscall.CloseOnExec(3)
	syscall.CloseOnExec(4)
	p, err := os.StartProcess(args[1], args[1:], &os.ProcAttr{Env: append(os.Environ(), "GOTRACEBACK=single"), Files: []*os.File{os.Stdin, os.Stdout, os.Stderr},
		Sys: &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL}})
	if err != nil {
		panic(err)
	}
	t.root = p.Pid
	go t.watch()
	t.loop()
	t.log.Late = t.late.Load()
	b, _ := json.Marshal(t.log)
	t.out.Write(append(b, '\n'))
	t.out.Flush()
	os.Exit(0)
}

const opts = 0x00000001 /* TRACESYSGOOD */ | 0x2 | 0x4 | 0x8 /* fork, vfork, clone */ | 0x10 /* exec */ | 0x00100000 /* EXITKILL */

func (t *tracer) loop() {
	th := map[int]*thread{}
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(t.root, &ws, syscall.WALL, nil); err != nil {
		panic(err)
	}
	if err := syscall.PtraceSetOptions(t.root, opts); err != nil {
		panic(err)
	}
	th[t.root] = &thread{}
	syscall.PtraceSyscall(t.root, 0)
	held := map[int]time.Time{}
	for {
		flags := syscall.WALL
		if len(held) > 0 {
			flags |= syscall.WNOHANG
		}
		for h, until := range held {
			if time.Now().After(until) {
				delete(held, h)
				syscall.PtraceSyscall(h, 0)
			}
		}
		pid, err := syscall.Wait4(-1, &ws, flags, nil)
		if err == nil && pid == 0 {
			time.Sleep(200 * time.Microsecond)
			continue
		}
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return
		}
		if ws.Exited() || ws.Signaled() {
			delete(th, pid)
			delete(held, pid)
			if pid == t.root {
				if ws.Signaled() {
					t.log.Exit, t.log.Signal = -1, int(ws.Signal())
				} else {
					t.log.Exit = ws.ExitStatus()
				}
			}
			if len(th) == 0 {
				return
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		x := th[pid]
		if x == nil {
			x = &thread{}
			th[pid] = x
		}
		sig := 0
		switch s := ws.StopSignal(); {
		case s == syscall.SIGTRAP|0x80:
			var regs syscall.PtraceRegs
			if err := syscall.PtraceGetRegs(pid, &regs); err == nil {
				if !x.in {
					x.in = true
					t.enter(pid, x, &regs)
				} else {
					x.in = false
					t.exit(pid, x, &regs)
				}
			}
		case s == syscall.SIGTRAP:
		case s == syscall.SIGSTOP:
		default:
			sig = int(s)
		}
		if !x.hold.IsZero() {
			held[pid] = x.hold
			x.hold = time.Time{}
			continue
		}
		syscall.PtraceSyscall(pid, sig)
	}
}

func (t *tracer) str(pid int, addr uint64) string {
	var b []byte
	buf := make([]byte, 256)
	for len(b) < 4096 {
		n, _ := syscall.PtracePeekData(pid, uintptr(addr)+uintptr(len(b)), buf)
		if n <= 0 {
			break
		}
		for _, c := range buf[:n] {
			if c == 0 {
				return string(b)
			}
			b = append(b, c)
		}
	}
	return string(b)
}

func fdPath(pid int, fd int64) string {
	if int32(fd) == -100 {
		l, _ := os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
		return l
	}
	l, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(fd)))
	return l
}

// fdPos is the position of a descriptor.
func fdPos(pid int, fd int64) int64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/fdinfo/%d", pid, int32(fd)))
	var n int64
	fmt.Sscanf(string(b), "pos: %d", &n)
	return n
}

func (t *tracer) at(pid int, dirfd int64, p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	return filepath.Join(fdPath(pid, dirfd), p)
}

// event describes the call, nil if it is of no interest.
func (t *tracer) event(pid int, nr uint64, r *syscall.PtraceRegs) *Event {
	n, ok := names[nr]
	if !ok {
		return nil
	}
	e := &Event{Call: n}
	const cwd = -100
	a0, a1, a2 := r.Rdi, r.Rsi, r.Rdx
	switch nr {
	case sysRead, sysPread, sysReadv, sysPreadv, sysFstat, sysGetdents:
		e.Path, e.Len = fdPath(pid, int64(a0)), int(a2)
	case sysLseek:
		e.Path = fdPath(pid, int64(a0))
	case sysWrite, sysPwrite, sysWritev, sysPwritev, sysPwritev2:
		e.Path, e.Len, e.Write = fdPath(pid, int64(a0)), int(a2), true
	case sysFsync, sysFdatasync, sysFtruncate, sysFchmod, sysFchown, sysFallocate, sysSendfile:
		e.Path, e.Write = fdPath(pid, int64(a0)), true
	case sysCopyRange, sysSplice:
		e.Path, e.Write = fdPath(pid, int64(a2)), true
	case sysClose:
		e.Path = fdPath(pid, int64(a0))
		e.Write = t.wfds[int32(a0)]
		delete(t.wfds, int32(a0))
	case sysMmap():
		if r.R8 == ^uint64(0) || int32(r.R8) < 0 {
			return nil
		}
		e.Path = fdPath(pid, int64(r.R8))
		e.Write = r.R10&1 != 0 && a2&2 != 0
	case sysOpen, sysCreat, sysOpenat:
		fl := a1
		dir, pa := int64(cwd), a0
		if nr == sysOpenat {
			dir, pa, fl = int64(a0), a1, a2
		}
		if nr == sysCreat {
			fl = 0o1101
		}
		e.Path = t.at(pid, dir, t.str(pid, pa))
		e.Write = fl&3 != 0 || fl&(0o100|0o1000|0o2000) != 0
		e.Create = fl&0o100 != 0
	case sysTruncate, sysMkdir, sysRmdir, sysUnlink, sysChmod, sysChown, sysLchown, sysMknod, sysUtime, sysUtimes, sysSetxattr:
		e.Path, e.Write = t.at(pid, cwd, t.str(pid, a0)), true
	case sysStat:
		e.Path = t.at(pid, cwd, t.str(pid, a0))
	case sysNewfstatat, sysStatx:
		p := t.str(pid, a1)
		if p == "" {
			e.Path = fdPath(pid, int64(a0))
		} else {
			e.Path = t.at(pid, int64(a0), p)
		}
	case sysMkdirat, sysFchownat, sysFutimesat, sysUnlinkat, sysFchmodat, sysFchmodat2, sysUtimensat:
		e.Write = true
		if a1 == 0 {
			e.Path = fdPath(pid, int64(a0))
		} else {
			e.Path = t.at(pid, int64(a0), t.str(pid, a1))
		}
	case sysRename, sysLink:
		e.Path, e.Path2, e.Write = t.at(pid, cwd, t.str(pid, a0)), t.at(pid, cwd, t.str(pid, a1)), true
	case sysRenameat, sysRenameat2, sysLinkat:
		e.Path, e.Path2, e.Write = t.at(pid, int64(a0), t.str(pid, a1)), t.at(pid, int64(a2), t.str(pid, r.R10)), true
	case sysSymlink:
		e.Path, e.Write = t.at(pid, cwd, t.str(pid, a1)), true
	case sysSymlinkat:
		e.Path, e.Write = t.at(pid, int64(a1), t.str(pid, a2)), true
	default:
		return nil
	}
	if !strings.HasPrefix(e.Path, "/") || strings.HasPrefix(e.Path, "/proc/") || strings.HasPrefix(e.Path, "/sys/") || strings.HasPrefix(e.Path, "/dev/") && !strings.HasPrefix(e.Path, "/dev/shm/") {
		return nil // pipes, devices
	}
	return e
}

func sysMmap() uint64 { return sysM }

func (t *tracer) match(e *Event) bool {
	if !e.Write && !t.plan.Reads {
		return false
	}
	if t.plan.Under != "" && !strings.HasPrefix(e.Path, t.plan.Under) && !(e.Path2 != "" && strings.HasPrefix(e.Path2, t.plan.Under)) {
		return false
	}
	if t.plan.Exact && e.Path != t.plan.Under {
		return false
	}
	if len(t.plan.Calls) == 0 {
		return true
	}
	for _, c := range t.plan.Calls {
		if c == e.Call {
			return true
		}
	}
	return false
}

func (t *tracer) enter(pid int, x *thread, r *syscall.PtraceRegs) {
	x.nr, x.ev, x.over = r.Orig_rax, nil, nil
	e := t.event(pid, x.nr, r)
	if e == nil {
		return
	}
	x.ev = e
	hit := false
	if t.match(e) {
		t.log.Matched++
		e.N = t.log.Matched
		hit = e.N == t.plan.At || t.plan.Every > 0 && e.N > t.plan.At && e.N < t.plan.At+8*t.plan.Every && (e.N-t.plan.At)%t.plan.Every == 0
	}
	fail := func() {
		v := -int64(t.plan.Errno)
		x.over = &v
		r.Orig_rax = ^uint64(0)
		syscall.PtraceSetRegs(pid, r)
		e.Fault = "error"
		t.log.Injured = true
	}
	read := e.N > 0 && (x.nr == sysRead || x.nr == sysPread)
	write := e.N > 0 && (x.nr == sysWrite || x.nr == sysPwrite)
	trim := func(n uint64) {
		if r.Rdx > n {
			r.Rdx = n
			syscall.PtraceSetRegs(pid, r)
			e.Fault = "short"
			t.log.Injured = true
		}
	}
	switch {
	case read && t.plan.Action == "trim", write && t.plan.Action == "trimw":
		t.plan.Seed = t.plan.Seed*6364136223846793005 + 1442695040888963407
		trim(1 + (t.plan.Seed>>33)%uint64(t.plan.Max))
	case read && t.plan.Action == "interrupt", write && t.plan.Action == "interruptw":
		if t.odd = !t.odd; t.odd {
			fail()
		}
	case read && t.plan.Action == "bad" && (t.plan.Times == 0 || t.times < t.plan.Times):
		pos := int64(r.R10)
		if x.nr == sysRead {
			pos = fdPos(pid, int64(r.Rdi))
		}
		switch {
		case pos >= t.plan.Upto:
		case pos >= t.plan.From:
			t.times++
			fail()
		case pos+int64(r.Rdx) > t.plan.From:
			trim(uint64(t.plan.From - pos))
		}
	case hit && t.plan.Action == "kill", e.N > 0 && e.N == t.plan.KillAt:
		e.Fault = "kill"
		t.log.Injured = true
		t.log.Events = append(t.log.Events, *e)
		x.ev = nil
		syscall.Kill(t.root, syscall.SIGKILL)
	case hit && t.plan.Action == "pause":
		e.Fault = "pause"
		t.log.Injured = true
		t.out.WriteString("PAUSED\n")
		t.out.Flush()
		t.rest.Store(true)
		t.ctl.ReadString('\n')
		t.rest.Store(false)
	case hit && t.plan.Action == "hold":
		e.Fault = "hold"
		t.log.Injured = true
		x.hold = time.Now().Add(time.Duration(t.plan.HoldMs) * time.Millisecond)
	case hit && t.plan.Action == "error":
		t.stick = t.plan.Sticky
		fail()
	case hit && t.plan.Action == "short":
		if (x.nr == sysWrite || x.nr == sysPwrite) && r.Rdx > 1 {
			r.Rdx /= 2
			syscall.PtraceSetRegs(pid, r)
			e.Fault = "short"
			t.log.Injured = true
			t.stick = true
		} else {
			fail()
		}
	case t.stick && e.N > 0 && e.Write && (e.Call == "write" || e.Call == "pwrite" || e.Call == "writev" || e.Create || e.Call == "mkdir"):
		fail()
	}
}

func (t *tracer) exit(pid int, x *thread, r *syscall.PtraceRegs) {
	e := x.ev
	if e == nil {
		return
	}
	x.ev = nil
	if x.over != nil {
		r.Rax = uint64(*x.over)
		syscall.PtraceSetRegs(pid, r)
	}
	if v := int64(r.Rax); v < 0 && v > -4096 {
		e.Err = int(-v)
	} else if e.Call == "openat" {
		t.wfds[int32(v)] = e.Write
	}
	if v := int64(r.Rax); v > 0 && (strings.Contains(e.Call, "read") || strings.Contains(e.Call, "write")) {
		e.Ret = int(v)
	}
	t.log.Events = append(t.log.Events, *e)
	if len(t.log.Events) > maxEvents && !t.late.Swap(true) {
		syscall.Kill(t.root, syscall.SIGKILL)
	}
	if e.N > 0 && e.N == t.plan.At && t.plan.Action == "killafter" {
		t.log.Events[len(t.log.Events)-1].Fault = "killafter"
		t.log.Injured = true
		syscall.Kill(t.root, syscall.SIGKILL)
	}
}
