package main

import (
	"bufio"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"vh/cli"
)

// server runs commands in one process of the tool's code. A case that fails
// there is repeated with the tool itself, only what fails again is a violation.
type server struct {
	cmd      *exec.Cmd
	jobs     *os.File
	replies  *bufio.Reader
	rep      *os.File
	out, err *os.File
}

type serverPool struct {
	mu   sync.Mutex
	bin  string
	dir  string
	free []*server
	all  []*server
	bad  int
}

type served struct {
	Exit  int
	Err   string
	Alloc uint64
}

func (p *serverPool) get() *server {
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		s := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return s
	}
	p.mu.Unlock()
	s := &server{}
	jr, jw, e1 := os.Pipe()
	rr, rw, e2 := os.Pipe()
	of, e3 := os.CreateTemp(p.dir, "served-out")
	ef, e4 := os.CreateTemp(p.dir, "served-err")
	for _, e := range []error{e1, e2, e3, e4} {
		if e != nil {
			fatal("server: %v", e)
		}
	}
	os.Remove(of.Name())
	os.Remove(ef.Name())
	for _, f := range []*os.File{of, ef} { // the position is shared
		if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, f.Fd(), syscall.F_SETFL, syscall.O_APPEND); e != 0 {
			fatal("server: %v", e)
		}
	}
	s.cmd = exec.Command(p.bin)
	s.cmd.Stdout, s.cmd.Stderr = of, ef
	s.cmd.ExtraFiles = []*os.File{jr, rw}
	s.cmd.Dir = filepath.Dir(of.Name())
	s.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2")
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := s.cmd.Start(); err != nil {
		fatal("server: %v", err)
	}
	limit := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(s.cmd.Process.Pid), rlimitData, uintptr(unsafe.Pointer(&limit)), 0, 0, 0)
	jr.Close()
	rw.Close()
	s.jobs, s.rep, s.replies, s.out, s.err = jw, rr, bufio.NewReader(rr), of, ef
	p.mu.Lock()
	p.all = append(p.all, s)
	p.mu.Unlock()
	if _, err := s.reply(30 * time.Second); err != nil {
		p.drop(s)
		return nil
	}
	return s
}

func (s *server) reply(limit time.Duration) (*served, error) {
	s.rep.SetReadDeadline(time.Now().Add(limit))
	l, err := s.replies.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var r served
	return &r, json.Unmarshal(l, &r)
}

func (p *serverPool) drop(s *server) {
	syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
	s.cmd.Wait()
	for _, f := range []*os.File{s.jobs, s.rep, s.out, s.err} {
		f.Close()
	}
	p.mu.Lock()
	p.all = slices.DeleteFunc(p.all, func(x *server) bool { return x == s })
	p.mu.Unlock()
}

func (p *serverPool) close() {
	p.mu.Lock()
	all := slices.Clone(p.all)
	p.mu.Unlock()
	for _, s := range all {
		p.drop(s)
	}
}

// run is nil if it could not be run there.
func (p *serverPool) run(o cli.Opt, args []string) *cli.Result {
	s := p.get()
	if s == nil {
		return nil
	}
	if o.Timeout == 0 {
		o.Timeout = 60 * time.Second
	}
	if o.MaxOut == 0 {
		o.MaxOut = 64 << 20
	}
	b, _ := json.Marshal(args)
	start := time.Now()
	r := &cli.Result{Args: args}
	var rep *served
	_, err := s.jobs.Write(append(b, '\n'))
	if err == nil {
		rep, err = s.reply(o.Timeout)
	}
	r.Wall = time.Since(start)
	r.Stdout, r.Stderr = contents(s.out, o.MaxOut), contents(s.err, o.MaxOut)
	if err != nil {
		r.Exit, r.Signal = -1, syscall.SIGKILL
		r.TimedOut = os.IsTimeout(err)
		p.drop(s)
		return r
	}
	r.Exit, r.Alloc = rep.Exit, rep.Alloc
	r.Stderr += rep.Err
	s.out.Truncate(0)
	s.err.Truncate(0)
	p.mu.Lock()
	p.free = append(p.free, s)
	p.mu.Unlock()
	return r
}

func contents(f *os.File, limit int) string {
	b, err := io.ReadAll(io.NewSectionReader(f, 0, int64(limit)))
	if err != nil {
		fatal("server: %v", err)
	}
	return string(b)
}

// servable tells whether the server can do what is asked for.
func servable(o cli.Opt, args []string) bool {
	if o.Wrap != nil || o.In != nil || o.Out != nil || o.ErrOut != nil || o.Beside != nil || o.Uid != 0 || o.MemMax != 0 || len(o.Env) > 0 || len(args) < 3 {
		return false
	}
	// as Args and vargs make them
	if !slices.Contains([]string{"threads", "summary", "objects"}, args[0]) || args[1] != "--hprof" || !filepath.IsAbs(args[2]) || !slices.Contains(args, "--non-interactive") {
		return false
	}
	for i, a := range args[3:] {
		switch a {
		case "--non-interactive", "--no-color", "--local-vars", "--all-props", "--output", "--sort-by":
		case "plain", "html":
			if args[3+i-1] != "--output" {
				return false
			}
		case "count", "size":
			if args[3+i-1] != "--sort-by" {
				return false
			}
		default:
			return false
		}
	}
	return true
}
