// Package cli runs the tool as a user does and records what it did.
package cli

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Result of a run.
type Result struct {
	Args     []string
	Stdout   string
	Stderr   string
	Exit     int // -1 if killed by a signal
	Signal   syscall.Signal
	TimedOut bool
	MaxRSS   int64 // bytes
	Wall     time.Duration
	CPU      time.Duration
	StartErr error
	Alloc    uint64 // bytes allocated in all, if run in process
}

// Opt of a run.
type Opt struct {
	Dir     string
	Timeout time.Duration // default 60 s
	Env     []string      // added
	Wrap    []string      // command in front of the tool
	Uid     int           // run as that user if > 0
	MemMax  int64         // RLIMIT_AS is useless for Go; the harness kills above this RSS
	MaxOut  int           // cap of captured output, default 64 MiB
	In      *os.File      // standard input, /dev/null if nil
	Out     *os.File      // standard output, captured if nil
	ErrOut  *os.File      // standard error, captured if nil
	Beside  func()        // called once the tool was started
}

type capped struct {
	bytes.Buffer
	max int
	cut bool
}

func (c *capped) Write(p []byte) (int, error) {
	if c.Len()+len(p) > c.max {
		c.cut = true
		if room := c.max - c.Len(); room > 0 {
			c.Buffer.Write(p[:room])
		}
		return len(p), nil
	}
	return c.Buffer.Write(p)
}

// Run executes bin with args.
func Run(bin string, o Opt, args ...string) *Result {
	if o.Timeout == 0 {
		o.Timeout = 60 * time.Second
	}
	if o.MaxOut == 0 {
		o.MaxOut = 64 << 20
	}
	argv := append(append([]string{}, o.Wrap...), bin)
	argv = append(argv, args...)
	c := exec.Command(argv[0], argv[1:]...)
	c.Dir = o.Dir
	c.Env = append(os.Environ(), "GOTRACEBACK=single")
	c.Env = append(c.Env, o.Env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if o.Uid > 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(o.Uid), Gid: uint32(o.Uid)}
	}
	c.WaitDelay = 5 * time.Second
	out, errb := &capped{max: o.MaxOut}, &capped{max: o.MaxOut}
	c.Stdout, c.Stderr = out, errb
	if o.In != nil {
		c.Stdin = o.In
	}
	if o.Out != nil {
		c.Stdout = o.Out
	}
	if o.ErrOut != nil {
		c.Stderr = o.ErrOut
	}
	r := &Result{Args: args}
	start := time.Now()
	if err := c.Start(); err != nil {
		r.StartErr = err
		r.Exit = -1
		return r
	}
	if o.Beside != nil {
		o.Beside()
	}
	stop := make(chan bool)
	if o.MemMax > 0 {
		go watchMem(c.Process.Pid, o.MemMax, stop)
	}
	var late atomic.Bool
	t := time.AfterFunc(o.Timeout, func() {
		late.Store(true)
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	})
	c.Wait()
	t.Stop()
	close(stop)
	r.Wall = time.Since(start)
	r.Stdout, r.Stderr = out.String(), errb.String()
	st := c.ProcessState
	r.Exit = st.ExitCode()
	if ws, ok := st.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.Signal = ws.Signal()
	}
	if ru, ok := st.SysUsage().(*syscall.Rusage); ok {
		r.MaxRSS = ru.Maxrss * 1024
		r.CPU = time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
	}
	r.TimedOut = late.Load() && r.Signal != 0
	return r
}

// watchMem kills the process group of our own child when it grows beyond max.
func watchMem(pid int, max int64, stop chan bool) {
	page := int64(os.Getpagesize())
	for {
		select {
		case <-stop:
			return
		case <-time.After(20 * time.Millisecond):
		}
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
		if err != nil {
			continue
		}
		var size, rss int64
		fmt.Sscan(string(b), &size, &rss)
		if rss*page > max {
			syscall.Kill(-pid, syscall.SIGKILL)
		}
	}
}

// Crash tells whether the run ended in a way no command may end, and how.
func (r *Result) Crash() string {
	switch {
	case r.StartErr != nil:
		return "could not start: " + r.StartErr.Error()
	case r.TimedOut:
		return fmt.Sprintf("did not end within %v", r.Wall.Round(time.Second))
	case r.Signal != 0:
		return "killed by signal " + r.Signal.String()
	}
	for _, s := range []string{"panic: ", "fatal error: ", "goroutine 1 [", "WARNING: DATA RACE", "runtime: out of memory", "stack overflow"} {
		if i := strings.Index(r.Stderr, s); i >= 0 {
			return "crash: " + first(r.Stderr[i:], 300)
		}
	}
	if r.Exit != 0 && r.Exit != 1 && r.Exit != 2 {
		return fmt.Sprintf("exit status %d", r.Exit)
	}
	return ""
}

// Refused is nil if the run is a clean error: status 1, a message, no report.
func (r *Result) Refused() error {
	if c := r.Crash(); c != "" {
		return fmt.Errorf("%s", c)
	}
	if r.Exit == 0 {
		return fmt.Errorf("exit status 0, output %q", first(r.Stdout, 200))
	}
	if strings.TrimSpace(r.Stdout)+strings.TrimSpace(r.Stderr) == "" {
		return fmt.Errorf("exit status %d without any message", r.Exit)
	}
	if rep := LooksLikeReport(r.Stdout); rep != "" {
		return fmt.Errorf("exit status %d, but a report was printed: %s", r.Exit, rep)
	}
	return nil
}

// LooksLikeReport finds parts of reports in an output.
func LooksLikeReport(s string) string {
	for _, m := range []string{"Instances: ", "Total Size: ", "- Environment", "- Heap\n", "JVM Uptime", "<!DOCTYPE", "<html", "<table", "Class Name", ", prio="} {
		if i := strings.Index(s, m); i >= 0 {
			return first(s[i:], 80)
		}
	}
	return ""
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// First n bytes of s.
func First(s string, n int) string { return first(s, n) }

func (r *Result) String() string {
	return fmt.Sprintf("args %q exit %d signal %d stdout %q stderr %q", r.Args, r.Exit, int(r.Signal), first(r.Stdout, 400), first(r.Stderr, 300))
}
