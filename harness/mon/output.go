package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"vh/cli"
	"vh/fault"
	"vh/hp"
)

func init() {
	register("C28", "fault_enumeration",
		"every write of a command to its standard output fails in turn (ptrace: ENOSPC, EIO, EDQUOT, EFBIG, EPIPE; cleanly or after a short write), for all commands, plain, coloured and HTML; /dev/full; real file systems with room for any part of the report; readers that close a pipe or socket after any number of bytes; such a command must not end with status 0; writes that are short or interrupted only, slow readers, non-blocking pipes and sockets must not matter: the report is complete, byte for byte; the index must be usable afterwards; distinct by dump, command, place and kind of fault",
		checkOutput)
}

// style adds how the report is shown.
func style(r *hp.Rng, v []string) []string {
	a := append([]string{v[0]}, v[1:]...)
	if r.P(97) { // the display takes a second
		a = append(a, "--non-interactive")
	}
	switch r.N(5) {
	case 0, 1:
		a = append(a, "--no-color")
	case 2, 3:
		a = append(a, "--output", "html")
	}
	return a
}

// toFile runs a command under the tracer with its output in a file; the plan
// is for the writes to that file.
func (k *Case) toFile(p fault.Plan, dir string, v []string, dump string) (*fault.Log, *cli.Result, string) {
	out := filepath.Join(dir, "out.txt")
	p.Under, p.Exact, p.Calls = out, true, []string{"write", "pwrite", "writev", "pwritev", "sendfile", "copy_file_range"}
	lg, r := k.tracedBin("/bin/sh", p, dir, nil, append([]string{"-c", `out=$1; shift; exec "$@" > "$out"`, "sh", out, k.Bin}, withDump(v, dump)...)...)
	b, err := os.ReadFile(out)
	if err != nil {
		fatal("%v", err)
	}
	r.Stdout = string(b)
	return lg, r, out
}

// lost checks a command whose output did not arrive.
func lost(r *cli.Result) error {
	if r.Signal == syscall.SIGPIPE {
		return nil
	}
	if c := r.Crash(); c != "" {
		return fmt.Errorf("%s", c)
	}
	if r.Exit == 0 {
		return fmt.Errorf("exit status 0")
	}
	return nil
}

func checkOutput(c *Ctx) {
	errnos := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG, syscall.EPIPE}
	after := func(k *Case, w *wanted, dump, what string) bool {
		v := append([]string{}, hp.Pick(k.R, three...)...)
		v = append([]string{v[0], "--non-interactive", "--no-color"}, v[1:]...)
		want, ok := w.of(v)
		if !ok {
			return false
		}
		r := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, withDump(v, dump)...)
		if r.Exit != 0 || r.Stdout != want {
			k.Fail("%s: later %s is not right: exit status %d, %s", what, vname(v), r.Exit, firstDiff(r.Stdout, want))
			return false
		}
		return true
	}
	// every write of every kind of report
	c.CasesFor("write", 24, c.Pick(100000, 1000000), 0.35, func(k *Case) {
		_, x, m := Gen(k.Seed, fmt.Sprint("C28write", k.N), talkative(k.R), hp.RandomEnc(k.R, idSize(k.R)))
		w := k.wanted(x.Data, m)
		dump := k.place("d", x.Data)
		dir := filepath.Dir(dump)
		for i := 0; i < 4; i++ {
			v := style(k.R, full[(k.N+i)%len(full)])
			want, ok := w.of(v)
			if !ok {
				return
			}
			// undisturbed: how many writes
			lg, r, _ := k.toFile(fault.Plan{}, dir, v, dump)
			if r.Exit != 0 || r.Stdout != want {
				k.Fail("%s to a file: exit status %d, %s", vname(v), r.Exit, firstDiff(r.Stdout, want))
				return
			}
			n := lg.Matched
			k.Max("writes of a report", n)
			at := 1 + k.R.N(max(n, 1))
			switch k.R.N(4) {
			case 0:
				at = n
			case 1:
				at = 1
			}
			p := fault.Plan{At: at, Action: hp.Pick(k.R, "error", "error", "short"), Errno: int(hp.Pick(k.R, errnos...)), Sticky: k.R.P(60)}
			lg, r, _ = k.toFile(p, dir, v, dump)
			what := fmt.Sprintf("%s, write %d of %d to standard output fails (%s, %v, sticky %v)", vname(v), at, n, p.Action, syscall.Errno(p.Errno), p.Sticky)
			if !lg.Injured {
				fatal("%s: no fault", what)
			}
			if err := lost(r); err != nil {
				k.Fail("%s: %v, %s", what, err, firstDiff(r.Stdout, want))
				return
			}
			k.Obs("failing writes", 1)
			k.Seen("errors", syscall.Errno(p.Errno).Error())
			if !after(k, w, dump, what) {
				return
			}
			k.Eval(fmt.Sprint("write", len(x.Data), v, p))
		}
	})
	// short and interrupted writes do not matter
	c.CasesFor("short", 16, c.Pick(100000, 1000000), 0.3, func(k *Case) {
		_, x, m := Gen(k.Seed, fmt.Sprint("C28short", k.N), talkative(k.R), hp.RandomEnc(k.R, idSize(k.R)))
		w := k.wanted(x.Data, m)
		if !w.sure(full[k.R.N(len(full))]) {
			return
		}
		dump := k.place("d", x.Data)
		for i := 0; i < 3; i++ {
			v := style(k.R, full[k.R.N(len(full))])
			want, ok := w.of(v)
			if !ok {
				return
			}
			p := fault.Plan{Action: hp.Pick(k.R, "trimw", "trimw", "interruptw"), Errno: int(syscall.EINTR), Seed: k.R.Uint64()}
			p.Max = max(hp.Pick(k.R, 1, 7, 100, 1000, 4000), len(want)/400)
			lg, r, _ := k.toFile(p, filepath.Dir(dump), v, dump)
			if r.Exit != 0 || r.Stdout != want {
				k.Fail("%s, writes of at most %d bytes succeed (%s): exit status %d, %s", vname(v), p.Max, p.Action, r.Exit, firstDiff(r.Stdout, want))
				return
			}
			k.Obs("short and interrupted writes", lg.Matched)
			k.Eval(fmt.Sprint("short", len(x.Data), v, p))
		}
	})
	c.CasesFor("devfull", 12, c.Pick(300, 5000), 0.2, func(k *Case) {
		_, x, m := Gen(k.Seed, fmt.Sprint("C28full", k.N), small(k.R), hp.RandomEnc(k.R, idSize(k.R)))
		w := k.wanted(x.Data, m)
		dump := k.place("d", x.Data)
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			fatal("%v", err)
		}
		defer f.Close()
		for i := 0; i < 6; i++ {
			v := style(k.R, full[i])
			r := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump), Out: f}, withDump(v, dump)...)
			if err := lost(r); err != nil {
				k.Fail("%s to /dev/full: %v", vname(v), err)
				return
			}
			k.Obs("commands that wrote to /dev/full", 1)
			k.Eval(fmt.Sprint("devfull", k.N, v))
		}
		after(k, w, dump, "after /dev/full")
	})
	c.tmpfsOutput()
	// readers that go away, that are slow
	c.CasesFor("reader", 40, c.Pick(100000, 1000000), 1, func(k *Case) {
		_, x, m := Gen(k.Seed, fmt.Sprint("C28reader", k.N), talkative(k.R), hp.RandomEnc(k.R, idSize(k.R)))
		w := k.wanted(x.Data, m)
		dump := k.place("d", x.Data)
		for i := 0; i < 5; i++ {
			v := style(k.R, full[k.R.N(len(full))])
			want, ok := w.of(v)
			if !ok {
				return
			}
			kind := hp.Pick(k.R, "pipe", "pipe", "nonblocking pipe", "socket", "nonblocking socket")
			near, far, fd, room := k.channel(kind)
			o := cli.Opt{Dir: filepath.Dir(dump), Out: far, Timeout: 60 * time.Second}
			// the mode is of the open file, os/exec resets it before the start
			var hold, release *os.File
			if strings.HasPrefix(kind, "nonblocking") {
				hold, release, _ = os.Pipe()
				o.In = hold
				o.Wrap = []string{"/bin/sh", "-c", `read x; exec "$@" < /dev/null`, "sh"}
			}
			leave := k.R.P(60)
			upto := k.R.N(len(want) + 1)
			if k.R.P(25) {
				upto = 0
			}
			pace := hp.Pick(k.R, 0, 0, 50, 400)
			chunk := max(hp.Pick(k.R, 100, 1000, 5000, 70000), len(want)/300)
			got := make(chan string)
			o.Beside = func() {
				if release != nil {
					syscall.SetNonblock(fd, true)
					release.WriteString("\n")
					release.Close()
					hold.Close()
				}
				far.Close() // only the tool has it now
				go func() {
					var b []byte
					buf := make([]byte, chunk)
					for {
						want := len(buf)
						if leave {
							want = min(want, upto-len(b))
							if want == 0 {
								break
							}
						}
						n, err := near.Read(buf[:want])
						b = append(b, buf[:n]...)
						if err != nil {
							break
						}
						time.Sleep(time.Duration(pace) * time.Microsecond)
					}
					near.Close()
					got <- string(b)
				}()
			}
			r := k.RunOpt(o, withDump(v, dump)...)
			if r.StartErr != nil {
				fatal("%v", r.StartErr)
			}
			r.Stdout = <-got
			what := fmt.Sprintf("%s to a %s", vname(v), kind)
			switch {
			case !leave:
				if r.Exit != 0 || r.Crash() != "" || r.Stdout != want {
					k.Fail("%s read slowly (%d bytes at once): exit status %d, signal %v, %s", what, chunk, r.Exit, r.Signal, firstDiff(r.Stdout, want))
					return
				}
				k.Obs("slow readers", 1)
			case len(want) > upto+room:
				if err := lost(r); err != nil {
					k.Fail("%s that was closed after %d of %d bytes: %v", what, upto, len(want), err)
					return
				}
				if !strings.HasPrefix(want, r.Stdout) {
					k.Fail("%s that was closed after %d of %d bytes: %s", what, upto, len(want), firstDiff(r.Stdout, want))
					return
				}
				k.Obs("readers that left", 1)
			default:
				if r.Signal != syscall.SIGPIPE && r.Crash() != "" {
					k.Fail("%s that was closed after %d of %d bytes: %s", what, upto, len(want), r.Crash())
					return
				}
				k.Obs("readers that left when the rest was in the pipe", 1)
			}
			k.Seen("kinds of output", kind)
			if !after(k, w, dump, what) {
				return
			}
			k.Eval(fmt.Sprint("reader", len(x.Data), v, kind, leave, upto, chunk))
		}
	})
}

// channel makes a small one: the reader's end, the tool's end, and the most
// bytes that it holds.
func (k *Case) channel(kind string) (near, far *os.File, fd, room int) {
	var fds [2]int
	room = 1 << 20
	if strings.HasSuffix(kind, "pipe") {
		if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
			fatal("%v", err)
		}
		if n, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fds[1]), 1031, 4096); e == 0 { // F_SETPIPE_SZ
			room = int(n)
		}
	} else {
		var err error
		if fds, err = syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0); err != nil {
			fatal("%v", err)
		}
		syscall.SetsockoptInt(fds[1], syscall.SOL_SOCKET, syscall.SO_SNDBUF, 4096)
		syscall.SetsockoptInt(fds[0], syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096)
		room = 1 << 16
	}
	return os.NewFile(uintptr(fds[0]), "near"), os.NewFile(uintptr(fds[1]), "far"), fds[1], room
}

const roomScript = `
set -u
d=$1; opt=$2; out=$3; shift 3
mount -t tmpfs -o "$opt" none "$d" || { echo mount > "$out/nomount"; exit 0; }
"$@" > "$d/report" 2> "$out/e"; echo $? > "$out/s"
cat "$d/report" > "$out/o"
umount "$d"
exit 0
`

// tmpfsOutput writes reports to file systems that are too small.
func (c *Ctx) tmpfsOutput() {
	bad := false
	c.CasesFor("room", 16, c.Pick(200, 5000), 0.4, func(k *Case) {
		if bad {
			return
		}
		_, x, m := Gen(k.Seed, fmt.Sprint("C28room", k.N), talkative(k.R), hp.RandomEnc(k.R, idSize(k.R)))
		w := k.wanted(x.Data, m)
		dump := k.place("d", x.Data)
		d, out := k.Path("tmpfs"), k.Path("out")
		os.MkdirAll(d, 0o755)
		for i := 0; i < 3; i++ {
			v := style(k.R, full[k.R.N(len(full))])
			want, ok := w.of(v)
			if !ok {
				return
			}
			pages := (len(want) + 4095) / 4096
			limit := 1 + k.R.N(pages+1)
			if limit > 1 && k.R.P(40) {
				limit = pages - k.R.N(2)
			}
			os.RemoveAll(out)
			os.MkdirAll(out, 0o755)
			limit = max(limit, 1)
			args := append([]string{"-c", roomScript, "sh", d, fmt.Sprintf("size=%dk,nr_inodes=10", limit*4), out, k.Bin}, withDump(v, dump)...)
			cli.Run("/bin/sh", cli.Opt{Dir: filepath.Dir(dump), Wrap: []string{"unshare", "-Urm"}}, args...)
			rd := func(n string) string { b, _ := os.ReadFile(filepath.Join(out, n)); return string(b) }
			if rd("nomount") != "" || rd("s") == "" {
				bad = true
				k.Note("no file system can be mounted here, full ones are only simulated")
				return
			}
			r := &cli.Result{Args: append([]string{fmt.Sprintf("[to a file system of %d KiB]", limit*4)}, v...), Stdout: rd("o"), Stderr: rd("e")}
			fmt.Sscan(rd("s"), &r.Exit)
			k.mu.Lock()
			k.runs = append(k.runs, r)
			k.mu.Unlock()
			k.Ctx.runs.Add(1)
			what := fmt.Sprintf("%s of %d bytes to a file system of %d", vname(v), len(want), limit*4096)
			if r.Exit == 0 && r.Stdout != want {
				k.Fail("%s: exit status 0, but %s", what, firstDiff(r.Stdout, want))
				return
			}
			if r.Exit != 0 && limit >= pages {
				k.Fail("%s: exit status %d although there is room", what, r.Exit)
				return
			}
			if c := r.Crash(); c != "" {
				k.Fail("%s: %s", what, c)
				return
			}
			k.Obs("file systems that were too small for the report", b2i(limit < pages))
			k.Eval(fmt.Sprint("room", len(x.Data), v, limit))
		}
	})
}
