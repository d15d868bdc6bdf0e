package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"vh/cli"
	"vh/fault"
	"vh/hp"
)

func init() {
	register("C29", "fault_enumeration",
		"histories of commands that print a report, are refused (truncated, foreign, unreadable dumps, obstacles), meet a failing file-system call (each of a build in turn: ENOSPC, EIO, EDQUOT, short writes; ptrace) or a full file system, or are killed at each file-system call; after every command that ended by itself the files next to the dump, in <dump>.db and in the temporary, home and working directories are compared with those of one plain analysis, and what killed commands left behind must be gone after the next report once it is more than a day old; files the tool did not make stay as they are; distinct by dump, history and fault",
		checkLeftovers)
}

// index lists the files of an index directory.
func index(db string) map[string]bool {
	out := map[string]bool{}
	filepath.Walk(db, func(p string, fi os.FileInfo, err error) error {
		if err == nil && p != db {
			rel, _ := filepath.Rel(db, p)
			out[rel] = true
		}
		return nil
	})
	return out
}

// beyond are the names of a that b does not have.
func beyond(a, b map[string]bool) (out []string) {
	for n := range a {
		if !b[n] {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return
}

// lair is a dump with its surroundings.
type lair struct {
	k     *Case
	t     *Truth
	home  string
	dump  string
	db    string
	plain map[string]bool // the index of a plain analysis
	mine  map[string]string
	hist  []string
	env   []string
}

func (k *Case) lair(t *Truth, plain map[string]bool) *lair {
	l := &lair{k: k, t: t, home: k.Path(fmt.Sprint("home", k.used)), plain: plain, mine: map[string]string{}}
	k.used++
	for _, d := range []string{"dump", "tmp", "cwd", "user"} {
		if err := os.MkdirAll(filepath.Join(l.home, d), 0o755); err != nil {
			fatal("%v", err)
		}
	}
	l.dump = filepath.Join(l.home, "dump", "d.hprof")
	l.db = l.dump + ".db"
	l.env = []string{"TMPDIR=" + filepath.Join(l.home, "tmp"), "HOME=" + filepath.Join(l.home, "user"), "XDG_CACHE_HOME=" + filepath.Join(l.home, "user")}
	l.write(t.Data)
	return l
}

func (l *lair) write(data []byte) {
	if err := os.WriteFile(l.dump, data, 0o644); err != nil {
		fatal("%v", err)
	}
	l.k.files["d.hprof"] = data
}

// own puts files of the user into the index directory.
func (l *lair) own(r *hp.Rng) {
	os.MkdirAll(l.db, 0o755)
	for _, n := range []string{"notes.txt", "instance-dump.idx.bin.bak", "backup.123/x", "small-records.bin.old.1", "1234", ".123", "a.b.99", "heap.idx.bin.7", "stamp.txt.orig", "meta.bin.old", "meta.bin.deadbeef", "small-records.bin.12ab", "stamp.txt.7x", "xmeta.bin.5", "meta.bin.5.txt", "prim-array-dump.idx.bin.5~", "meta.bin-5"} {
		if r.P(50) {
			p := filepath.Join(l.db, n)
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.WriteFile(p, []byte(n), 0o644)
			if d := filepath.Dir(n); d != "." {
				l.mine[d] = ""
			}
			l.mine[n] = n
		}
	}
}

// run a command without faults.
func (l *lair) run(v []string) *cli.Result {
	r := l.k.RunOpt(cli.Opt{Dir: filepath.Join(l.home, "cwd"), Env: l.env}, vargs(v, l.dump)...)
	l.hist = append(l.hist, fmt.Sprintf("%s (status %d)", vname(v), r.Exit))
	return r
}

// tidy looks around after a command that ended by itself.
func (l *lair) tidy() bool {
	k := l.k
	for _, d := range []string{"tmp", "cwd", "user"} {
		if es, _ := os.ReadDir(filepath.Join(l.home, d)); len(es) > 0 {
			k.Fail("%q: files are left in the %s directory: %v", l.hist, d, es)
			return false
		}
	}
	es, _ := os.ReadDir(filepath.Join(l.home, "dump"))
	for _, e := range es {
		if n := e.Name(); n != "d.hprof" && n != "d.hprof.db" {
			k.Fail("%q: %s is left next to the dump", l.hist, n)
			return false
		}
	}
	files := index(l.db)
	for n, text := range l.mine {
		if !files[n] {
			k.Fail("%q: %s, which is not of the tool, was removed", l.hist, n)
			return false
		}
		if b, err := os.ReadFile(filepath.Join(l.db, n)); err == nil && string(b) != text {
			k.Fail("%q: %s, which is not of the tool, was changed", l.hist, n)
			return false
		}
		delete(files, n)
	}
	if b := beyond(files, l.plain); len(b) > 0 {
		k.Fail("%q: there are other files than those of one index: %v", l.hist, b)
		return false
	}
	k.Obs("directories found tidy", 1)
	return true
}

// age makes everything in the index directory d old.
func (l *lair) age(d time.Duration) {
	t := time.Now().Add(-d)
	filepath.Walk(l.db, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			os.Chtimes(p, t, t)
		}
		return nil
	})
	l.hist = append(l.hist, fmt.Sprintf("[%v pass]", d))
}

// injure runs a command with a fault; killed ones leave what they leave.
func (l *lair) injure(v []string, p fault.Plan) (*fault.Log, *cli.Result) {
	p.Under = l.db
	k := l.k
	// the tracer hands its environment down
	args := append(append([]string{}, l.env...), append([]string{k.Bin}, vargs(v, l.dump)...)...)
	lg, r := k.tracedBin("/usr/bin/env", p, filepath.Join(l.home, "cwd"), nil, args...)
	what := p.Action
	for _, e := range lg.Events {
		if e.Fault != "" {
			what += fmt.Sprintf(" %s of %s", e.Call, filepath.Base(e.Path))
			break
		}
	}
	l.hist = append(l.hist, fmt.Sprintf("%s (%s, call %d, errno %d, status %d)", vname(v), what, p.At, p.Errno, r.Exit))
	return lg, r
}

// last tells whether the report is right and all is tidy.
func (l *lair) last(v []string) bool {
	if err := l.t.Right(v, l.run(v)); err != nil {
		l.k.Fail("%q: %v", l.hist, err)
		return false
	}
	return l.tidy()
}

func checkLeftovers(c *Ctx) {
	errnos := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EACCES}
	days := func(k *Case) time.Duration {
		return hp.Pick(k.R, 25*time.Hour, 30*time.Hour, 72*time.Hour, 24*365*time.Hour, 24*9000*time.Hour)
	}
	// the files of a plain analysis are the same for every command
	plainOf := func(k *Case, t *Truth) map[string]bool {
		l := k.lair(t, nil)
		defer os.RemoveAll(l.home)
		v := three[k.R.N(3)]
		if err := t.Right(v, l.run(v)); err != nil {
			k.Fail("%v", err)
			return nil
		}
		l.plain = index(l.db)
		k.Max("files of an index", len(l.plain))
		if !l.tidy() {
			return nil
		}
		return l.plain
	}
	// each call of a build fails, each call kills
	c.One("every", 0, func(k *Case) {
		for d := 0; d < c.Pick(1, 12); d++ {
			if d > 0 && c.Over() {
				break
			}
			t := k.smallDump(fmt.Sprint("every", d), three)
			if t == nil {
				return
			}
			plain := plainOf(k, t)
			if plain == nil {
				return
			}
			v := three[d%3]
			n := k.events(t.Data, v, false)
			k.Max("calls of a build", n)
			kinds := []fault.Plan{{Action: "error"}, {Action: "short"}, {Action: "kill"}, {Action: "killafter"}}
			c.CasesFor(fmt.Sprint("call", d), len(kinds)*n, len(kinds)*n, 1, func(k *Case) {
				p := kinds[k.N%len(kinds)]
				p.At = 1 + k.N/len(kinds)
				p.Errno = int(errnos[(k.N/len(kinds))%len(errnos)])
				l := k.lair(t, plain)
				if k.R.P(30) {
					l.own(k.R)
				}
				lg, r := l.injure(v, p)
				if !lg.Injured {
					k.Obs("faults that were not reached", 1)
					return
				}
				removal := false
				for _, e := range lg.Events {
					removal = removal || e.Fault == "error" && e.Call == "unlink"
				}
				switch {
				case strings.HasPrefix(p.Action, "kill"):
					k.Max("files left by a killed command", len(index(l.db)))
					k.Obs("commands killed", 1)
					if n := len(beyond(index(l.db), plain)); n > 0 {
						k.Obs("killed commands that left something", 1)
					}
				case removal: // it could not be removed
				default:
					if p.Action == "error" && r.Exit != 0 {
						k.Obs("commands that failed", 1)
					}
					if !l.tidy() {
						return
					}
				}
				if !strings.HasPrefix(p.Action, "kill") && !removal {
					// at once
					if !l.last(three[k.R.N(3)]) {
						return
					}
				} else {
					if k.R.P(40) { // recent ones may belong to somebody
						w := three[k.R.N(3)]
						if err := t.Right(w, l.run(w)); err != nil {
							k.Fail("%q: %v", l.hist, err)
							return
						}
					}
					l.age(days(k))
					if !l.last(three[k.R.N(3)]) {
						return
					}
				}
				k.Eval(fmt.Sprint("every", d, p))
			})
		}
	})
	// a file system that is full
	c.leftFull()
	// dumps that are refused, in any order with those that are not
	c.CasesFor("history", 60, c.Pick(1000000, 10000000), 1, func(k *Case) {
		t := k.smallDump("d", full)
		if t == nil {
			return
		}
		plain := plainOf(k, t)
		if plain == nil {
			return
		}
		l := k.lair(t, plain)
		if k.R.P(30) {
			l.own(k.R)
		}
		dirty := false // killed commands left something that is recent
		for i := 3 + k.R.N(8); i > 0; i-- {
			v := full[k.R.N(len(full))]
			switch k.R.N(8) {
			case 0, 1: // fine
				r := l.run(v)
				if err := t.Right(v, r); err != nil {
					k.Fail("%q: %v", l.hist, err)
					return
				}
			case 2: // truncated
				n := hp.Pick(k.R, append([]int{0, 5, 30, len(t.Data) - 1}, t.M.Bounds...)...)
				n = min(n, len(t.Data)-1)
				l.write(t.Data[:n])
				r := l.run(v)
				if r.Exit == 0 {
					k.Fail("%q: a dump cut to %d of %d bytes was not refused", l.hist, n, len(t.Data))
					return
				}
				l.hist = append(l.hist, fmt.Sprintf("[the dump was cut to %d bytes]", n))
				l.write(t.Data)
			case 3: // not a dump, or none
				if k.R.P(50) {
					l.write([]byte(strings.Repeat("no dump ", k.R.N(100))))
				} else {
					os.Remove(l.dump)
				}
				r := l.run(v)
				if r.Exit == 0 {
					k.Fail("%q: something that is no dump was not refused", l.hist)
					return
				}
				l.write(t.Data)
			case 4, 5: // failures
				p := fault.Plan{At: 1 + k.R.N(75), Action: hp.Pick(k.R, "error", "short"), Errno: int(hp.Pick(k.R, errnos...))}
				lg, _ := l.injure(v, p)
				for _, e := range lg.Events {
					if e.Fault == "error" && e.Call == "unlink" {
						dirty = true
					}
				}
			default: // kills
				lg, _ := l.injure(v, fault.Plan{At: 1 + k.R.N(75), Action: hp.Pick(k.R, "kill", "killafter")})
				if lg.Injured {
					dirty = true
				}
			}
			if dirty && k.R.P(50) {
				l.age(days(k))
				// it is for the next one that prints a report to clean up
				if k.R.P(60) {
					if !l.last(full[k.R.N(len(full))]) {
						return
					}
					dirty = false
				}
			}
			if !dirty && !l.tidy() {
				return
			}
		}
		l.age(days(k))
		if l.last(full[k.R.N(len(full))]) {
			k.Eval(fmt.Sprint("history", k.N, l.hist))
			if k.N < 2 {
				k.Sample(l.hist)
			}
		}
	})
}

// leftFull looks at small file systems after commands that found them full.
func (c *Ctx) leftFull() {
	bad := false
	c.CasesFor("full", 24, c.Pick(60, 2000), 0.3, func(k *Case) {
		if bad {
			return
		}
		o := small(k.R)
		if k.R.P(40) {
			o.Objects = 1000 + k.R.N(6000)
		}
		_, x, m := Gen(k.Seed, fmt.Sprint("C29full", k.N), o, hp.RandomEnc(k.R, idSize(k.R)))
		t := k.Truth("full", x.Data, m, three)
		if t == nil {
			return
		}
		v := three[k.R.N(3)]
		r, _, _, need, inodes := k.onSmall(t, v, "size=1g,nr_inodes=1000")
		if r == nil {
			bad = true
			k.Note("no file system can be mounted here, full ones are only simulated")
			return
		}
		if err := t.Right(v, r); err != nil {
			k.Fail("on tmpfs: %v", err)
			return
		}
		plain := map[string]bool{}
		for _, n := range k.left() {
			plain[n] = true
		}
		for i := 0; i < 3; i++ {
			opt := fmt.Sprintf("size=%dk,nr_inodes=1000", 4*(1+k.R.N(max(need/4, 1))))
			if k.R.P(30) {
				opt = fmt.Sprintf("size=1g,nr_inodes=%d", 4+k.R.N(max(inodes-3, 1)))
			}
			r, _, _, _, _ = k.onSmall(t, v, opt)
			if r == nil {
				k.Obs("file systems that could not be made", 1)
				continue
			}
			for _, n := range k.left() {
				if !plain[n] {
					k.Fail("%s on a file system with %s ended with status %d and left %s, which is not of an index", vname(v), opt, r.Exit, n)
					return
				}
			}
			k.Obs("full file systems found tidy", b2i(r.Exit != 0))
			k.Eval(fmt.Sprint("full", k.N, opt))
		}
	})
}

// left are the files that the first command of onSmall left.
func (k *Case) left() (out []string) {
	b, _ := os.ReadFile(filepath.Join(k.Path("out"), "left"))
	for _, l := range strings.Split(string(b), "\n") {
		if _, p, ok := strings.Cut(l, "\t"); ok && !strings.HasSuffix(p, "d.hprof.db") {
			out = append(out, filepath.Base(p))
		}
	}
	return
}
