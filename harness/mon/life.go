package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"vh/cli"
	"vh/fault"
	"vh/hp"
	"vh/ref"
)

func init() {
	register("C14", "exploration",
		"random sequences of 4 to 12 commands with all options (colour, HTML, sorting, locals, properties, interactive) on one dump, named by plain, odd, relative and linked paths, each report compared byte for byte with the one of the same command on a fresh copy; after each command the dump (bytes, mode, times, inode) and every file outside <dump>.db are compared with what they were; some commands run under a system-call monitor that records every call that could change a file; distinct by dump and sequence",
		checkReuse)
}

// tree describes every file under dir, except those under one of skip.
func tree(dir string, skip ...string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			out[p] = err.Error()
			return nil
		}
		for _, s := range skip {
			if p == s {
				if fi.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
		}
		st := fi.Sys().(*syscall.Stat_t)
		d := fmt.Sprintf("%v uid %d ino %d", fi.Mode(), st.Uid, st.Ino)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			d += " -> " + l
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			d += fmt.Sprintf(" size %d mtime %d sha %x", fi.Size(), fi.ModTime().UnixNano(), sha256.Sum256(b))
		}
		out[p] = d
		return nil
	})
	return out
}

func diffTree(a, b map[string]string) string {
	var out []string
	for p, d := range a {
		if e, ok := b[p]; !ok {
			out = append(out, "removed: "+p)
		} else if d != e {
			out = append(out, fmt.Sprintf("changed: %s: %s, was %s", p, e, d))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, "created: "+p)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// command is a random command with random options; the arguments without the dump.
func command(r *hp.Rng) []string {
	v := []string{hp.Pick(r, "threads", "summary", "objects")}
	opt := func(p int, s ...string) {
		if r.P(p) {
			v = append(v, s...)
		}
	}
	opt(60, "--no-color")
	opt(85, "--non-interactive")
	opt(35, "--output", hp.Pick(r, "plain", "html", "html"))
	switch v[0] {
	case "threads":
		opt(60, "--local-vars")
	case "summary":
		opt(60, "--all-props")
	case "objects":
		opt(60, "--sort-by", hp.Pick(r, "size", "size", "count"))
	}
	return v
}

func checkReuse(c *Ctx) {
	c.Cases("sequence", 60, c.Pick(1000000, 10000000), func(k *Case) {
		r := k.R
		o := hp.RandomOpts(r)
		_, x, m := Gen(k.Seed, fmt.Sprint("C14", k.N), o, hp.RandomEnc(r, idSize(r)))
		// a place of its own with neighbours nobody may touch
		home := k.Path("home")
		for _, d := range []string{"home/sub", "home/other", "home/tmp"} {
			if err := os.MkdirAll(k.Path(d), 0o755); err != nil {
				fatal("%v", err)
			}
		}
		name := hp.Pick(r, "d.hprof", "heap dump.hprof", "dump", ".hidden.hprof", "d.hprof.db.hprof", "été.hprof", "d.db", "java_pid1.hprof", "-x.hprof", "a b'c\"d.hprof", "%s%d.hprof")
		real := filepath.Join(home, "sub", name)
		k.files["d.hprof"] = x.Data
		os.WriteFile(real, x.Data, os.FileMode(hp.Pick(r, 0o644, 0o600, 0o444, 0o400)))
		old := time.Now().Add(-time.Duration(r.N(1e6)) * time.Second)
		os.Chtimes(real, old, old)
		os.WriteFile(filepath.Join(home, "other", "d.hprof"), x.Data, 0o644)
		os.WriteFile(filepath.Join(home, "sub", name+".dbx"), []byte("x"), 0o644)
		os.WriteFile(filepath.Join(home, "sub", "instance-dump.idx.bin"), []byte("x"), 0o644)
		os.WriteFile(filepath.Join(home, "sub", "stamp.txt"), []byte("x"), 0o644)
		// names as the tool uses them in its own directory, and old
		long := time.Now().Add(-90 * 24 * time.Hour)
		for _, d := range []string{"home/sub", "home/other", "home/tmp", "home"} {
			for _, n := range []string{"small-records.bin.12345", "meta.bin.1", "instance-dump.idx.bin.99", "stamp.txt.4711", name + ".77", "obj-array-dump.idx.bin.3", "prim-array-dump.idx.bin.8"} {
				if r.P(30) {
					p := filepath.Join(k.Path(d), n)
					os.WriteFile(p, []byte("x"), 0o644)
					os.Chtimes(p, long, long)
				}
			}
		}
		dump, cwd := real, k.Dir
		style := r.N(6)
		switch style {
		case 1:
			dump, cwd = "./"+name, filepath.Join(home, "sub")
		case 2:
			dump, cwd = filepath.Join("..", "sub", name), filepath.Join(home, "other")
		case 3:
			dump = filepath.Join(home, "other", "link.hprof")
			if err := os.Symlink(real, dump); err != nil {
				fatal("%v", err)
			}
		case 4:
			dump, cwd = "home//sub/./"+name, k.Dir
		case 5:
			dump, cwd = "x.hprof", filepath.Join(home, "other")
			if err := os.Symlink(filepath.Join("..", "sub", name), filepath.Join(cwd, dump)); err != nil {
				fatal("%v", err)
			}
		}
		abs := dump
		if !filepath.IsAbs(abs) {
			abs = filepath.Join(cwd, dump)
		}
		db := filepath.Clean(abs) + ".db"
		env := []string{"TMPDIR=" + filepath.Join(home, "tmp"), "HOME=" + home}
		before := tree(home, db)
		want := map[string]string{}
		run := func(v []string, d, dir string) *cli.Result {
			args := append([]string{v[0], "--hprof", d}, v[1:]...)
			return k.RunOpt(cli.Opt{Dir: dir, Env: env}, args...)
		}
		var seq []string
		for i := 4 + r.N(9); i > 0; i-- {
			v := command(r)
			name := vname(v)
			seq = append(seq, name)
			if _, ok := want[name]; !ok {
				d := k.Path("fresh")
				os.Mkdir(d, 0o755)
				os.WriteFile(filepath.Join(d, "d.hprof"), x.Data, 0o644)
				f := run(v, filepath.Join(d, "d.hprof"), d)
				os.RemoveAll(d)
				if f.Exit != 0 || f.Crash() != "" {
					k.Fail("%s failed on a fresh copy of a well-formed dump: %v", name, f)
					return
				}
				want[name] = f.Stdout
			}
			var got *cli.Result
			if r.P(25) {
				var so, se strings.Builder
				self, _ := os.Executable()
				args := append([]string{k.Bin, v[0], "--hprof", dump}, v[1:]...)
				lg, err := fault.Run([]string{self, "tracer"}, fault.Plan{}, cwd, &so, &se, nil, args...)
				if err != nil {
					fatal("tracer: %v", err)
				}
				got = &cli.Result{Args: args, Stdout: so.String(), Stderr: se.String(), Exit: lg.Exit, Signal: syscall.Signal(lg.Signal)}
				k.runs = append(k.runs, got)
				for _, e := range lg.Events {
					if !e.Write {
						continue
					}
					k.Obs("file-changing calls seen", 1)
					for _, p := range []string{e.Path, e.Path2} {
						if p != "" && p != db && !strings.HasPrefix(p, db+"/") {
							k.Fail("%s: %s touches %s, which is outside %s", name, e.Call, p, db)
							return
						}
					}
				}
			} else {
				got = run(v, dump, cwd)
			}
			if got.Exit != 0 || got.Crash() != "" {
				k.Fail("command %d of the sequence %q failed: %v", len(seq), seq, got)
				return
			}
			if got.Stdout != want[name] {
				k.Fail("the report of command %d of the sequence %q differs from the one of a fresh copy: %s", len(seq), seq, firstDiff(got.Stdout, want[name]))
				return
			}
			if d := diffTree(before, tree(home, db)); d != "" {
				k.Fail("%s on %s changes files outside %s: %s", name, dump, db, d)
				return
			}
			k.Obs("reports compared", 1)
		}
		// the last word is the oracle's
		last := three[r.N(3)]
		got := k.RunOpt(cli.Opt{Dir: cwd, Env: env}, vargs(last, dump)...)
		if err := Oracle(last, got.Stdout, m); err != nil {
			k.Fail("after %q: %s: %v", seq, vname(last), err)
			return
		}
		k.Seen("kinds of path", fmt.Sprint(style))
		k.Max("commands of a sequence", len(seq))
		k.Eval(fmt.Sprint(seq, style, len(x.Data)))
		if k.N < 2 {
			k.Sample(map[string]any{"path": dump, "sequence": seq})
		}
	})
}

// traced runs a variant under the tracer.
func (k *Case) traced(p fault.Plan, cwd string, onPause func(), args ...string) (*fault.Log, *cli.Result) {
	return k.tracedBin(k.Bin, p, cwd, onPause, args...)
}

func (k *Case) tracedBin(bin string, p fault.Plan, cwd string, onPause func(), args ...string) (*fault.Log, *cli.Result) {
	var so, se strings.Builder
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	lg, err := fault.Run([]string{self, "tracer"}, p, cwd, &so, &se, onPause, append([]string{bin}, args...)...)
	if err != nil {
		fatal("tracer: %v", err)
	}
	res := &cli.Result{Args: append([]string{fmt.Sprintf("[under the tracer: %s at event %d]", p.Action, p.At)}, args...), Stdout: so.String(), Stderr: se.String(), Exit: lg.Exit, Signal: syscall.Signal(lg.Signal)}
	if lg.Late {
		res.TimedOut = true
		k.Obs("traced commands that did not end", 1)
	}
	k.Max("calls of a traced command", len(lg.Events))
	k.mu.Lock()
	k.runs = append(k.runs, res)
	k.mu.Unlock()
	k.Ctx.runs.Add(1)
	return lg, res
}

// place writes a dump into a new directory of the case.
func (k *Case) place(dir string, data []byte) string {
	d := k.Path(dir)
	if err := os.MkdirAll(d, 0o755); err != nil {
		fatal("%v", err)
	}
	p := filepath.Join(d, "d.hprof")
	if err := os.WriteFile(p, data, 0o644); err != nil {
		fatal("%v", err)
	}
	return p
}

// follow runs commands that must all print the right report.
func (k *Case) follow(t *Truth, dump, after string, vs [][]string) bool {
	for i, v := range vs {
		r := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, vargs(v, dump)...)
		if err := t.Right(v, r); err != nil {
			k.Fail("%s: command %d after it: %v", after, i+1, err)
			return false
		}
		k.Obs("later reports compared", 1)
	}
	return true
}

func shuffled(r *hp.Rng, vs [][]string) [][]string {
	out := append([][]string{}, vs...)
	for i := len(out) - 1; i > 0; i-- {
		j := r.N(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

var _ = bytes.Equal
var _ = ref.Size
