package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"vh/cli"
	"vh/fault"
	"vh/hp"
)

func init() {
	register("C30", "exploration",
		"random histories on one dump after it was analysed once: commands with all options, commands at once, refused, failing (ptrace faults) and killed ones, dump and index moved, renamed or copied together (with their times), changed mode and owner, other environments and users; after each command all files of the index (names, inodes, times, contents) must be what they were; system calls of later commands on dumps with few and with 1.2 million more objects or 3 gigabytes more of contents are recorded: the bytes they read from dump and index and the number of reads must not grow beyond four times and a constant; distinct by dump and history",
		checkIndexed)
}

// entries describes the files of an index; nothing may change in it.
func entries(db string) map[string]string {
	out := tree(db)
	rel := map[string]string{}
	for p, d := range out {
		if p != db { // the directory itself may have been touched
			rel[strings.TrimPrefix(p, db)] = d
		}
	}
	return rel
}

func checkIndexed(c *Ctx) {
	wait := c.Beside(func() { c.amounts() })
	defer wait()
	c.CasesFor("history", 60, c.Pick(1000000, 10000000), 0.9, func(k *Case) {
		r := k.R
		_, x, m := Gen(k.Seed, fmt.Sprint("C30", k.N), hp.RandomOpts(r), hp.RandomEnc(r, idSize(r)))
		w := k.wanted(x.Data, m)
		if !w.sure(three[r.N(3)]) {
			return
		}
		base := k.Path("work")
		os.Mkdir(base, 0o777)
		os.Chmod(base, 0o777)
		dump := filepath.Join(base, "d.hprof")
		if err := os.WriteFile(dump, x.Data, os.FileMode(hp.Pick(r, 0o644, 0o600, 0o444))); err != nil {
			fatal("%v", err)
		}
		if r.P(70) {
			t := time.Unix(1e9+int64(r.N(6e8)), int64(r.N(1e9)))
			os.Chtimes(dump, t, t)
		}
		first := command(r)
		quiet := func(v []string) []string {
			for _, a := range v {
				if a == "--non-interactive" {
					return v
				}
			}
			return append(v, "--non-interactive")
		}
		first = quiet(first)
		hist := []string{vname(first)}
		q := k.RunOpt(cli.Opt{Dir: base}, withDump(first, dump)...)
		want, ok := w.of(first)
		if !ok {
			return
		}
		if q.Exit != 0 || q.Stdout != want {
			k.Fail("%s: exit status %d: %s", vname(first), q.Exit, firstDiff(q.Stdout, want))
			return
		}
		before := entries(dump + ".db")
		if len(before) == 0 {
			// nothing is kept; then nothing can be kept as it was
			k.Fail("%s leaves no index", vname(first))
			return
		}
		same := func(what string) bool {
			hist = append(hist, what)
			if d := diffTree(before, entries(dump+".db")); d != "" {
				k.Fail("the dump was analysed again, history %q: %s", hist, d)
				return false
			}
			k.Obs("indexes compared", 1)
			return true
		}
		for i := 3 + r.N(8); i > 0; i-- {
			v := quiet(command(r))
			alike := v
			if r.P(30) { // with the display, which has nothing to show
				v = slices.DeleteFunc(slices.Clone(v), func(s string) bool { return s == "--non-interactive" })
			}
			opt := cli.Opt{Dir: base}
			switch s := r.N(16); s {
			case 0, 1: // another name, another place
				to := filepath.Join(base, hp.Pick(r, "e.hprof", "heap 2.hprof", "ü", "x.db"))
				if r.P(50) {
					d := filepath.Join(base, fmt.Sprint("sub", i))
					os.Mkdir(d, 0o777)
					to = filepath.Join(d, filepath.Base(to))
				}
				if to == dump {
					break
				}
				os.RemoveAll(to)
				os.RemoveAll(to + ".db")
				if os.Rename(dump, to) != nil || os.Rename(dump+".db", to+".db") != nil {
					fatal("rename")
				}
				dump = to
				hist = append(hist, "moved to "+filepath.Base(to))
			case 2: // a copy
				to := filepath.Join(base, fmt.Sprintf("copy%d.hprof", i))
				for _, f := range []string{"", ".db"} {
					if out, err := exec.Command("cp", "-a", dump+f, to+f).CombinedOutput(); err != nil {
						fatal("cp: %s", out)
					}
				}
				dump = to
				before = entries(dump + ".db")
				hist = append(hist, "copied")
			case 3:
				mode := os.FileMode(hp.Pick(r, 0o400, 0o444, 0o600, 0o644, 0o755))
				os.Chmod(dump, mode)
				hist = append(hist, fmt.Sprint("mode ", mode))
			case 4:
				if u := k.Nobody(); u > 0 {
					os.Chown(dump, u, u)
					hist = append(hist, "another owner")
				}
			case 5: // refused
				bad := append(withDump(v, dump), hp.Pick(r, "--unknown", "--output=pdf"))
				if q := k.RunOpt(opt, bad...); q.Exit == 0 {
					k.Fail("%q is accepted", bad)
					return
				}
				if !same("refused command") {
					return
				}
			case 6, 7: // killed, or with a failing call
				p := fault.Plan{Under: dump, Reads: true, At: 1 + r.N(60), Action: hp.Pick(r, "kill", "killafter", "error"), Errno: int(hp.Pick(r, syscall.EIO, syscall.ENOMEM, syscall.EACCES)), Sticky: r.P(50)}
				if p.Action == "error" {
					p.Calls = readCalls[1:]
					if r.P(50) { // of the index, or of the whole dump
						p.Calls = []string{"read", "pread"}
					}
					// a failing look at the dump or the stamp may well be a reason to analyse it again
					p.At += 20
				}
				_, q := k.traced(p, base, nil, withDump(v, dump)...)
				what := fmt.Sprintf("%s, %s at call %d: exit status %d", vname(v), p.Action, p.At, q.Exit)
				if p.Action == "error" && q.Exit == 0 {
					k.Obs("faults survived", 1)
				}
				if !same(what) {
					return
				}
				k.Obs("disturbed commands", 1)
			case 8, 9: // at once
				var wg sync.WaitGroup
				n := 2 + r.N(4)
				vs := make([][]string, n)
				for j := range vs {
					vs[j] = quiet(command(r))
				}
				for j := range vs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						k.RunOpt(opt, withDump(vs[j], dump)...)
					}()
				}
				wg.Wait()
				if !same(fmt.Sprint(n, " commands at once")) {
					return
				}
			case 10:
				opt.Env = []string{"TZ=America/New_York", "LANG=C", "TMPDIR=/nonexistent", "GOGC=5"}
			case 11: // read in between
				if b, err := os.ReadFile(dump); err != nil || len(b) != len(x.Data) {
					fatal("dump: %v", err)
				}
				time.Sleep(time.Duration(r.N(20)) * time.Millisecond)
			case 12: // a tool of the same build at another place
				opt.Env = []string{"HOME=" + base}
			}
			q := k.RunOpt(opt, withDump(v, dump)...)
			want, ok := w.of(alike)
			if !ok {
				return
			}
			if q.Exit != 0 || q.Stdout != want {
				k.Fail("history %q, %s: exit status %d: %s", hist, vname(v), q.Exit, firstDiff(q.Stdout, want))
				return
			}
			if !same(vname(v)) {
				return
			}
		}
		k.Max("steps of a history", len(hist))
		k.Eval(fmt.Sprint(hist, len(x.Data)))
		if k.N < 3 {
			k.Sample(map[string]any{"history": hist})
		}
	})
}

// amounts compares what later commands read.
func (c *Ctx) amounts() {
	const m = 1 << 20
	few := [3]int{100, 100, 100}
	var z []zero
	for i := 0; i < 3; i++ {
		z = append(z, zero{0x23, 1<<30 - 1, hp.TByte})
	}
	hs := []heavy{
		{name: "20000 objects of each kind", n: [3]int{20000, 20000, 20000}, seg: 50},
		{name: "400000 objects of each kind", n: [3]int{400000, 400000, 400000}, seg: 1000, mix: true},
		{name: "1.2 million instances", n: [3]int{1200000, 100, 100}, seg: 1 << 30},
		{name: "3 GiB of contents", n: few, seg: 50, zeros: z},
		{name: "20000 objects with contents", n: [3]int{10000, 5000, 5000}, elems: [3]int{0, 1000, 5000}, seg: 100},
		{name: "300000 objects of each kind and one of each far away", n: [3]int{300000, 300000, 300000}, seg: 500, far: true},
	}
	if c.Thorough {
		hs = append(hs, heavy{name: "1.2 million reference arrays", n: [3]int{100, 1200000, 100}, seg: 100},
			heavy{name: "1.2 million primitive arrays", n: [3]int{100, 100, 1200000}, seg: 1},
			heavy{name: "4 million objects of each kind", n: [3]int{4 * m, 4 * m, 4 * m}, seg: 10000})
	}
	vs := append([][]string{}, full...)
	vs = append(vs, []string{"threads", "--local-vars", "--output", "html"}, []string{"summary", "--all-props", "--output", "html"}, []string{"objects", "--output", "html"})
	type amount struct{ reads, bytes int }
	worlds := c.Pick(1, 6)
	for wi := 0; wi < worlds; wi++ {
		if wi > 0 && c.Over() {
			return
		}
		var mu sync.Mutex
		got := make([]map[string]amount, len(hs))
		id := 8 - 4*(wi%2)
		c.Cases(fmt.Sprint("amounts", wi), len(hs), len(hs), func(k *Case) {
			h := hs[k.N]
			h.id, h.refs = id, true
			g := hp.Gen(k.Seed, fmt.Sprint("C30amounts", wi), hp.Opts{Classes: 5, Objects: 20, Threads: 5, MaxDepth: 6, Props: 20, Locals: 3, Chains: true})
			object := g.Class("java/lang/Object")
			lc := g.AddClass("heavy/Leaf", object, 16)
			ac := g.AddClass("[Lheavy/Leaf;", object, 0)
			_, x, mo := encode(g, hp.DefaultEnc(h.id))
			dump := k.Path("d.hprof")
			h.write(dump, x.Data, mo, x.ObjID(lc.H), 0, x.ObjID(ac.H))
			mo.More = h.more(x.ObjID(lc.H), 0, x.ObjID(ac.H))
			if r := k.Run(vargs(three[wi%3], dump)...); r.Exit != 0 {
				k.Fail("%s on a dump with %s: %v", vname(three[wi%3]), h.name, r)
				return
			}
			mine := map[string]amount{}
			for _, v := range vs {
				lg, r := k.traced(fault.Plan{Under: dump, Reads: true}, k.Dir, nil, vargs(v, dump)...)
				if r.Exit != 0 {
					k.Fail("%s on a dump with %s: %v", vname(v), h.name, r)
					return
				}
				if v[len(v)-1] != "html" {
					if err := Oracle(v, r.Stdout, mo); err != nil {
						k.Fail("%s on a dump with %s: %v", vname(v), h.name, err)
						return
					}
				}
				var a amount
				for _, e := range lg.Events {
					if strings.HasPrefix(e.Path, dump) && strings.Contains(e.Call, "read") {
						a.reads++
						a.bytes += e.Ret
					}
				}
				mine[vname(v)] = a
				k.Obs("reads of later commands seen", a.reads)
				k.Max("reads of a later command", a.reads)
				k.Max("bytes read by a later command", a.bytes)
				k.Eval(fmt.Sprint(h.name, wi, vname(v)))
			}
			fi, _ := os.Stat(dump)
			k.Max("bytes of a dump", int(fi.Size()))
			mu.Lock()
			got[k.N] = mine
			mu.Unlock()
		})
		c.One("compare", wi, func(k *Case) {
			if got[0] == nil {
				return
			}
			var ns []string
			for n := range got[0] {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for i := 1; i < len(hs); i++ {
				for _, n := range ns {
					a, b := got[0][n], got[i][n]
					extra := 0
					if len(hs[i].zeros) > 0 { // local variables refer to them
						extra = 1000
					}
					if os.Getenv("VH_DEBUG") != "" {
						fmt.Println(hs[i].name, n, a, b)
					}
					if b.bytes > 4*a.bytes+1<<20 || b.reads > 4*a.reads+500+extra {
						k.Fail("%s on an analysed dump with %s reads %d bytes in %d pieces, on one with %s %d bytes in %d pieces", n, hs[i].name, b.bytes, b.reads, hs[0].name, a.bytes, a.reads)
						return
					}
				}
			}
		})
	}
}
