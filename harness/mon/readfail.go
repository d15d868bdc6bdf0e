package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"vh/cli"
	"vh/fault"
	"vh/hp"
)

func init() {
	register("C26", "fault_enumeration",
		"every call by which a command opens, reads, measures or positions the dump and the index fails in turn (ptrace: EIO, ESTALE, EACCES, EMFILE, ENOMEM, EINTR), without an index, with one, with that of an older dump; bytes of the dump (at every record boundary and at random places) and of each index file are unreadable, for good or for a moment, or the file ends there; all reads deliver few bytes at once (down to one) or are interrupted; index files without permission; a command must print exactly the right report or fail with a message and without a report, short and interrupted reads must not matter, and when the fault is gone every report must be right; distinct by dump, place and kind of fault",
		checkReadFail)
}

var readCalls = []string{"openat", "read", "pread", "readv", "preadv", "lseek", "stat", "fstat", "mmap"}

// reading runs one command with a plan and checks the ending.
func (k *Case) reading(t *Truth, dump string, v []string, p fault.Plan, state string, exact bool) bool {
	lg, r := k.traced(p, filepath.Dir(dump), nil, vargs(v, dump)...)
	what := fmt.Sprintf("%s (%s)", vname(v), state)
	n := 0
	harmless := p.Action == "error" && p.Errno == int(syscall.EINTR)
	for _, e := range lg.Events {
		if e.Fault != "" {
			harmless = harmless && (e.Call == "read" || e.Call == "pread")
			if n++; n == 1 {
				what += fmt.Sprintf(", first fault: %s of %s", e.Call, strings.TrimPrefix(e.Path, filepath.Dir(dump)))
			}
			k.Seen("calls with faults", e.Call)
			k.Seen("files with faults", strings.TrimPrefix(e.Path, filepath.Dir(dump)))
		}
	}
	what += fmt.Sprintf(", %d faults, %s errno %d", n, p.Action, p.Errno)
	var err error
	if exact || harmless || n == 0 {
		err = t.Right(v, r)
	} else {
		err = t.RightOrRefused(v, r)
	}
	if err != nil {
		k.Fail("%s: %v", what, err)
		return false
	}
	k.Obs("reads with faults", n)
	switch {
	case n == 0:
		k.Obs("faults that were not reached", 1)
	case r.Exit != 0:
		k.Obs("commands that reported the failure", 1)
	default:
		k.Obs("right reports in spite of faults", 1)
	}
	return true
}

// later is an index for the dump, or none.
func (k *Case) later(dump string, v []string) {
	if r := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, vargs(v, dump)...); r.Exit != 0 {
		fatal("preparing an index: %v", r)
	}
}

func checkReadFail(c *Ctx) {
	errnos := []syscall.Errno{syscall.EIO, syscall.ESTALE, syscall.EACCES, syscall.EMFILE, syscall.ENOMEM, syscall.EINTR, syscall.EBADF, syscall.ENXIO}
	// every call of a command, with and without an index
	c.One("every", 0, func(k *Case) {
		for d := 0; d < c.Pick(3, 18); d++ {
			if d > 2 && c.Over() {
				break
			}
			t := k.smallDump(fmt.Sprint("every", d), full)
			if t == nil {
				return
			}
			_, x, _ := Gen(k.Seed, fmt.Sprint("C26old", d), small(k.R), hp.RandomEnc(k.R, idSize(k.R)))
			old := x
			v := full[(d*3+k.R.N(3))%len(full)]
			if d == 2 {
				v = hp.Pick(k.R, full[4], full[5]) // a report of an older index looks well
			}
			dump := k.place("count", t.Data)
			p := fault.Plan{Under: dump, Reads: true, Calls: readCalls}
			state := []string{"no index", "with index", "with the index of an older dump"}[d%3]
			prepare := func(k *Case, dump string) {
				switch d % 3 {
				case 1:
					k.later(dump, v)
				case 2:
					if err := os.WriteFile(dump, old.Data, 0o644); err != nil {
						fatal("%v", err)
					}
					k.later(dump, v)
					if err := os.WriteFile(dump, t.Data, 0o644); err != nil {
						fatal("%v", err)
					}
				}
			}
			prepare(k, dump)
			lg, r := k.traced(p, filepath.Dir(dump), nil, vargs(v, dump)...)
			if err := t.Right(v, r); err != nil {
				k.Fail("under the tracer: %v", err)
				return
			}
			os.RemoveAll(filepath.Dir(dump))
			n := lg.Matched
			k.Max("calls of a command that read", n)
			c.CasesFor(fmt.Sprint("fail", d), n, n, 1, func(k *Case) {
				k.files["d.hprof"] = t.Data
				dump := k.place("d", t.Data)
				prepare(k, dump)
				p := fault.Plan{Under: dump, Reads: true, Calls: readCalls, At: 1 + k.N, Action: "error", Errno: int(errnos[(k.N+d/2)%len(errnos)])}
				if !k.reading(t, dump, v, p, fmt.Sprintf("%s, call %d of %d fails", state, p.At, n), false) {
					return
				}
				if k.follow(t, dump, fmt.Sprintf("%s (%s) when call %d of %d failed with %v", vname(v), state, p.At, n, syscall.Errno(p.Errno)), shuffled(k.R, three)) {
					k.Eval(fmt.Sprint("every", d, p))
				}
			})
		}
	})
	// unreadable places of the dump, first of all where records begin
	c.One("places", 0, func(k *Case) {
		for d := 0; d < c.Pick(1, 12); d++ {
			if d > 0 && c.Over() {
				break
			}
			t := k.smallDump(fmt.Sprint("places", d), three)
			if t == nil {
				return
			}
			at := append([]int{0, 1, 18, 19, 23, 30}, t.M.Bounds...)
			for _, b := range t.M.Top {
				at = append(at, b.Off+1, b.Off+5, b.Off+9)
			}
			kinds := []string{"for good", "once", "end of the file"}
			c.CasesFor(fmt.Sprint("place", d), len(at), len(at), 0.5, func(k *Case) {
				k.files["d.hprof"] = t.Data
				dump := k.place("d", t.Data)
				v := three[k.R.N(3)]
				kind := kinds[(k.N+k.R.N(2))%3]
				p := fault.Plan{Under: dump, Exact: true, Reads: true, Action: "bad", Errno: int(syscall.EIO), From: int64(at[k.N])}
				p.Upto = p.From + int64(hp.Pick(k.R, 1, 1, 4, 512, 4096))
				switch kind {
				case "once":
					p.Times = 1
				case "end of the file":
					p.Errno, p.Upto = 0, 1<<62
				}
				if !k.reading(t, dump, v, p, fmt.Sprintf("byte %d of the dump is unreadable, %s", p.From, kind), false) {
					return
				}
				if k.R.P(30) {
					if w := three[k.R.N(3)]; !k.reading(t, dump, w, p, fmt.Sprintf("byte %d of the dump is unreadable, %s, second command", p.From, kind), false) {
						return
					}
				}
				if k.follow(t, dump, fmt.Sprintf("%s when byte %d of the dump was unreadable, %s", vname(v), p.From, kind), shuffled(k.R, three)) {
					k.Eval(fmt.Sprint("place", d, p))
				}
			})
		}
	})
	// every file of the index, unreadable from its beginning, middle, end
	c.One("index", 0, func(k *Case) {
		for d := 0; d < c.Pick(1, 12); d++ {
			if d > 0 && c.Over() {
				break
			}
			t := k.smallDump(fmt.Sprint("index", d), full)
			if t == nil {
				return
			}
			dump := k.place("names", t.Data)
			k.later(dump, three[0])
			var files []string
			es, _ := os.ReadDir(dump + ".db")
			for _, e := range es {
				files = append(files, e.Name())
			}
			if len(files) == 0 {
				return
			}
			n := len(files) * 24
			c.CasesFor(fmt.Sprint("file", d), n, n, 1, func(k *Case) {
				k.files["d.hprof"] = t.Data
				dump := k.place("d", t.Data)
				k.later(dump, three[k.R.N(3)])
				file := filepath.Join(dump+".db", files[k.N%len(files)])
				st, err := os.Stat(file)
				if err != nil {
					return
				}
				p := fault.Plan{Under: file, Exact: true, Reads: true, Action: "bad", Upto: 1 << 62}
				size := int(st.Size())
				j := k.N / len(files)
				p.From = int64([]int{0, 1, size / 2 &^ 15, size - 16, size - 1, k.R.N(size + 1)}[j%6])
				p.From = max(p.From, 0)
				what := "the end of the file"
				if j/6%2 == 1 {
					p.Errno = int(syscall.EIO)
					what = "an error"
				}
				if j/12%2 == 1 {
					p.Times = 1
				}
				var last []string
				for _, v := range shuffled(k.R, full)[:2+k.R.N(2)] {
					if !k.reading(t, dump, v, p, fmt.Sprintf("%s at byte %d of %d of %s, %d times", what, p.From, size, filepath.Base(file), p.Times), false) {
						return
					}
					last = v
				}
				if k.follow(t, dump, fmt.Sprintf("%s when there was %s at byte %d of %d of %s", vname(last), what, p.From, size, filepath.Base(file)), shuffled(k.R, three)) {
					k.Eval(fmt.Sprint("index", d, k.N, p.From))
				}
			})
		}
	})
	// objects whose contents look like headers of others
	c.CasesFor("mistaken", 60, c.Pick(1000000, 10000000), 0.3, func(k *Case) {
		r := k.R
		o := small(r)
		o.Threads, o.MaxDepth, o.Locals = 1+r.N(2), 4, r.N(2)
		g := hp.Gen(k.Seed, fmt.Sprint(k.ID, "mistaken", k.N), o)
		alike(g, r)
		_, x, m := encode(g, hp.RandomEnc(r, idSize(r)))
		t := k.Truth("d", x.Data, m, full)
		if t == nil {
			return
		}
		k.files["d.hprof"] = t.Data
		dump := k.place("d", t.Data)
		k.later(dump, full[r.N(len(full))])
		p := fault.Plan{Under: dump, Exact: true, Reads: true, Calls: []string{"lseek"}}
		if r.P(40) {
			p.Calls = []string{"lseek", "read", "pread"}
		}
		v := three[0]
		if r.P(20) {
			v = full[r.N(len(full))]
		}
		lg, _ := k.traced(p, filepath.Dir(dump), nil, vargs(v, dump)...)
		if lg.Matched == 0 {
			return
		}
		var hist []string
		for i := 0; i < 6; i++ {
			p.At, p.Action, p.Errno = 1+r.N(lg.Matched), "error", int(errnos[r.N(len(errnos))])
			if r.P(50) {
				p.At = lg.Matched - r.N(min(24, lg.Matched))
			}
			h := fmt.Sprintf("contents that look like headers, call %d of %d fails", p.At, lg.Matched)
			if !k.reading(t, dump, v, p, h, false) {
				return
			}
			hist = append(hist, fmt.Sprint(vname(v), p))
		}
		if k.follow(t, dump, fmt.Sprint("after ", hist), shuffled(r, full)[:1]) {
			k.Eval(fmt.Sprint("mistaken", k.N, hist))
			k.Obs("dumps whose contents look like headers", 1)
		}
	})
	// random dumps, files, places
	c.CasesFor("random", 60, c.Pick(1000000, 10000000), 0.5, func(k *Case) {
		o := small(k.R)
		o.Texts = k.R.N(4)
		o.Props = k.R.N(8)
		_, x, m := Gen(k.Seed, fmt.Sprint(k.ID, "random", k.N), o, hp.RandomEnc(k.R, idSize(k.R)))
		t := k.Truth("d", x.Data, m, full)
		if t == nil {
			return
		}
		dump := k.place("d", t.Data)
		indexed := k.R.P(70)
		if indexed {
			k.later(dump, full[k.R.N(len(full))])
		}
		var hist []string
		for i := 1 + k.R.N(4); i > 0; i-- {
			v := full[k.R.N(len(full))]
			file := dump
			es, _ := os.ReadDir(dump + ".db")
			if len(es) > 0 && k.R.P(75) {
				file = filepath.Join(dump+".db", es[k.R.N(len(es))].Name())
			}
			st, err := os.Stat(file)
			if err != nil {
				continue
			}
			p := fault.Plan{Under: file, Exact: true, Reads: true, Action: "bad", Errno: int(hp.Pick(k.R, syscall.EIO, syscall.EIO, syscall.ESTALE, syscall.Errno(0)))}
			p.From = int64(k.R.N(int(st.Size()) + 1))
			switch file {
			case dump:
				p.From = int64(hp.Pick(k.R, m.Bounds...))
				if k.R.P(50) && len(m.Objs) > 0 {
					ob := m.Objs[k.R.N(len(m.Objs))]
					p.From = int64(ob.Off + k.R.N(12+len(ob.Data)))
				}
			default:
				if k.R.P(50) {
					p.From &^= 15
				}
				if k.R.P(20) {
					p.From = 0
				}
			}
			p.Upto = p.From + int64(hp.Pick(k.R, 1, 8, 16, 512, 1<<40))
			if k.R.P(50) {
				p.Times = 1 + k.R.N(3)
			}
			h := fmt.Sprintf("%s with bytes %d to %d of %s unreadable (errno %d, %d times)", vname(v), p.From, p.Upto, strings.TrimPrefix(file, filepath.Dir(dump)), p.Errno, p.Times)
			if !k.reading(t, dump, v, p, h, false) {
				return
			}
			hist = append(hist, h)
		}
		if k.follow(t, dump, fmt.Sprint("after ", hist), shuffled(k.R, full)[:3]) {
			k.Eval(fmt.Sprint("random", k.N, hist))
			if k.N < 2 {
				k.Sample(hist)
			}
		}
	})
	// reads that deliver little, or are interrupted
	c.CasesFor("short", 40, c.Pick(1000000, 10000000), 0.6, func(k *Case) {
		o := small(k.R)
		p := fault.Plan{Reads: true, Action: hp.Pick(k.R, "trim", "trim", "trim", "interrupt"), Seed: k.R.Uint64(), Errno: int(syscall.EINTR)}
		p.Max = hp.Pick(k.R, 1, 2, 3, 8, 30, 100, 1000, 5000)
		if p.Max > 8 {
			o = hp.RandomOpts(k.R)
			o.Objects = min(o.Objects, 300)
		}
		g := hp.Gen(k.Seed, fmt.Sprint(k.ID, "short", k.N), o)
		if k.R.P(60) && p.Max >= 30 {
			for _, f := range g.Frames {
				f.Method += strings.Repeat("x", k.R.N(12000))
			}
		}
		_, x, m := encode(g, hp.RandomEnc(k.R, idSize(k.R)))
		t := k.Truth("d", x.Data, m, full)
		if t == nil {
			return
		}
		dump := k.place("d", t.Data)
		p.Under = dump
		var hist []string
		for i := 1 + k.R.N(3); i > 0; i-- {
			v := full[k.R.N(len(full))]
			h := fmt.Sprintf("%s: %s, at most %d bytes at once", vname(v), p.Action, p.Max)
			if !k.reading(t, dump, v, p, h, true) {
				return
			}
			hist = append(hist, h)
		}
		if k.follow(t, dump, fmt.Sprint("after ", hist), shuffled(k.R, full)[:1]) {
			k.Eval(fmt.Sprint("short", k.N, hist))
		}
	})
	// files of the index that may not be read
	c.CasesFor("permission", 12, c.Pick(40, 400), 1, func(k *Case) {
		if k.Nobody() == 0 {
			return
		}
		t := k.smallDump("d", three)
		if t == nil {
			return
		}
		dump := k.place("d", t.Data)
		dir := filepath.Dir(dump)
		os.Chmod(dir, 0o777)
		k.later(dump, three[k.N%3])
		os.Chmod(dump+".db", hp.Pick[os.FileMode](k.R, 0o755, 0o777))
		es, _ := os.ReadDir(dump + ".db")
		if len(es) == 0 {
			return
		}
		name := filepath.Join(dump+".db", es[k.N%len(es)].Name())
		for _, e := range es {
			os.Chmod(filepath.Join(dump+".db", e.Name()), 0o644)
		}
		os.Chmod(name, 0)
		for _, v := range shuffled(k.R, three) {
			r := k.RunOpt(cli.Opt{Dir: dir, Uid: k.Nobody()}, vargs(v, dump)...)
			if err := t.RightOrRefused(v, r); err != nil {
				k.Fail("%s may not be read: %v", filepath.Base(name), err)
				return
			}
			k.Obs("commands that may not read a file", 1)
			k.Obs("commands that reported the failure", b2i(r.Exit != 0))
		}
		os.Chmod(name, 0o644)
		if k.follow(t, dump, "after "+filepath.Base(name)+" could not be read", shuffled(k.R, three)) {
			k.Eval(fmt.Sprint("permission", k.N))
		}
	})
}

// alike adds local variables for all threads that have frames: objects of
// which the contents, read as a header, are one of another type.
func alike(g *hp.G, r *hp.Rng) {
	object := g.Class("java/lang/Object")
	a := g.AddClass("[Lalike/A;", object, 0)
	b := g.AddClass("[[Lalike/B;", object, 0)
	var cs []*hp.Class
	for i := 0; i < 3; i++ {
		var fs []hp.Field
		for j := 0; j < 8; j++ {
			fs = append(fs, hp.Field{Name: fmt.Sprint("f", j), T: hp.TObject})
		}
		cs = append(cs, g.AddClass(fmt.Sprint("alike/C", i), object, 64, fs...))
	}
	one := func() hp.H {
		switch r.N(5) {
		case 0:
			arr := hp.Pick(r, a, b)
			other := hp.Pick(r, a, b).H
			var e []hp.H
			for i := 0; i < 8; i++ {
				e = append(e, other)
			}
			return g.NewObjArr(arr, e).H
		case 1:
			i := g.NewInst(cs[r.N(len(cs))])
			h := cs[r.N(len(cs))].H
			for j := range i.Vals {
				i.Vals[j] = hp.Obj(h)
			}
			return i.H
		}
		t := hp.PrimTypes[r.N(len(hp.PrimTypes))]
		d := make([]byte, 8*(4+r.N(6)))
		code := hp.PrimTypes[r.N(len(hp.PrimTypes))]
		for i := range d {
			d[i] = code
		}
		return g.NewPrimArr(t, d).H
	}
	for _, root := range append([]*hp.Root{}, g.Roots...) {
		if root.Kind != hp.RThread || root.Frame < 0 || int(root.Frame) >= len(g.Traces) {
			continue
		}
		n := len(g.Traces[root.Frame].Frames)
		for i := 0; i < n; i++ {
			for j := 0; j < 6; j++ {
				g.Roots = append(g.Roots, &hp.Root{Kind: hp.RJavaFrame, Obj: one(), Thread: root.Thread, Frame: int32(i)})
			}
		}
	}
}
