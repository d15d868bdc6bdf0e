package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"vh/cli"
	"vh/hp"
	"vh/ref"
	"vh/view"
)

func sizeClass(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 10:
		return "1-9"
	case n < 100:
		return "10-99"
	case n < 1000:
		return "100-999"
	}
	return "1000+"
}

func optsKey(o hp.Opts, e hp.Enc) string { return fmt.Sprintf("%+v %+v", o, e) }

func idSize(r *hp.Rng) int { return hp.Pick(r, 4, 8, 8) }

func init() {
	register("C01", "exploration",
		"random logical heaps (classes of any names and sizes, instances, object and primitive arrays of any dimensions, zero sizes, same-named classes) in random encodings; a case is non-trivial if the histogram has at least 3 rows; distinct by row set",
		func(c *Ctx) {
			c.overTowers([][]string{{"objects"}, {"objects", "--sort-by", "size"}}, "classes", "fields", "empty bins", "roots", "strings")
			c.overJVM([][]string{{"objects"}, {"objects", "--sort-by", "size"}})
			defer c.Beside(func() { c.overBulk([][]string{{"objects"}, {"objects", "--sort-by", "size"}}) })()
			c.Cases("world", 300, c.Pick(1000000, 10000000), func(k *Case) {
				o := hp.RandomOpts(k.R)
				o.Names = hp.Pick(k.R, 0, 1, 1)
				o.Objects = hp.Pick(k.R, 0, 1, 30, k.R.N(400), k.R.N(3000))
				o.Classes = hp.Pick(k.R, 0, 3, 12, 60)
				o.NoJVM = k.R.P(50)
				o.ZeroSizes = k.R.P(10)
				g := hp.Gen(k.Seed, fmt.Sprint("C01", k.N), o)
				k.bigClasses(g)
				_, x, m := encode(g, hp.RandomEnc(k.R, idSize(k.R)))
				dump := k.Write("d.hprof", x.Data)
				args := Args("objects", dump, "--no-color")
				if k.R.P(30) {
					args = append(args, "--sort-by", "size")
				}
				r := k.Run(args...)
				if r.Exit != 0 || r.Crash() != "" {
					k.Fail("objects failed on a well-formed dump: %v", r)
					return
				}
				t, err := view.ParseObjects(r.Stdout)
				if err == nil {
					err = view.CheckObjects(t, m)
				}
				if err != nil {
					k.Fail("%v", err)
					return
				}
				rows, count, size := m.Objects()
				key := ""
				if len(rows) >= 3 {
					key = fmt.Sprint(rows)
				}
				k.Eval(key)
				k.Obs("rows compared", len(rows))
				k.Obs("objects counted", count)
				k.Max("total size", size)
				k.Seen("size units", t.Total[len(t.Total)-1:])
				for _, r := range rows {
					if strings.HasSuffix(r.Name, "[][]") {
						k.Obs("rows of multi-dimensional arrays", 1)
					}
					if r.Size == 0 {
						k.Obs("rows of size 0", 1)
					}
				}
				if k.N < 3 {
					k.Sample(map[string]any{"rows": len(rows), "instances": count, "size": size, "first": rows[:min(3, len(rows))], "idsize": m.IDSize})
				}
			})
		})

	register("C11", "exploration",
		"random heaps with many ties of count and size and names of multi-byte characters, both sort orders, each printed several times; non-trivial if there are ties; distinct by rows and order",
		func(c *Ctx) {
			c.Cases("world", 200, c.Pick(1000000, 10000000), func(k *Case) {
				o := hp.RandomOpts(k.R)
				o.NoJVM = k.R.P(70)
				o.Names = hp.Pick(k.R, 0, 1, 1)
				o.Classes = hp.Pick(k.R, 1, 12, 60)
				o.Objects = hp.Pick(k.R, 0, 5, k.R.N(60), k.R.N(800))
				o.SameNames = k.R.P(50)
				o.ZeroSizes = k.R.P(30)
				g := hp.Gen(k.Seed, fmt.Sprint("C11", k.N), o)
				if k.R.P(50) {
					k.ties(g)
				}
				if k.R.P(40) {
					k.shares(g)
				}
				if k.R.P(30) {
					k.bigClasses(g)
				}
				_, x, m := encode(g, hp.RandomEnc(k.R, idSize(k.R)))
				bySize := k.R.P(50)
				var outs []string
				for i := 0; i < 3; i++ {
					dump := k.Write(fmt.Sprintf("d%d.hprof", i/2), x.Data) // twice on one index, once on another
					args := Args("objects", dump, "--no-color")
					if bySize {
						args = append(args, "--sort-by=size")
					} else if k.R.P(50) {
						args = append(args, "--sort-by=count")
					}
					if i == 1 {
						args = args[:len(args):len(args)]
					}
					r := k.Run(args...)
					if r.Exit != 0 || r.Crash() != "" {
						k.Fail("objects failed on a well-formed dump: %v", r)
						return
					}
					outs = append(outs, r.Stdout)
				}
				if outs[0] != outs[1] || outs[0] != outs[2] {
					k.Fail("output is not deterministic:\n%s\n---\n%s\n---\n%s", outs[0], outs[1], outs[2])
					return
				}
				t, err := view.ParseObjects(outs[0])
				if err == nil {
					err = view.CheckOrder(t, m, bySize)
				}
				if err != nil {
					k.Fail("sort by size %v: %v", bySize, err)
					return
				}
				rows := view.SortedRows(m, bySize)
				ties := 0
				for i := 1; i < len(rows); i++ {
					if bySize && rows[i].Size == rows[i-1].Size || !bySize && rows[i].Count == rows[i-1].Count {
						ties++
					}
				}
				k.Obs("neighbours tied", ties)
				k.Obs("rows checked", len(rows))
				for _, r := range rows {
					if len(r.Name) != len([]rune(r.Name)) {
						k.Obs("names with multi-byte characters", 1)
					}
				}
				key := ""
				if ties > 0 {
					key = fmt.Sprint(bySize, rows)
				}
				k.Eval(key)
				if k.N < 3 {
					k.Sample(map[string]any{"bySize": bySize, "rows": len(rows), "ties": ties})
				}
			})
		})

	register("C04", "exploration",
		"random heaps of JVMs with threads, Thread subclasses that shadow fields, all status words HotSpot stores, stacks of any depth, all line number kinds, in random encodings; non-trivial if at least one frame is printed; distinct by report",
		func(c *Ctx) { threadsCheck(c, false) })
	register("C05", "exploration",
		"as C04 with JNI-local and Java-frame roots for any object kind, class objects, repeated objects, frames out of range and other threads; non-trivial if at least one local is listed; distinct by report",
		func(c *Ctx) { threadsCheck(c, true) })

	register("C06", "exploration",
		"random java.util.Properties tables: colliding keys in chains and tree bins, subclasses, other Properties objects around, any text; both with and without --all-props; non-trivial if a bin holds two or more pairs; distinct by property map",
		func(c *Ctx) { summaryCheck(c, "C06") })
	register("C07", "exploration",
		"random heaps with roots of all nine kinds, duplicated class loads, decoy runtime beans, any dump and start times; Instances and Heap Size are compared with `objects` too; distinct by statistics",
		func(c *Ctx) { summaryCheck(c, "C07") })
}

// bigClasses makes sizes that need the larger units: huge instance sizes cost
// nothing in the dump.
func (k *Case) bigClasses(g *hp.G) {
	if !k.R.P(40) {
		return
	}
	for i := k.R.N(3); i >= 0; i-- {
		c := g.AddClass(g.ClassName(), g.Classes[0], hp.Pick[int32](k.R, 1<<30, 1<<31-1, 1<<20, 1<<20-1, 1<<30-1, 1023, 1024, int32(k.R.N(1<<31-1))))
		for n := k.R.N(6) + 1; n > 0; n-- {
			g.NewInst(c)
		}
	}
}

// ties adds classes of equal counts and sizes.
func (k *Case) ties(g *hp.G) {
	n := 2 + k.R.N(10)
	size := int32(hp.Pick(k.R, 0, 8, 16, 1024))
	cnt := 1 + k.R.N(3)
	for i := 0; i < n; i++ {
		c := g.AddClass(g.ClassName(), g.Classes[0], size)
		if k.R.P(30) {
			c.InstSize = size * 2
		}
		for j := 0; j < cnt; j++ {
			g.NewInst(c)
		}
	}
}

// shares adds the objects that make the total a round number, so that rows
// are whole percents of it or miss them by one.
func (k *Case) shares(g *hp.G) {
	have := len(g.Insts) + len(g.ObjArrs) + len(g.Prims)
	total := hp.Pick(k.R, 100, 200, 500, 1000, 700)
	size := int32(hp.Pick(k.R, 1, 8, 24, 1<<20, 100, 1<<30+1))
	for have < total {
		n := min(1+k.R.N(total*3/5), total-have)
		c := g.AddClass(g.ClassName(), g.Classes[0], size)
		for j := 0; j < n; j++ {
			g.NewInst(c)
		}
		have += n
	}
	k.Obs("totals that are round numbers", 1)
}

// overBulk checks the reports of dumps with very many objects, around the
// limits of narrow counters, and of totals beyond 4 Gi elements.
func (c *Ctx) overBulk(vs [][]string) {
	n := c.Pick(5, 40)
	c.CasesFor("bulk", n, n, 0.5, func(k *Case) {
		r := k.R
		id := idSize(r)
		o := hp.RandomOpts(r)
		o.Objects, o.Classes = hp.Pick(r, 0, 40), 3
		g := hp.Gen(k.Seed, fmt.Sprint(k.ID, "bulk", k.N), o)
		e := hp.RandomEnc(r, id)
		e.ObjBase = 1 << 40
		if id == 4 {
			e.ObjBase = 1 << 30
		}
		_, x, m := encode(g, e)
		var classes, arrays []uint64
		for cid, d := range m.Class {
			if d.Super == 0 || d.InstSize > 0 && d.InstSize < 1<<20 && !strings.HasPrefix(m.ClassName(ref.ID(cid)), "[") {
				classes = append(classes, cid)
			}
		}
		seen := map[uint64]bool{}
		for _, a := range m.OArr {
			if !seen[a.Class] {
				arrays = append(arrays, a.Class)
				seen[a.Class] = true
			}
		}
		sort.Slice(classes, func(i, j int) bool { return classes[i] < classes[j] })
		sort.Slice(arrays, func(i, j int) bool { return arrays[i] < arrays[j] })
		b := &hp.Bulk{IDSize: id}
		var ps []hp.Piece
		next := uint64(1)
		if k.N%5 == 4 {
			// few objects, very many elements
			giants := []hp.Giant{{Kind: 'p', T: hp.TByte, N: 1<<31 - 10}, {Kind: 'p', T: hp.TByte, N: 1<<31 - 8},
				{Kind: 'p', T: hp.TByte, N: uint32(50 + r.N(1000))}, {Kind: 'o', N: 1 << 28}}
			if k.N == 4 || r.P(60) {
				// also more than any JVM has; the format allows it
				giants = append(giants, hp.Giant{Kind: 'p', T: hp.Pick[byte](r, hp.TByte, hp.TBool), N: 1<<31 + uint32(r.N(1<<30))},
					hp.Giant{Kind: 'p', T: hp.TChar, N: 1<<30 + uint32(r.N(1<<29))}, hp.Giant{Kind: 'p', T: hp.TLong, N: 1<<28 + uint32(r.N(1<<27))})
			}
			for _, gi := range giants {
				cls := uint64(0)
				if gi.Kind == 'o' {
					cls = arrays[0]
				}
				ps = append(ps, b.Giant(gi, next, cls))
				m.More = append(m.More, ref.More{Kind: gi.Kind, T: gi.T, Class: ref.ID(cls), Count: 1, Elems: int(gi.N)})
				next++
			}
		} else {
			many := func() int {
				return hp.Pick(r, 32767, 32768, 65535, 65536, 65537, 70000, 99999, 131073, 1<<18+1) - r.N(2)
			}
			inst, oarr, parr := ref.More{Kind: 'i', Class: ref.ID(hp.Pick(r, classes...)), Count: many()},
				ref.More{Kind: 'o', Class: ref.ID(hp.Pick(r, arrays...)), Count: many()}, ref.More{Kind: 'p', T: hp.TByte, Count: many()}
			for j := 0; j < inst.Count; j++ {
				b.Inst(next, uint64(inst.Class))
				next++
			}
			ps = append(ps, b.Segment())
			for j := 0; j < oarr.Count; j++ {
				n := r.N(4)
				b.ObjArr(next, uint64(oarr.Class), n)
				oarr.Elems += n
				next++
			}
			ps = append(ps, b.Segment())
			for j := 0; j < parr.Count; j++ {
				n := r.N(5)
				b.Prim(next, make([]byte, n))
				parr.Elems += n
				next++
			}
			ps = append(ps, b.Segment())
			m.More = append(m.More, inst, oarr, parr)
		}
		all := hp.SpliceAt(x.Data, m.FirstSeg(), ps...)
		dump := k.Path("bulk.hprof")
		if err := all.WriteFile(dump); err != nil {
			fatal("sparse file: %v", err)
		}
		k.files["without-filling.hprof"] = x.Data
		for _, v := range vs {
			res := k.RunOpt(cli.Opt{Timeout: 200 * time.Second, MaxOut: 64 << 20}, vargs(v, dump)...)
			if res.Exit != 0 || res.Crash() != "" {
				k.Fail("%s failed on a well-formed dump of %d bytes with the filling %+v: %v", vname(v), all.Len(), m.More, res)
				return
			}
			if err := Oracle(v, res.Stdout, m); err != nil {
				k.Fail("%s of a dump of %d bytes with the filling %+v: %v", vname(v), all.Len(), m.More, err)
				return
			}
		}
		for _, x := range m.More {
			k.Max("objects of one class", x.Count)
			k.Max("elements of arrays", x.Elems)
		}
		k.Obs("dumps with very many objects or elements", 1)
		k.Eval(fmt.Sprint("bulk", m.More))
	})
}

func threadsCheck(c *Ctx, locals bool) {
	if locals {
		c.overTowers(three[:1], "locals", "frames")
		c.overJVM(three[:1])
	} else {
		c.overTowers([][]string{{"threads"}}, "frames", "threads", "superclasses", "subclasses of Thread", "texts")
		c.overJVM([][]string{{"threads"}})
	}
	c.Cases("world", 300, c.Pick(1000000, 10000000), func(k *Case) {
		o := hp.RandomOpts(k.R)
		o.Props = hp.Pick(k.R, 0, 3)
		o.Threads = hp.Pick(k.R, 0, 1, 2, 5, k.R.N(40))
		o.MaxDepth = hp.Pick(k.R, 0, 3, 12, 40)
		o.Shadow = k.R.P(60)
		o.Names = hp.Pick(k.R, 0, 1, 1)
		if locals {
			o.Locals = hp.Pick(k.R, 1, 3, 8, 20)
		}
		_, x, m := Gen(k.Seed, fmt.Sprint(k.ID, k.N), o, hp.RandomEnc(k.R, idSize(k.R)))
		dump := k.Write("d.hprof", x.Data)
		ts := m.Threads()
		show := locals
		if locals {
			show = k.R.P(85)
		}
		args := Args("threads", dump, "--no-color")
		if show {
			args = append(args, "--local-vars")
		}
		r := k.Run(args...)
		if r.Exit != 0 || r.Crash() != "" {
			k.Fail("threads failed on a well-formed dump: %v", r)
			return
		}
		if err := view.CheckThreads(r.Stdout, ts, show); err != nil {
			k.Fail("locals shown: %v: %v", show, err)
			return
		}
		frames, nl := 0, 0
		for _, t := range ts {
			frames += len(t.Frames)
			k.Seen("status words", fmt.Sprintf("%#x %s", t.Word, t.Status))
			if t.ObjType != "java/lang/Thread" {
				k.Obs("threads of subclasses", 1)
			}
			for _, f := range t.Frames {
				nl += len(f.Locals)
				for _, l := range f.Locals {
					k.Seen("kinds of locals", localKind(l))
				}
				k.Seen("kinds of locations", locKind(f.Loc))
			}
		}
		k.Obs("threads compared", len(ts))
		k.Obs("frames compared", frames)
		k.Max("frames of a report", frames)
		key := ""
		if !locals && frames > 0 || locals && (nl > 0 || !show) {
			key = r.Stdout
		}
		if locals {
			k.Obs("locals compared", nl*b2i(show))
			k.Obs("reports without --local-vars", b2i(!show))
			outside := 0
			for _, x := range m.Roots {
				outside += b2i(x.Kind == hp.RJniLocal || x.Kind == hp.RJavaFrame)
			}
			k.Obs("local roots of no printed frame", outside-nl)
		}
		k.Eval(key)
		if k.N < 2 {
			k.Sample(view.ThreadLines(ts, show)[:min(12, len(view.ThreadLines(ts, show)))])
		}
	})
}

func localKind(l string) string {
	s := "instance"
	if strings.HasPrefix(l, "class ") {
		s = "class object"
	}
	if n := strings.Count(l, "[]"); n > 0 {
		s += fmt.Sprintf(" %d-dim array", n)
		if !strings.Contains(l, ".") && len(l) < 14 {
			s += " of primitives"
		}
	}
	return s
}

func locKind(l string) string {
	switch {
	case l == "":
		return "no file"
	case strings.HasSuffix(l, ":NativeMethod"):
		return "native"
	case strings.HasSuffix(l, ":CompiledMethod"):
		return "compiled"
	case strings.Contains(l, ":"):
		return "line"
	}
	return "file only"
}

func summaryCheck(c *Ctx, id string) {
	if id == "C06" {
		c.overTowers([][]string{{"summary", "--all-props"}}, "properties", "empty bins", "superclasses", "classes")
		c.overJVM([][]string{{"summary", "--all-props"}, {"summary"}})
	} else {
		c.overTowers([][]string{{"summary"}}, "roots", "classes", "strings", "locals")
		c.overJVM([][]string{{"summary"}, {"summary", "--all-props"}})
		defer c.Beside(func() { c.overBulk([][]string{{"summary"}, {"objects"}}) })()
	}
	c.Cases("world", 300, c.Pick(1000000, 10000000), func(k *Case) {
		o := hp.RandomOpts(k.R)
		if id == "C06" {
			o.Props = hp.Pick(k.R, 0, 1, 8, 40, k.R.N(200))
			o.Objects = hp.Pick(k.R, 0, 20, 100)
			o.TreeBins = k.R.P(50)
			o.Chains = k.R.P(85)
			o.Texts = hp.Pick(k.R, 0, 1, 1)
			o.Shadow = k.R.P(50)
		} else {
			o.Props = hp.Pick(k.R, 0, 3)
			o.OtherRoots = k.R.P(80)
			o.Objects = hp.Pick(k.R, 0, 30, 300, k.R.N(2000))
			o.Locals = hp.Pick(k.R, 0, 3, 10)
		}
		g := hp.Gen(k.Seed, fmt.Sprint(id, k.N), o)
		if id == "C07" {
			k.bigClasses(g)
		}
		_, x, m := encode(g, hp.RandomEnc(k.R, idSize(k.R)))
		s := m.Summary()
		// the reader must agree with what was generated
		if len(s.Props) != len(g.Props) {
			panic("oracle disagrees with the generator")
		}
		for _, kv := range s.Props {
			if g.Props[kv.K] != kv.V {
				panic("oracle disagrees with the generator")
			}
		}
		dump := k.Write("d.hprof", x.Data)
		all := id == "C06" && k.R.P(80)
		args := Args("summary", dump, "--no-color")
		if all {
			args = append(args, "--all-props")
		}
		r := k.Run(args...)
		if r.Exit != 0 || r.Crash() != "" {
			k.Fail("summary failed on a well-formed dump: %v", r)
			return
		}
		only := []string{"Environment", "Properties"}
		if id == "C07" {
			only = []string{"Heap", "System"}
		}
		if err := view.CheckSummary(r.Stdout, view.SummarySections(s, all), only...); err != nil {
			k.Fail("all properties: %v: %v", all, err)
			return
		}
		key := ""
		if id == "C06" {
			k.Obs("properties compared", len(s.Props)*b2i(all))
			k.Obs("reports without --all-props", b2i(!all))
			k.Obs("tree bins", s.Tree)
			k.Max("pairs in a bin", s.MaxChain)
			if s.MaxChain > 1 {
				key = fmt.Sprint(all, s.Props)
			}
		} else {
			key = fmt.Sprint(s.Classes, s.Roots, s.Insts, s.HeapSize, s.Uptime)
			kinds := map[byte]bool{}
			for _, x := range m.Roots {
				kinds[x.Kind] = true
				k.Seen("root kinds", fmt.Sprintf("%#02x", x.Kind))
			}
			k.Obs("roots counted", s.Roots)
			k.Obs("objects counted", s.Insts)
			k.Seen("uptimes", s.Uptime)
			r := k.Run(Args("objects", dump, "--no-color")...)
			t, err := view.ParseObjects(r.Stdout)
			if err != nil || r.Exit != 0 {
				k.Fail("objects failed on a well-formed dump: %v", r)
				return
			}
			if t.Instances != fmt.Sprint(s.Insts) {
				k.Fail("objects counts %s instances, summary %d", t.Instances, s.Insts)
				return
			}
			if w := view.SummarySections(s, false)[1].KV[3].V; t.Total != w {
				k.Fail("objects says the size is %s, summary %s", t.Total, w)
				return
			}
		}
		k.Eval(key)
		if k.N < 3 {
			ks := []string{}
			for _, kv := range s.Props {
				ks = append(ks, kv.K)
			}
			sort.Strings(ks)
			k.Sample(map[string]any{"classes": s.Classes, "roots": s.Roots, "instances": s.Insts, "size": s.HeapSize, "uptime": s.Uptime, "keys": ks[:min(6, len(ks))]})
		}
	})
}
