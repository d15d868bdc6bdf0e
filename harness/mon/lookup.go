package main

import (
	"fmt"
	"time"

	"vh/cli"
	"vh/hp"
	"vh/ref"
	"vh/view"
)

func init() {
	register("C02", "exploration",
		"in process: every object of random dumps (dense and sparse identifiers near 0, 2^31, 2^32, 2^63, 2^64) looked up in random order, header and contents compared with an independent reading; identifiers of neighbours, of other kinds and extreme ones must not be found; dumps of about 1 and 2 million objects of each kind around the index write batch; objects behind 2, 4 and 5 GiB of arrays. Black box: reports of sparse dumps of several GiB and millions of objects. Distinct by dump, non-trivial with at least two objects",
		func(c *Ctx) {
			done := make(chan bool)
			go func() { c.farReports(); close(done) }()
			c.InProcess(c.Probe, c.Pick(200, 2000), c.left()-1)
			<-done
		})
	register("C03", "exploration",
		"in process: random dumps with extreme records of all kinds (empty, binary and 5 MiB strings; classes of up to 65535 fields; every value of nine types; line numbers; traces of 20000 frames; tens of thousands of roots; any timestamp) are indexed, saved, restored and every record compared with an independent reading; black box: all reports through the index against the oracle; distinct by numbers of records and encoding",
		func(c *Ctx) {
			c.overJVM(full)
			c.overReports("reports", 30, 0.25, nil)
			c.InProcess(c.Probe, c.Pick(200, 2000), c.left())
		})
	register("C08", "exploration",
		"in process: random hierarchies of up to 60 classes whose fields hide each other, all nine types, up to thousands of fields; every field name of every instance is read in random order and compared bit by bit with an independent reading, undeclared names must fail; classes and chains of superclasses are compared; black box: reports of threads and properties of shadowing subclasses; non-trivial if fields were read, distinct by dump",
		func(c *Ctx) {
			c.overReports("reports", 30, 0.25, func(k *Case, o *hp.Opts) {
				o.Shadow, o.Threads, o.Classes = true, 1+k.R.N(8), 8
			})
			c.InProcess(c.Probe, c.Pick(150, 2000), c.left())
		})
}

// farReports compares the reports of huge sparse dumps with those of the same
// heap without the filling.
func (c *Ctx) farReports() {
	n := c.Pick(4, 16)
	for i := 0; i < n; i++ {
		c.One("far", i, func(k *Case) {
			r := k.R
			id := []int{8, 4}[(i/2+i)%2]
			o := hp.RandomOpts(r)
			o.Threads, o.Locals, o.Props, o.Names = 4, 6, 20, 0
			g := hp.Gen(k.Seed, fmt.Sprint("far", i), o)
			e := hp.RandomEnc(r, id)
			e.ObjBase = 1 << 40
			if id == 4 {
				e.ObjBase = 1 << 30
			}
			_, x, m := encode(g, e)
			var object, array uint64
			for cid, d := range m.Class {
				if d.Super == 0 {
					object = cid
				}
			}
			for _, o := range m.OArr {
				array = max(array, o.Class)
			}
			b := &hp.Bulk{IDSize: id}
			var ps []hp.Piece
			next := uint64(1)
			insts := 0
			add := func(gs ...hp.Giant) {
				for _, g := range gs {
					cls, more := array, ref.More{Kind: g.Kind, T: g.T, Class: ref.ID(array), Count: 1, Elems: int(g.N)}
					if g.Kind == 'i' {
						cls, more.Class = object, ref.ID(object)
					}
					ps = append(ps, b.Giant(g, next, cls))
					m.More = append(m.More, more)
					next++
				}
			}
			switch i % 4 {
			case 0:
				for j := 0; j < 5; j++ {
					add(hp.Giant{Kind: 'p', T: hp.TByte, N: 1 << 30})
				}
			case 1:
				add(hp.Giant{Kind: 'p', T: hp.TByte, N: 1<<31 - 100})
				insts = 2_000_002 + r.N(3)
				m.More = append(m.More, ref.More{Kind: 'i', Class: ref.ID(object), Count: insts})
			case 2:
				add(hp.Giant{Kind: 'o', N: uint32(1<<32/id + r.N(9)), Unsized: true}, hp.Giant{Kind: 'p', T: hp.TBool, N: 1 << 31})
			case 3:
				add(hp.Giant{Kind: 'p', T: hp.Pick[byte](r, hp.TLong, hp.TDouble), N: 1<<29 + uint32(r.N(9)), Unsized: true},
					hp.Giant{Kind: 'i', N: 1<<31 + 5}, hp.Giant{Kind: 'o', N: uint32(1<<31/id + r.N(9))})
			}
			for j := 0; j < insts; j++ {
				b.Inst(next, object)
				next++
				if b.Len() > 16<<20 {
					ps = append(ps, b.Segment())
				}
			}
			if b.Len() > 0 {
				ps = append(ps, b.Segment())
			}
			all := hp.SpliceAt(x.Data, m.FirstSeg(), ps...)
			dump := k.Path("far.hprof")
			if err := all.WriteFile(dump); err != nil {
				fatal("sparse file: %v", err)
			}
			k.files["without-filling.hprof"] = x.Data
			opt := cli.Opt{Timeout: 200 * time.Second}
			th := k.RunOpt(opt, Args("threads", dump, "--no-color", "--local-vars")...)
			if th.Exit != 0 {
				k.Fail("threads on a dump of %d bytes with %d filling instances: %v", all.Len(), insts, th)
				return
			}
			if err := view.CheckThreads(th.Stdout, m.Threads(), true); err != nil {
				k.Fail("threads on a dump of %d bytes with %d filling instances: %v", all.Len(), insts, err)
				return
			}
			su := k.RunOpt(opt, Args("summary", dump, "--no-color", "--all-props")...)
			if su.Exit != 0 {
				k.Fail("summary on a dump of %d bytes: %v", all.Len(), su)
				return
			}
			if err := view.CheckSummary(su.Stdout, view.SummarySections(m.Summary(), true), "Environment", "Properties"); err != nil {
				k.Fail("summary on a dump of %d bytes with %d filling instances: %v", all.Len(), insts, err)
				return
			}
			ob := k.RunOpt(opt, Args("objects", dump, "--no-color")...)
			if ob.Exit != 0 {
				k.Fail("objects on a dump of %d bytes: %v", all.Len(), ob)
				return
			}
			t, err := view.ParseObjects(ob.Stdout)
			if err == nil {
				err = view.CheckObjects(t, m)
			}
			if err != nil {
				k.Fail("objects on a dump of %d bytes: %v", all.Len(), err)
				return
			}
			c.Obs("reports of huge dumps", 3)
			c.Max("size of a dump, MiB", int(all.Len()>>20))
			c.Eval(fmt.Sprint("far", i, len(x.Data)))
		})
	}
}
