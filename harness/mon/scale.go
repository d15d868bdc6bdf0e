package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vh/cli"
	"vh/hp"
)

func init() {
	register("C31", "exploration",
		"pairs of dumps, the second with eight times as much of one thing (some thirty things one after another: strings, classes, fields, constants, rows, objects of each kind, elements, contents, segments, roots of each kind, threads, frames, depths of stacks and hierarchies, local variables, properties, lengths of texts and names); the processor time of each command, indexing and reusing the index, must not be 20 times as much (and half a second; measured again if it seems to be), and the index must not be larger than 32 bytes for each object and 4 for each byte of the other records; distinct by thing, command and state",
		checkScale)
}

// dimension is something a dump can have much of.
type dimension struct {
	name string
	n    int // of the smaller dump
	add  func(g *hp.G, n int)
	cmds [][]string // all of three if nil
}

func dimensions() []dimension {
	thread := func(g *hp.G, i int, name hp.H, frames ...*hp.Frame) uint32 {
		tid := int64(1000000 - i) // in descending order
		const T = "java/lang/Thread"
		ser := uint32(1000 + i)
		t := g.NewInst(g.Class(T))
		t.Set(T, "name", hp.Obj(name)).Set(T, "priority", hp.Int(5)).Set(T, "tid", hp.Long(tid)).Set(T, "threadStatus", hp.Int(5))
		g.Traces = append(g.Traces, &hp.Trace{Thread: ser, Frames: frames})
		g.Roots = append(g.Roots, &hp.Root{Kind: hp.RThread, Obj: t.H, Thread: ser, Frame: int32(len(g.Traces) - 1)})
		return ser
	}
	frame := func(g *hp.G, i int) *hp.Frame {
		f := &hp.Frame{Method: fmt.Sprint("m", i), Sig: "(I)V", File: fmt.Sprintf("F%d.java", i%100), Cls: g.Class("java/lang/Thread"), Line: int32(1 + i%1000)}
		g.Frames = append(g.Frames, f)
		return f
	}
	object := func(g *hp.G) *hp.Class { return g.Class("java/lang/Object") }
	roots := func(kind byte) func(g *hp.G, n int) {
		return func(g *hp.G, n int) {
			o := g.NewInst(object(g))
			for i := 0; i < n; i++ {
				g.Roots = append(g.Roots, &hp.Root{Kind: kind, Obj: o.H, Thread: 1, Frame: int32(i), Jni: uint64(i)})
			}
		}
	}
	locals := func(kind byte, deep bool) func(g *hp.G, n int) {
		return func(g *hp.G, n int) {
			fs := []*hp.Frame{frame(g, 0), frame(g, 1)}
			if deep {
				for i := 2; i < n; i++ {
					fs = append(fs, fs[i%2])
				}
			}
			ser := thread(g, 0, g.JString("many locals"), fs...)
			o := []hp.H{g.NewInst(object(g)).H, g.NewObjArr(g.Class("[Ljava/lang/Object;"), nil).H, g.NewPrimArr(hp.TInt, nil).H, object(g).H}
			for i := 0; i < n; i++ {
				g.Roots = append(g.Roots, &hp.Root{Kind: kind, Obj: o[i%4], Thread: ser, Frame: int32(i % len(fs))})
			}
		}
	}
	long := func(n int) string { return strings.Repeat("abcdefg ", n/8) }
	th, su, ob := three[0], three[1], three[2]
	html := func(v []string) []string { return append(append([]string{}, v...), "--output", "html") }
	return []dimension{
		{"strings", 100000, func(g *hp.G, n int) {
			for i := 0; i < n; i++ {
				g.Extra = append(g.Extra, fmt.Sprint("string number ", i))
			}
		}, nil},
		{"classes", 30000, func(g *hp.G, n int) {
			for i := 0; i < n; i++ {
				g.AddClass(fmt.Sprint("many/Class", i), object(g), 16, hp.Field{Name: fmt.Sprint("f", i%7), T: hp.TInt})
			}
		}, nil},
		{"classes with instances", 18000, func(g *hp.G, n int) {
			for i := 0; i < n; i++ {
				g.NewInst(g.AddClass(fmt.Sprint("many/Class", i), object(g), 16))
			}
		}, [][]string{ob, {"objects", "--sort-by", "size"}, html(ob), su}},
		{"array classes with arrays", 18000, func(g *hp.G, n int) {
			for i := 0; i < n; i++ {
				g.NewObjArr(g.AddClass(fmt.Sprintf("[Lmany/Class%d;", i), object(g), 16), nil)
			}
		}, [][]string{ob, html(ob)}},
		{"classes of one name", 18000, func(g *hp.G, n int) {
			for i := 0; i < n; i++ {
				g.NewInst(g.AddClass("many/Class", object(g), 16))
			}
		}, [][]string{ob, html(ob)}},
		{"levels of a hierarchy", 8000, func(g *hp.G, n int) {
			c := g.Class("java/lang/Thread")
			for i := 0; i < n; i++ {
				c = g.AddClass(fmt.Sprint("deep/Class", i), c, 16)
			}
			const T = "java/lang/Thread"
			i := g.NewInst(c)
			i.Set(T, "name", hp.Obj(g.JString("deep")))
			g.Traces = append(g.Traces, &hp.Trace{Thread: 999})
			g.Roots = append(g.Roots, &hp.Root{Kind: hp.RThread, Obj: i.H, Thread: 999, Frame: int32(len(g.Traces) - 1)})
		}, nil},
		{"fields of a class", 5000, func(g *hp.G, n int) {
			c := g.AddClass("wide/Class", g.Class("java/lang/Thread"), 16)
			for i := 0; i < n; i++ {
				c.Fields = append(c.Fields, hp.Field{Name: fmt.Sprint("field", i), T: hp.AllTypes[i%9]})
			}
			const T = "java/lang/Thread"
			i := g.NewInst(c)
			i.Set(T, "name", hp.Obj(g.JString("wide")))
			g.Traces = append(g.Traces, &hp.Trace{Thread: 999})
			g.Roots = append(g.Roots, &hp.Root{Kind: hp.RThread, Obj: i.H, Thread: 999, Frame: int32(len(g.Traces) - 1)})
		}, nil},
		{"static fields", 5000, func(g *hp.G, n int) {
			c := g.Class("java/lang/System")
			for i := 0; i < min(n, 50000); i++ {
				c.Statics = append(c.Statics, hp.Static{Name: fmt.Sprint("static", i), V: hp.Int(int32(i))})
			}
		}, nil},
		{"classes with constants and static fields", 3000, func(g *hp.G, n int) {
			for i := 0; i < n; i++ {
				c := g.AddClass(fmt.Sprint("many/Class", i), object(g), 16)
				for j := 0; j < 20; j++ {
					c.Consts = append(c.Consts, hp.Const{Idx: uint16(j), V: hp.Long(int64(j))})
					c.Statics = append(c.Statics, hp.Static{Name: fmt.Sprint("s", j), V: hp.Int(int32(j))})
				}
			}
		}, nil},
		{"instances", 150000, func(g *hp.G, n int) {
			for i := 0; i < n; i++ {
				g.NewInst(object(g))
			}
		}, nil},
		{"reference arrays", 150000, func(g *hp.G, n int) {
			c := g.Class("[Ljava/lang/Object;")
			for i := 0; i < n; i++ {
				g.NewObjArr(c, nil)
			}
		}, nil},
		{"primitive arrays", 150000, func(g *hp.G, n int) {
			for i := 0; i < n; i++ {
				g.NewPrimArr(hp.PrimTypes[i%8], nil)
			}
		}, nil},
		{"elements of arrays", 4 << 20, func(g *hp.G, n int) {
			g.NewPrimArr(hp.TByte, make([]byte, n))
			g.NewPrimArr(hp.TLong, make([]byte, n*4))
			g.NewObjArr(g.Class("[Ljava/lang/Object;"), make([]hp.H, n/8))
		}, nil},
		{"threads", 6000, func(g *hp.G, n int) {
			f := []*hp.Frame{frame(g, 0), frame(g, 1)}
			for i := 0; i < n; i++ {
				thread(g, i, g.JString(fmt.Sprint("thread ", i)), f...)
			}
		}, [][]string{th, html(th), su}},
		{"threads with local variables", 3000, func(g *hp.G, n int) {
			f := []*hp.Frame{frame(g, 0), frame(g, 1)}
			o := g.NewInst(object(g))
			for i := 0; i < n; i++ {
				ser := thread(g, i, g.JString(fmt.Sprint("thread ", i)), f...)
				for j := 0; j < 4; j++ {
					g.Roots = append(g.Roots, &hp.Root{Kind: hp.RJavaFrame, Obj: o.H, Thread: ser, Frame: int32(j % 2)})
				}
			}
		}, [][]string{th, html(th)}},
		{"frames", 40000, func(g *hp.G, n int) {
			for t := 0; t < 20; t++ {
				var fs []*hp.Frame
				for i := 0; i < n/20; i++ {
					fs = append(fs, frame(g, t*n+i))
				}
				thread(g, t, g.JString("frames"), fs...)
			}
		}, [][]string{th, html(th), su}},
		{"depth of a stack", 30000, func(g *hp.G, n int) {
			fs := []*hp.Frame{frame(g, 0), frame(g, 1)}
			for i := 2; i < n; i++ {
				fs = append(fs, fs[i%2])
			}
			thread(g, 0, g.JString("deep"), fs...)
		}, [][]string{th, html(th), su}},
		{"Java locals of a frame", 20000, locals(hp.RJavaFrame, false), [][]string{th, html(th), su}},
		{"JNI locals of a frame", 20000, locals(hp.RJniLocal, false), [][]string{th, html(th), su}},
		{"Java locals of a deep stack", 16000, locals(hp.RJavaFrame, true), [][]string{th, html(th), su}},
		{"JNI globals", 150000, roots(hp.RJniGlobal), nil},
		{"sticky classes", 150000, roots(hp.RSticky), nil},
		{"roots of other kinds", 200000, func(g *hp.G, n int) {
			for i, k := range []byte{hp.RUnknown, hp.RNativeStack, hp.RThreadBlock, hp.RMonitor} {
				_ = i
				roots(k)(g, n/4)
			}
		}, nil},
		{"properties", 16000, func(g *hp.G, n int) {
			var kvs [][2]string
			for i := 0; i < n; i++ {
				kvs = append(kvs, [2]string{fmt.Sprint("key", i), fmt.Sprint("value", i)})
			}
			properties(g, kvs)
		}, [][]string{su, html(su), ob}},
		{"slots for properties", 100000, func(g *hp.G, n int) {
			g.Slots = n
			properties(g, [][2]string{{"a", "b"}, {"c", "d"}, {"e", "f"}})
		}, [][]string{su, html(su)}},
		{"colliding properties", 16000, func(g *hp.G, n int) {
			g.Slots = 1
			var kvs [][2]string
			for i := 0; i < n; i++ {
				kvs = append(kvs, [2]string{fmt.Sprint("key", i), fmt.Sprint("value", i)})
			}
			properties(g, kvs)
		}, [][]string{su, html(su)}},
		{"length of a property", 2 << 20, func(g *hp.G, n int) {
			properties(g, [][2]string{{"long", long(n)}})
		}, [][]string{su, html(su)}},
		{"length of a thread's name", 2 << 20, func(g *hp.G, n int) {
			thread(g, 0, g.JString(long(n)))
		}, [][]string{th, html(th)}},
		{"length of a UTF-16 name", 1 << 20, func(g *hp.G, n int) {
			thread(g, 0, g.JString(strings.Repeat("ж€abcd😀", n/8)))
		}, [][]string{th, html(th)}},
		{"length of a descriptor", 1000000, func(g *hp.G, n int) {
			f := frame(g, 0)
			f.Sig = "(" + strings.Repeat("I[[JLjava/util/Map;", n/20) + ")V"
			thread(g, 0, g.JString("long"), f)
		}, [][]string{th, html(th)}},
		{"length of a class name", 1000000, func(g *hp.G, n int) {
			c := g.AddClass("long/"+strings.Repeat("Name/", n/5)+"X", object(g), 16)
			g.NewInst(c)
			f := frame(g, 0)
			f.Cls = c
			thread(g, 0, g.JString("long"), f)
		}, [][]string{th, ob, html(ob)}},
		{"length of strings", 4 << 20, func(g *hp.G, n int) {
			for i := 0; i < 4; i++ {
				g.Extra = append(g.Extra, fmt.Sprint(i, long(n)))
			}
		}, nil},
	}
}

const growth = 8

// slack is what the larger dump may take when the smaller one takes d.
func slack(d time.Duration) time.Duration { return growth*d*5/2 + time.Second/2 }

// properties replaces the system properties.
func properties(g *hp.G, kvs [][2]string) {
	h := g.MoreProps(kvs)
	for i, st := range g.Class("java/lang/System").Statics {
		if st.Name == "props" {
			g.Class("java/lang/System").Statics[i].V = hp.Obj(h)
		}
	}
}

func checkScale(c *Ctx) {
	type job struct {
		d   dimension
		seg int // objects in a segment, 0: usual
		id  int
	}
	var jobs []job
	for i, d := range dimensions() {
		if c.Thorough {
			d.n *= 2
			jobs = append(jobs, job{d, 0, 4}, job{d, 1 + i%3, 8})
		}
		jobs = append(jobs, job{d, 0, 8})
	}
	for _, d := range dimensions() {
		switch d.name {
		case "instances", "sticky classes":
			d.n /= 2
			d.name += ", one in a segment"
			jobs = append(jobs, job{d, 1, 8})
		}
	}
	var mu sync.Mutex
	var failed atomic.Bool
	worst := map[string]float64{}
	c.Cases("scale", len(jobs), len(jobs), func(k *Case) {
		if failed.Load() {
			return // one is enough, they may take long
		}
		j := jobs[k.N]
		cmds := j.d.cmds
		if cmds == nil {
			cmds = three
		}
		ns := []int{j.d.n / growth, j.d.n, j.d.n * growth}
		var dumps [3]string
		for i, n := range ns {
			g := hp.Gen(k.Seed, fmt.Sprint("C31", k.N), hp.Opts{Classes: 3, Objects: 20, Threads: 2, MaxDepth: 5, Props: 10, Locals: 3, Chains: true})
			j.d.add(g, n)
			e := hp.DefaultEnc(j.id)
			e.SegMax = j.seg
			data := g.Encode(e).Data
			dumps[i] = k.Path(fmt.Sprintf("dump%d.hprof", i))
			if err := os.WriteFile(dumps[i], data, 0o644); err != nil {
				fatal("%v", err)
			}
			k.Max("bytes of a dump", len(data))
			if i == 1 {
				m := model(data)
				r := k.Run(vargs(cmds[0], dumps[i])...)
				if r.Exit != 0 {
					k.Fail("%s on a dump with %d %s: %v", vname(cmds[0]), n, j.d.name, r)
					return
				}
				if err := Oracle(cmds[0], r.Stdout, m); err != nil {
					k.Fail("%s on a dump with %d %s: %v", vname(cmds[0]), n, j.d.name, err)
					return
				}
			}
		}
		for i, v := range cmds {
			for _, state := range []string{"indexing", "with index"} {
				if state == "indexing" && i > 0 || failed.Load() {
					continue
				}
				cost := func(dump string, limit time.Duration) (time.Duration, *cli.Result) {
					if state == "indexing" {
						os.RemoveAll(dump + ".db")
					}
					r := k.RunOpt(cli.Opt{Timeout: limit, Env: []string{"GOMAXPROCS=2"}, MaxOut: 1 << 20}, vargs(v, dump)...)
					return r.CPU, r
				}
				for pair := 1; pair < len(dumps); pair++ { // the small ones first: larger ones may take long
					bad := false
					var a, b time.Duration
					for try, far := 0, 0; try < 4 && far < 1 && !failed.Load(); try++ {
						x, r := cost(dumps[pair-1], 120*time.Second)
						if r.Exit != 0 {
							k.Fail("%s on a dump with %d %s: %v", vname(v), ns[pair-1], j.d.name, r)
							return
						}
						y, r := cost(dumps[pair], 4*slack(max(x, a))+5*time.Second)
						if r.Exit != 0 && !r.TimedOut {
							k.Fail("%s on a dump with %d %s: %v", vname(v), ns[pair], j.d.name, r)
							return
						}
						a = max(a, x)
						if try == 0 {
							b = y
						}
						b = min(b, y)
						if y > 2*slack(a) {
							far++ // no noise
						}
						if bad = b > slack(a); !bad {
							break
						}
					}
					k.Obs("pairs of times compared", 1)
					k.Eval(fmt.Sprint(j.d.name, j.id, j.seg, vname(v), state, pair))
					key := j.d.name + ", " + vname(v) + ", " + state
					if pair > 1 {
						mu.Lock()
						worst[key] = max(worst[key], float64(b)/float64(a+30*time.Millisecond))
						mu.Unlock()
					}
					if os.Getenv("VH_DEBUG") != "" {
						fmt.Printf("%6.1f  %v %v  %d %s\n", float64(b)/float64(a), a, b, pair, key)
					}
					if bad {
						failed.Store(true)
						k.Fail("%s (%s) takes %v of processor time on a dump with %d %s, and %v on one with %d", vname(v), state, a, ns[pair-1], j.d.name, b, ns[pair])
						return
					}
				}
			}
		}
		// the index
		for i, dump := range dumps {
			var size int64
			fs, err := os.ReadDir(dump + ".db")
			if err != nil {
				continue
			}
			for _, f := range fs {
				if fi, err := f.Info(); err == nil {
					size += fi.Size()
				}
			}
			data, err := os.ReadFile(dump)
			if err != nil {
				fatal("%v", err)
			}
			m := model(data)
			other := len(data)
			for _, o := range m.Objs {
				other -= len(o.Data) + 9 + 2*m.IDSize
				if o.Kind == 'p' {
					other -= 1 - m.IDSize
				}
			}
			k.Max("bytes of an index", int(size))
			if limit := int64(len(m.Objs)*32 + 4*other + 1<<16); size > limit {
				k.Fail("the index of a dump with %d %s takes %d bytes: %d objects, %d bytes of other records", ns[i], j.d.name, size, len(m.Objs), other)
				return
			}
			k.Obs("sizes of indexes compared", 1)
		}
	})
	w, key := 0.0, ""
	for n, x := range worst {
		if x > w {
			w, key = x, n
		}
	}
	c.Note("largest growth of processor time when a thing grew 8 times: %.1f (%s)", w, key)
}
