package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"vh/cli"
	"vh/hp"
	"vh/ref"
)

func init() {
	register("C20", "exploration",
		"pairs of dumps with the same symbol data: one with 1.1 million instances, reference arrays and primitive arrays each (enough to fill every buffer of the tool), one with several times as many, or as many gigabytes of contents (sparse files), in one segment or in many, grouped or interleaved; the peak resident memory of every command, indexing and reusing the index, with different settings of the garbage collector, must not be larger than on the first (with a tolerance of 15 to 30 % and 32 MiB) nor than a constant; the rows of the added objects must be right; distinct by dump and command",
		checkMemory)
}

// heavy writes a dump with very many objects.
type heavy struct {
	name  string
	n     [3]int // instances, reference arrays, primitive arrays
	elems [3]int // 1 for instances with 80 KB of fields; elements of each array
	seg   int    // objects in a segment
	mix   bool   // interleaved kinds
	zeros []zero // large sparse arrays
	id    int
	refs  bool // local variables refer to some of the objects
	far   bool // the last object of each kind has an identifier far away
}

// zero is one large sparse array.
type zero struct {
	kind byte
	n    uint32 // elements
	typ  byte
}

const wideFields = 10000

const tolerance = 32 << 20

type sparse struct {
	f   *os.File
	off int64
	buf []byte
}

func (s *sparse) write(b []byte) {
	s.buf = append(s.buf, b...)
	if len(s.buf) > 4<<20 {
		s.flush()
	}
}

func (s *sparse) flush() {
	if _, err := s.f.WriteAt(s.buf, s.off); err != nil {
		fatal("write: %v", err)
	}
	s.off += int64(len(s.buf))
	s.buf = s.buf[:0]
}

func (s *sparse) skip(n int64) { s.flush(); s.off += n }

// write puts the heavy objects behind those of the dump, before its end record.
func (h *heavy) write(path string, data []byte, mo *ref.Model, class, wide, arrClass uint64) {
	end := mo.End - 9
	var thread uint32
	for _, r := range mo.Roots {
		if r.Kind == hp.RThread {
			thread = r.A
		}
	}
	f, err := os.Create(path)
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	s := &sparse{f: f}
	s.write(data[:end])
	id := func(b []byte, v uint64) []byte {
		if h.id == 4 {
			return binary.BigEndian.AppendUint32(b, uint32(v))
		}
		return binary.BigEndian.AppendUint64(b, v)
	}
	next := uint64(1) << 40
	if h.id == 4 {
		next = 0xc0000000
	}
	one := func(b []byte, kind, n int) []byte {
		next += 3
		switch kind {
		case 0:
			c := class
			if n > 0 {
				c, n = wide, wideFields*8
			}
			b = append(id(append(b, 0x21), next), 0, 0, 0, 1)
			b = binary.BigEndian.AppendUint32(id(b, c), uint32(n))
		case 1:
			b = id(append(b, 0x22), next)
			b = binary.BigEndian.AppendUint32(append(b, 0, 0, 0, 1), uint32(n))
			b = id(b, arrClass)
			n *= h.id
		default:
			b = id(append(b, 0x23), next)
			b = binary.BigEndian.AppendUint32(append(b, 0, 0, 0, 1), uint32(n))
			b = append(b, hp.TByte)
		}
		return append(b, zeroes[:n]...)
	}
	var b []byte
	inSeg := 0
	cut := func() {
		if inSeg > 0 {
			s.write(binary.BigEndian.AppendUint32([]byte{0x1c, 0, 0, 0, 0}, uint32(len(b))))
			s.write(b)
			b, inSeg = b[:0], 0
		}
	}
	var locals []*ref.Obj
	var seen [3]int
	put := func(kind int) {
		b = one(b, kind, h.elems[kind])
		seen[kind]++
		if n := h.n[kind]; h.refs && (seen[kind] == n/2+1 || seen[kind] == n/10*9 || seen[kind] == n) {
			o := &ref.Obj{ID: ref.ID(next), T: hp.TByte, N: uint32(h.elems[kind])}
			switch kind {
			case 0:
				o.Kind, o.Class, o.N = 'i', ref.ID(class), 0
				mo.Inst[o.ID] = o
			case 1:
				o.Kind, o.Class = 'o', ref.ID(arrClass)
				mo.OArr[o.ID] = o
			default:
				o.Kind = 'p'
				mo.PArr[o.ID] = o
			}
			locals = append(locals, o)
		}
		inSeg++
		if inSeg >= h.seg {
			cut()
		}
	}
	if h.mix {
		for i := 0; i < max(h.n[0], h.n[1], h.n[2]); i++ {
			for kind, n := range h.n {
				if i < n {
					put(kind)
				}
			}
		}
	} else {
		for kind, n := range h.n {
			for i := 0; i < n; i++ {
				put(kind)
			}
		}
	}
	if h.far {
		next = 1<<63 + 1<<40
		if h.id == 4 {
			next = 0xffffff00
		}
		for kind := range h.n {
			put(kind)
		}
	}
	cut()
	for _, o := range locals {
		mo.Roots = append(mo.Roots, ref.Root{Kind: hp.RJavaFrame, Obj: o.ID, A: thread})
		b := binary.BigEndian.AppendUint32(id([]byte{hp.RJavaFrame}, uint64(o.ID)), thread)
		b = append(b, 0, 0, 0, 0)
		s.write(binary.BigEndian.AppendUint32([]byte{0x1c, 0, 0, 0, 0}, uint32(len(b))))
		s.write(b)
	}
	for i, z := range h.zeros {
		next += 3
		var b []byte
		size := int64(z.n)
		switch z.kind {
		case 0x22:
			b = id(append(b, 0x22), next)
			b = binary.BigEndian.AppendUint32(append(b, 0, 0, 0, 1), z.n)
			b = id(b, arrClass)
			size *= int64(h.id)
		default:
			b = id(append(b, 0x23), next)
			b = binary.BigEndian.AppendUint32(append(b, 0, 0, 0, 1), z.n)
			b = append(b, z.typ)
			size *= int64(hp.Width(z.typ, h.id))
		}
		if size+int64(len(b)) > 1<<32-1 {
			fatal("object of %d bytes", size)
		}
		s.write(binary.BigEndian.AppendUint32([]byte{0x1c, 0, 0, 0, 0}, uint32(size+int64(len(b)))))
		s.write(b)
		s.skip(size)
		if i < 6 { // a local variable of a thread refers to it
			o := &ref.Obj{Kind: 'p', ID: ref.ID(next), T: z.typ, N: z.n}
			if z.kind == 0x22 {
				o.Kind, o.Class = 'o', ref.ID(arrClass)
				mo.OArr[o.ID] = o
			} else {
				mo.PArr[o.ID] = o
			}
			mo.Roots = append(mo.Roots, ref.Root{Kind: hp.RJavaFrame, Obj: o.ID, A: thread})
			b := binary.BigEndian.AppendUint32(id([]byte{hp.RJavaFrame}, next), thread)
			b = append(b, 0, 0, 0, 0)
			s.write(binary.BigEndian.AppendUint32([]byte{0x1c, 0, 0, 0, 0}, uint32(len(b))))
			s.write(b)
		}
	}
	s.write(data[end:])
	s.flush()
}

var zeroes = make([]byte, wideFields*8)

// more are the added objects.
func (h *heavy) more(class, wide, arrClass uint64) (out []ref.More) {
	c := ref.ID(class)
	if h.elems[0] > 0 {
		c = ref.ID(wide)
	}
	n := h.n
	if h.far {
		for i := range n {
			n[i]++
		}
	}
	out = append(out, ref.More{Kind: 'i', Class: c, Count: n[0]},
		ref.More{Kind: 'o', Class: ref.ID(arrClass), Count: n[1], Elems: n[1] * h.elems[1]},
		ref.More{Kind: 'p', T: hp.TByte, Count: n[2], Elems: n[2] * h.elems[2]})
	for _, z := range h.zeros {
		switch z.kind {
		case 0x22:
			out = append(out, ref.More{Kind: 'o', Class: ref.ID(arrClass), Count: 1, Elems: int(z.n)})
		default:
			out = append(out, ref.More{Kind: 'p', T: z.typ, Count: 1, Elems: int(z.n)})
		}
	}
	return
}

func checkMemory(c *Ctx) {
	const m = 1 << 20
	full := [3]int{m + 100000, m + 100000, m + 100000}
	few := [3]int{100, 100, 100}
	var zb, zo, zm []zero
	for i := 0; i < 4; i++ {
		zb = append(zb, zero{0x23, 1<<31 - 1, hp.TByte}, zero{0x23, 1<<29 - 10, hp.TLong})
		zo = append(zo, zero{0x22, 1<<28 - 1, 0})
	}
	for i := 0; i < 2000; i++ {
		zm = append(zm, zero{0x22, 200000, 0}, zero{0x23, 500000, hp.TInt})
	}
	var zs []zero
	for i := 0; i < c.Pick(5, 12); i++ {
		for j, n := range []uint32{16 << 20, 40 << 20, 60 << 20, 100 << 20, 250 << 20, 500 << 20} {
			zs = append(zs, zero{0x23, n - 10, []byte{hp.TByte, hp.TByte, hp.TBool}[(i+j)%3]}, zero{0x22, n / 16, 0})
		}
	}
	bases := []*heavy{{name: "1.1 million objects of each kind", n: full, seg: 1000},
		{name: "1.1 million objects of each kind, interleaved", n: full, seg: 1000, mix: true}}
	hs := []*heavy{
		{name: "5 million objects of each kind", n: [3]int{5 * m, 5 * m, 5 * m}, seg: 1000},
		{name: "8 million instances in few segments", n: [3]int{8 * m, 100, 100}, seg: 4 * m},
		{name: "8 million reference arrays, one per segment", n: [3]int{100, 8 * m, 100}, seg: 1},
		{name: "8 million primitive arrays in one segment", n: [3]int{100, 100, 8 * m}, seg: 1 << 30},
		{name: "4 million objects of each kind, interleaved", n: [3]int{4 * m, 4 * m, 4 * m}, seg: 100000, mix: true},
		{name: "large primitive arrays, 24 GiB", n: few, seg: 1000, zeros: zb},
		{name: "large reference arrays, 4 to 8 GiB", n: few, seg: 1000, zeros: zo},
		{name: "arrays of 16 to 500 MB", n: few, seg: 1000, zeros: zs},
		{name: "4000 arrays of 2 MB", n: few, seg: 1000, zeros: zm},
		{name: "20000 instances of 80 KB", n: [3]int{20000, 100, 100}, elems: [3]int{1, 0, 0}, seg: 100},
		{name: "1 million objects with contents", n: [3]int{m / 2, m / 4, m / 4}, elems: [3]int{0, 100, 300}, seg: 3000},
	}
	if c.Thorough {
		hs = append(hs,
			&heavy{name: "30 million instances", n: [3]int{30 * m, 100, 100}, seg: 1000},
			&heavy{name: "30 million reference arrays", n: [3]int{100, 30 * m, 100}, seg: 100000},
			&heavy{name: "30 million primitive arrays", n: [3]int{100, 100, 30 * m}, seg: 1000},
			&heavy{name: "12 million objects of each kind, interleaved", n: [3]int{12 * m, 12 * m, 12 * m}, seg: 7, mix: true},
			&heavy{name: "3 million objects with contents", n: [3]int{m, m, m}, elems: [3]int{0, 300, 1000}, seg: 3000})
	}
	var mu sync.Mutex
	type key struct {
		cmd  string
		gogc string
		id   int
		mix  bool
	}
	peak := map[key]int64{}
	gogcs := []string{"100", "10"}
	ids := []int{8}
	if c.Thorough {
		ids = []int{8, 4}
	}
	// what a dump takes: peaks of commands
	measure := func(h heavy, each func(k key, mem int64, h *heavy, run *Case, r *cli.Result)) func(k *Case) {
		return func(k *Case) {
			g := hp.Gen(k.Seed, fmt.Sprint("C20", h.id), hp.Opts{Classes: 2, Objects: 20, Threads: 3, MaxDepth: 5, Props: 20, Locals: 3})
			object := g.Class("java/lang/Object")
			lc := g.AddClass("heavy/Leaf", object, 16)
			wc := g.AddClass("heavy/Wide", object, 16+8*wideFields)
			for i := 0; i < wideFields; i++ {
				wc.Fields = append(wc.Fields, hp.Field{Name: fmt.Sprint("f", i), T: hp.TLong})
			}
			ac := g.AddClass("[Lheavy/Leaf;", object, 0)
			_, x, mo := encode(g, hp.DefaultEnc(h.id))
			cls, wide, arr := x.ObjID(lc.H), x.ObjID(wc.H), x.ObjID(ac.H)
			mo.More = h.more(cls, wide, arr)
			dir := k.Path("d")
			os.Mkdir(dir, 0o755)
			dump := filepath.Join(dir, "d.hprof")
			h.write(dump, x.Data, mo, cls, wide, arr)
			fi, _ := os.Stat(dump)
			k.Max("bytes of a dump", int(fi.Size()))
			k.Max("objects of a dump", h.n[0]+h.n[1]+h.n[2])
			for gi, gogc := range gogcs {
				os.RemoveAll(dump + ".db")
				order := [][]string{{"objects"}, {"threads", "--local-vars"}, {"summary", "--all-props"}, {"objects", "--output", "html"}}
				if gi%2 == 1 {
					order[0], order[1+h.id/8] = order[1+h.id/8], order[0]
				}
				for i, v := range order {
					r := k.measuredEnv(0, 300*time.Second, []string{"GOGC=" + gogc, "GOMAXPROCS=2"}, vargs(v, dump)...)
					if r.Exit != 0 || r.Crash() != "" {
						k.Fail("%s on a dump with %s (%d bytes): %v", vname(v), h.name, fi.Size(), r)
						return
					}
					what := vname(v)
					html := v[len(v)-1] == "html"
					if i == 0 {
						what = "indexing"
					}
					if !html {
						if err := Oracle(v, r.Stdout, mo); err != nil {
							k.Fail("%s on a dump with %s (%d bytes): %v", vname(v), h.name, fi.Size(), err)
							return
						}
					}
					each(key{what, gogc, h.id, h.mix}, r.MaxRSS, &h, k, r)
					k.Eval(fmt.Sprint(h.name, what, gogc, h.id))
				}
			}
			os.RemoveAll(dir)
		}
	}
	type job struct {
		h  *heavy
		id int
	}
	var first []job
	for i := 0; i < c.Pick(2, 3); i++ {
		for _, b := range bases {
			for _, id := range ids {
				first = append(first, job{b, id})
			}
		}
	}
	c.Cases("base", len(first), len(first), func(k *Case) {
		b := *first[k.N].h
		b.id = first[k.N].id
		measure(b, func(ky key, mem int64, h *heavy, _ *Case, _ *cli.Result) {
			mu.Lock()
			peak[ky] = max(peak[ky], mem)
			mu.Unlock()
			c.Max(fmt.Sprintf("MiB, %s with GOGC=%s on the dumps compared with", ky.cmd, ky.gogc), int(mem>>20))
		})(k)
	})
	var jobs []job
	for _, h := range hs {
		for _, id := range ids {
			jobs = append(jobs, job{h, id})
		}
	}
	c.Cases("heavy", len(jobs), len(jobs), func(k *Case) {
		h := *jobs[k.N].h
		h.id = jobs[k.N].id
		measure(h, func(ky key, mem int64, h *heavy, k *Case, r *cli.Result) {
			mu.Lock()
			p, ok := peak[ky]
			mu.Unlock()
			k.Max(fmt.Sprintf("MiB, %s with GOGC=%s", ky.cmd, ky.gogc), int(mem>>20))
			if os.Getenv("VH_DEBUG") != "" {
				fmt.Printf("%s %v: %d MiB (base %d MiB)\n", h.name, ky, mem>>20, p>>20)
			}
			k.Obs("peaks compared", 1)
			if mem > 512<<20 {
				k.Fail("%s (GOGC=%s, %d-byte identifiers) takes %d MiB on a dump with %s", ky.cmd, ky.gogc, ky.id, mem>>20, h.name)
			}
			limit := p + p*15/100 + tolerance
			if ky.gogc == "100" { // when garbage is collected is a matter of luck
				limit += p * 15 / 100
			}
			if ok && mem > limit {
				k.Fail("%s (GOGC=%s, %d-byte identifiers) takes %d MiB on a dump with %s, %d MiB on one with %s", ky.cmd, ky.gogc, ky.id, mem>>20, h.name, p>>20, bases[b2i(ky.mix)].name)
			}
		})(k)
	})
}
