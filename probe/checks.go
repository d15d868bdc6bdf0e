package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"sync"
	"time"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/java"
	"github.com/danielleontiev/neojhat/internal/storage"
	"github.com/danielleontiev/neojhat/internal/vhprobe/hp"
	"github.com/danielleontiev/neojhat/internal/vhprobe/ref"
)

func f32(x float32) uint32 { return math.Float32bits(x) }
func f64(x float64) uint64 { return math.Float64bits(x) }

func (p *probe) rng(label string, i int) *hp.Rng {
	return hp.NewRng(p.seed, "probe", label, fmt.Sprint(i))
}

func (p *probe) model(data []byte) *ref.Model {
	p.data = data
	m, err := ref.Read(data)
	if err != nil {
		panic(fmt.Sprintf("generated dump: %v", err))
	}
	return m
}

// ---- C02 ----

// look compares everything about one object; delta is added to offsets.
func (l *loaded) look(o *ref.Obj, contents bool) {
	id := core.Identifier(o.ID)
	size := len(o.Data)
	begin(atOnce, fmt.Sprintf("the lookup of %c %#x", o.Kind, o.ID))
	defer idle()
	switch o.Kind {
	case 'i':
		h, err := l.acc.GetHprofGcInstanceDump(id)
		if err != nil {
			fail("instance %#x is in the dump, lookup fails: %v", o.ID, err)
		}
		want := core.HprofGcClassDumpInstanceDumpHeader{ObjectId: id, StackTraceSerialNumber: o.Stack, ClassObjectId: core.Identifier(o.Class), NumberOfBytesThatFollow: o.N}
		if h != want {
			fail("lookup of instance %#x yields %+v, the dump has %+v", o.ID, h, want)
		}
	case 'o':
		h, err := l.acc.GetHprofGcObjArray(id)
		if err != nil {
			fail("object array %#x is in the dump, lookup fails: %v", o.ID, err)
		}
		want := core.HprofGcObjArrayDumpHeader{ArrayObjectId: id, StackTraceSerialNumber: o.Stack, NumberOfElements: o.N, ArrayClassId: core.Identifier(o.Class)}
		if h != want {
			fail("lookup of object array %#x yields %+v, the dump has %+v", o.ID, h, want)
		}
	case 'p':
		h, err := l.acc.GetHprofGcPrimArray(id)
		if err != nil {
			fail("primitive array %#x is in the dump, lookup fails: %v", o.ID, err)
		}
		want := core.HprofGcPrimArrayDumpHeader{ArrayObjectId: id, StackTraceSerialNumber: o.Stack, NumberOfElements: o.N, ElementType: core.JavaType(o.T)}
		if h != want {
			fail("lookup of primitive array %#x yields %+v, the dump has %+v", o.ID, h, want)
		}
	}
	if contents {
		b, err := l.acc.GetBytesFromCurrent(size)
		if err != nil || !bytes.Equal(b, o.Data) {
			fail("contents of %c %#x: got %x (%v), the dump has %x", o.Kind, o.ID, b, err, o.Data)
		}
	}
}

// absent checks that no lookup of a kind finds an identifier.
func (l *loaded) absent(kind byte, id uint64) {
	i := core.Identifier(id)
	begin(atOnce, fmt.Sprintf("the lookup of the absent %c %#x", kind, id))
	defer idle()
	switch kind {
	case 'i':
		if h, err := l.acc.GetHprofGcInstanceDump(i); err == nil {
			fail("no instance has the identifier %#x, lookup yields %+v", id, h)
		}
	case 'o':
		if h, err := l.acc.GetHprofGcObjArray(i); err == nil {
			fail("no object array has the identifier %#x, lookup yields %+v", id, h)
		}
	case 'p':
		if h, err := l.acc.GetHprofGcPrimArray(i); err == nil {
			fail("no primitive array has the identifier %#x, lookup yields %+v", id, h)
		}
	}
}

func (p *probe) lookups(i int) {
	r := p.rng("C02", i)
	o := hp.RandomOpts(r)
	o.Objects = hp.Pick(r, 0, 1, 2, 3, 10, r.N(100), r.N(1500))
	o.NoJVM = r.P(60)
	g := hp.Gen(p.seed, fmt.Sprint("C02", i), o)
	if r.P(10) {
		p.wide(g, r)
	}
	e := hp.RandomEnc(r, hp.Pick(r, 4, 8))
	e.ObjGap = hp.Pick(r, 1, 1, 2, 1000)
	e.ObjAlign = hp.Pick[uint64](r, 1, 1, 8, 4096, 1<<16, 1<<32)
	if e.ObjAlign >= 4096 {
		e.ObjBase = 0x1000 // room for wide identifiers
	}
	x := g.Encode(e)
	m := p.model(x.Data)
	l := p.index(one(x.Data), r.P(30))
	defer l.close()
	order := r.Perm(len(m.Objs))
	kinds := map[byte]map[uint64]*ref.Obj{'i': m.Inst, 'o': m.OArr, 'p': m.PArr}
	misses := 0
	miss := func(id uint64) {
		if e.IDSize == 4 {
			id &= 0xffffffff
		}
		for k, objs := range kinds {
			if objs[id] == nil {
				l.absent(k, id)
				misses++
			}
		}
	}
	for _, j := range order {
		ob := m.Objs[j]
		l.look(ob, r.P(60))
		if r.P(50) {
			miss(ob.ID - 1)
			miss(ob.ID + 1)
			miss(ob.ID) // other kinds
			miss(ob.ID + 4)
			miss(ob.ID ^ 1<<63)
			miss(ob.ID ^ 1<<31)
		}
		if r.P(50) {
			l.look(m.Objs[r.N(len(m.Objs))], true)
		}
	}
	for _, id := range []uint64{0, 1, math.MaxUint64, 1 << 63, 1<<63 - 1, 1 << 32, 1<<32 - 1, r.Uint64()} {
		miss(id)
	}
	p.obs("objects looked up", len(m.Objs))
	p.obs("absent identifiers looked up", misses)
	p.max("objects in a dump", len(m.Objs))
	key := ""
	if len(m.Objs) > 1 {
		key = fmt.Sprint(len(m.Inst), len(m.OArr), len(m.PArr), m.Objs[0].ID, len(x.Data), e)
	}
	p.eval(key)
	if i < 2 {
		p.sample(map[string]any{"instances": len(m.Inst), "object arrays": len(m.OArr), "primitive arrays": len(m.PArr), "absent": misses, "idsize": e.IDSize})
	}
}

type bigCase struct {
	name string
	f    func()
}

// bigCases are dumps around the batch size and beyond 4 GiB.
func (p *probe) bigCases() (cs []bigCase) {
	type bc struct {
		kind byte
		n    int
	}
	list := []bc{{'i', 999_999}, {'i', 1_000_000}, {'i', 1_000_001}, {'o', 1_000_001}, {'p', 1_000_002}, {'i', 2_000_003}, {'p', 1_000_000}, {'o', 1_000_000}}
	if p.thorough {
		for _, k := range []byte{'i', 'o', 'p'} {
			for _, n := range []int{999_998, 999_999, 1_000_000, 1_000_001, 1_000_002, 1_999_999, 2_000_000, 2_000_001, 2_000_002, 2_000_003, 3_000_002, 3_000_003, 3_000_004, 5_500_000} {
				list = append(list, bc{k, n})
			}
		}
	}
	for i := range p.pick(6, 30) {
		cs = append(cs, bigCase{fmt.Sprintf("huge index %d", i), func() { p.hugeIndex(i) }})
	}
	for i, b := range list {
		cs = append(cs, bigCase{fmt.Sprintf("bulk %c %d", b.kind, b.n), func() { p.bulk(i, b.kind, b.n) }})
	}
	cs = append(cs, bigCase{"beyond 4 GiB", func() { p.far(1, zeroBytes(1<<30, 1<<30, 1<<30, 1<<30, 1<<30)) }})
	cs = append(cs, bigCase{"around 4 GiB", func() { p.far(2, zeroBytes(1<<32-1-64)) }})
	cs = append(cs, bigCase{"around 2 GiB", func() { p.far(3, zeroBytes(1<<31-200)) }})
	for i, f := range []func(r *hp.Rng) hp.Giant{
		func(r *hp.Rng) hp.Giant { return hp.Giant{Kind: 'i', N: hp.Pick(r, uint32(1<<31), 1<<32-100)} },
		func(r *hp.Rng) hp.Giant { return hp.Giant{Kind: 'o', N: hp.Pick(r, uint32(1<<28+1), 1<<29-20)} },
		func(r *hp.Rng) hp.Giant { return hp.Giant{Kind: 'o', N: 1<<29 + uint32(r.N(99)), Unsized: true} },
		func(r *hp.Rng) hp.Giant { return hp.Giant{Kind: 'o', N: 1<<30 + uint32(r.N(99)), Unsized: true} },
		func(r *hp.Rng) hp.Giant {
			return hp.Giant{Kind: 'p', T: hp.Pick[byte](r, hp.TLong, hp.TDouble), N: 1<<29 + uint32(r.N(99)), Unsized: true}
		},
		func(r *hp.Rng) hp.Giant {
			return hp.Giant{Kind: 'p', T: hp.Pick[byte](r, hp.TInt, hp.TFloat), N: 1<<30 + uint32(r.N(99)), Unsized: true}
		},
		func(r *hp.Rng) hp.Giant {
			return hp.Giant{Kind: 'p', T: hp.Pick[byte](r, hp.TShort, hp.TChar), N: 1<<31 + uint32(r.N(99)), Unsized: true}
		},
		func(r *hp.Rng) hp.Giant {
			return hp.Giant{Kind: 'p', T: hp.Pick[byte](r, hp.TBool, hp.TByte), N: 1<<32 - 1 - uint32(r.N(9)), Unsized: true}
		},
	} {
		g := f(p.rng("giant", i))
		cs = append(cs, bigCase{fmt.Sprintf("giant %c of %d elements", g.Kind, g.N), func() {
			p.far(10+i, []hp.Giant{g, {Kind: 'i'}, g, {Kind: 'o', N: 3}})
		}})
	}
	if p.thorough {
		cs = append(cs, bigCase{"20 GiB", func() { p.far(4, zeroBytes(1<<32-100, 1<<32-100, 1<<32-100, 1<<32-100, 1<<31, 1<<31-1)) }})
	}
	return
}

// virtualVolume is an index of n records that is calculated when it is read.
type virtualVolume struct {
	n     int64
	width int64
	rec   func(i int64) []byte
	reads int
}

func (v *virtualVolume) Close() error { return nil }

func (v *virtualVolume) ReadAt(b []byte, off int64) (n int, err error) {
	v.reads++
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	for n < len(b) {
		i := off / v.width
		if i >= v.n {
			return n, io.EOF
		}
		k := copy(b[n:], v.rec(i)[off%v.width:])
		n += k
		off += int64(k)
	}
	return n, nil
}

// hugeIndex looks objects up in an index of hundreds of millions of records
// that exists only as a function. What a record looks like is learnt from
// the tool's own writer; if records do not lie side by side, there is
// nothing to be checked here.
func (p *probe) hugeIndex(i int) {
	r := p.rng("huge index", i)
	kind := "iop"[i%3]
	written := func(kvs ...[2]uint64) []byte {
		var v [3]*storage.RamWriteVolume
		for j := range v {
			v[j] = storage.NewRamWriteVolume()
		}
		w := storage.NewBigRecordsWriteStorage(v[0], v[1], v[2])
		for _, kv := range kvs {
			var err error
			switch kind {
			case 'i':
				err = w.HprofGcInstanceDumpPutOffset(core.Identifier(kv[0]), int(kv[1]))
			case 'o':
				err = w.HprofGcObjArrayDumpPutOffset(core.Identifier(kv[0]), int(kv[1]))
			case 'p':
				err = w.HprofGcPrimArrayDumpPutOffset(core.Identifier(kv[0]), int(kv[1]))
			}
			if err != nil {
				fail("put of %#x: %v", kv[0], err)
			}
		}
		if err := w.Close(); err != nil {
			fail("closing the index: %v", err)
		}
		return v[i%3].Bytes()
	}
	n := hp.Pick(r, int64(1)<<27+1, 1<<28, 1<<28+int64(r.N(1000)), 1<<31+3, 1<<33+int64(r.N(1000)))
	base, step := uint64(r.N(1<<30)), uint64(1+r.N(64))
	if r.P(30) {
		base = math.MaxUint64 - step*uint64(n) - 5
	}
	kv := func(j int64) [2]uint64 { return [2]uint64{base + step*uint64(j), 31 + 25*uint64(j)} }
	var all []byte
	var kvs [][2]uint64
	width := len(written(kv(0)))
	for _, j := range []int64{0, 1, 2, n / 2, n - 2, n - 1} {
		b := written(kv(j))
		if len(b) != width || width == 0 {
			p.obs("huge indexes left out, the records do not lie side by side", 1)
			return
		}
		all = append(all, b...)
		kvs = append(kvs, kv(j))
	}
	if !bytes.Equal(all, written(kvs...)) {
		p.obs("huge indexes left out, the records do not lie side by side", 1)
		return
	}
	v := &virtualVolume{n: n, width: int64(width), rec: func(j int64) []byte { return written(kv(j)) }}
	var vs [3]storage.IndexRecordsReaderAtCloser
	var sizes [3]int
	for j := range vs {
		vs[j] = storage.NewRamReadVolume(nil)
	}
	vs[i%3], sizes[i%3] = v, int(n)*width
	big, err := storage.NewBigRecordsReadStorage(vs[0], sizes[0], vs[1], sizes[1], vs[2], sizes[2])
	if err != nil {
		fail("an index of %d records cannot be opened: %v", n, err)
	}
	get := map[byte]func(core.Identifier) (int, error){'i': big.HprofGcInstanceDumpGetOffset, 'o': big.HprofGcObjArrayDumpGetOffset, 'p': big.HprofGcPrimArrayDumpGetOffset}[kind]
	look := func(j int64) {
		want := kv(j)
		begin(atOnce, fmt.Sprintf("the lookup of record %d of an index of %d records", j, n))
		defer idle()
		if got, err := get(core.Identifier(want[0])); err != nil || got != int(want[1]) {
			fail("record %d of an index of %d records (%c), identifier %#x: offset %d (%v), put was %d", j, n, kind, want[0], got, err, want[1])
		}
		if step > 1 {
			if got, err := get(core.Identifier(want[0] + 1 + uint64(r.N(int(step)-1)))); err == nil {
				fail("an identifier between records %d and %d of an index of %d records (%c) yields offset %d", j, j+1, n, kind, got)
			}
		}
	}
	for _, j := range []int64{0, 1, n - 1, n - 2, n / 2, 1<<27 - 1, 1 << 27, 1<<26 - 1, 1 << 26, n / 3, n / 3 * 2} {
		look(j)
	}
	for range p.pick(300, 3000) {
		look(int64(r.Uint64() % uint64(n)))
	}
	p.max("records of an index looked up in", int(n))
	p.obs("lookups in huge indexes", p.pick(311, 3011))
	p.eval(fmt.Sprint("huge index", i, n, base, step))
}

// base is a small dump whose objects all have identifiers of at least 2^40
// (8 bytes) or 2^30 (4 bytes).
func (p *probe) base(label string, i int) ([]byte, *ref.Model, uint64, int) {
	r := p.rng(label, i)
	o := hp.RandomOpts(r)
	o.Objects, o.Classes = 60, 5
	g := hp.Gen(p.seed, fmt.Sprint(label, i), o)
	id := hp.Pick(r, 4, 8, 8)
	e := hp.RandomEnc(r, id)
	e.ObjBase = 1 << 40
	if id == 4 {
		e.ObjBase = 1 << 30
	}
	x := g.Encode(e)
	m := p.model(x.Data)
	for cid, name := range m.Class {
		if name.Super == 0 {
			return x.Data, m, cid, id
		}
	}
	panic("no java.lang.Object")
}

func (p *probe) bulk(i int, kind byte, n int) {
	data, m, cls, idSize := p.base("bulk", i)
	r := p.rng("bulkids", i)
	k := &hp.Bulk{IDSize: idSize}
	var ps []hp.Piece
	ids := make([]uint64, n)
	cur := uint64(0)
	step := hp.Pick(r, 1, 3, 8)
	if kind == 'p' {
		step = 1 // dense
	}
	var elems = make([]int, n)
	for j := range ids {
		cur += uint64(1 + r.N(step))
		ids[j] = cur
		switch kind {
		case 'i':
			k.Inst(cur, cls)
		case 'o':
			elems[j] = r.N(3)
			k.ObjArr(cur, cls, elems[j])
		case 'p':
			elems[j] = r.N(5)
			k.Prim(cur, bytes.Repeat([]byte{byte(j)}, elems[j]))
		}
		if k.Len() > 16<<20 {
			ps = append(ps, k.Segment())
		}
	}
	if k.Len() > 0 {
		ps = append(ps, k.Segment())
	}
	all := hp.SpliceAt(data, m.FirstSeg(), ps...)
	l := p.index(func() *hp.Reader { return hp.NewReader(all) }, true)
	defer l.close()
	if int64(l.pos) != all.Len() {
		fail("position %d after the parse of %d bytes", l.pos, all.Len())
	}
	check := func(j int) {
		o := &ref.Obj{Kind: kind, ID: ids[j], Stack: 1, N: uint32(elems[j])}
		switch kind {
		case 'i':
			o.Class = cls
		case 'o':
			o.Class = cls
			o.Data = make([]byte, elems[j]*idSize)
		case 'p':
			o.T = hp.TByte
			o.Data = bytes.Repeat([]byte{byte(j)}, elems[j])
		}
		l.look(o, true)
	}
	looks := 0
	// all around the ends and the multiples of every plausible batch size, and a sample
	for j := 0; j < n; j++ {
		near := j < 50 || n-j < 50 || (j+50)%1_000_000 < 100 || (j+50)%1_000_001 < 100
		if near || r.N(n/20000+1) == 0 || (p.thorough && j%3 == 0) {
			check(j)
			looks++
		}
	}
	misses := 0
	for j := 0; j < 3000; j++ {
		x := r.N(n - 1)
		if ids[x+1] > ids[x]+1 {
			l.absent(kind, ids[x]+1)
			misses++
		}
		for _, other := range []byte{'i', 'o', 'p'} {
			if other != kind {
				l.absent(other, ids[x])
				misses++
			}
		}
	}
	l.absent(kind, 0)
	l.absent(kind, ids[n-1]+1)
	for _, o := range m.Objs {
		l.look(o, true)
	}
	p.obs("objects looked up", looks+len(m.Objs))
	p.obs("absent identifiers looked up", misses+2)
	p.max("objects in a dump", n+len(m.Objs))
	p.seen("bulk dumps", fmt.Sprintf("%d of kind %c", n, kind))
	p.eval(fmt.Sprint("bulk", kind, n))
}

func zeroBytes(ns ...uint32) (gs []hp.Giant) {
	for _, n := range ns {
		gs = append(gs, hp.Giant{Kind: 'p', T: hp.TByte, N: n})
	}
	return
}

func (p *probe) far(i int, giants []hp.Giant) {
	data, m, cls, idSize := p.base("far", i)
	k := &hp.Bulk{IDSize: idSize}
	var ps []hp.Piece
	var arrays []*ref.Obj
	id := uint64(1)
	for _, g := range giants {
		ps = append(ps, k.Giant(g, id, cls))
		o := &ref.Obj{Kind: g.Kind, ID: id, Stack: 1, N: g.N, T: g.T}
		if g.Kind != 'p' {
			o.Class = cls
		}
		arrays = append(arrays, o)
		// something between the big ones
		k.Prim(id+1, []byte{1, 2, 3})
		ps = append(ps, k.Segment())
		arrays = append(arrays, &ref.Obj{Kind: 'p', ID: id + 1, Stack: 1, N: 3, T: hp.TByte, Data: []byte{1, 2, 3}})
		id += 2
	}
	all := hp.SpliceAt(data, m.FirstSeg(), ps...)
	l := p.index(func() *hp.Reader { return hp.NewReader(all) }, false)
	defer l.close()
	if int64(l.pos) != all.Len() {
		fail("position %d after the parse of %d bytes", l.pos, all.Len())
	}
	for _, o := range arrays {
		l.look(o, o.Data != nil)
	}
	for _, o := range m.Objs {
		l.look(o, true)
	}
	l.absent('p', id)
	l.absent('p', 0)
	p.obs("objects looked up", len(m.Objs)+len(arrays))
	p.obs("objects beyond 4 GiB looked up", len(m.Objs)*b2i(all.Len() > 1<<32))
	p.max("size of a dump, MiB", int(all.Len()>>20))
	p.eval(fmt.Sprint("far", giants))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- C03 ----

func (p *probe) records(i int) {
	r := p.rng("C03", i)
	o := hp.RandomOpts(r)
	o.Names, o.Texts = r.N(3), r.N(2)
	o.NoJVM = r.P(50)
	o.Threads = r.N(8)
	g := hp.Gen(p.seed, fmt.Sprint("C03", i), o)
	g.TS = hp.Pick(r, g.TS, 0, 1, int64(r.N(1<<40)), 1<<32, 1<<32-1, 7258118400000, 1<<31)
	p.wild(g, r)
	e := hp.RandomEnc(r, hp.Pick(r, 4, 8))
	x := g.Encode(e)
	m := p.model(x.Data)
	l := p.index(one(x.Data), r.P(30))
	defer l.close()
	s := l.small
	if int(l.acc.IdentifierSize) != m.IDSize {
		fail("identifier size %d, the dump has %d", l.acc.IdentifierSize, m.IDSize)
	}
	if int(s.IdSize) != m.IDSize {
		fail("saved identifier size %d, the dump has %d", s.IdSize, m.IDSize)
	}
	if s.Timestamp.UnixMilli() != m.TS {
		fail("timestamp %v (%d ms), the dump has %d ms", s.Timestamp, s.Timestamp.UnixMilli(), m.TS)
	}
	for _, t := range m.Strs {
		got, err := s.GetHprofUtf8(core.Identifier(t.ID))
		want := core.HprofUtf8{Identifier: core.Identifier(t.ID), Characters: t.Text}
		if err != nil || got != want {
			fail("string %#x: got %+v (%v), the dump has %+v", t.ID, got, err, want)
		}
		p.max("length of a string", len(t.Text))
	}
	loads := s.ListHprofLoadClass()
	distinct := map[core.HprofLoadClass]bool{}
	for _, x := range loads {
		distinct[x] = true
	}
	var order []core.HprofLoadClass
	dw := map[core.HprofLoadClass]bool{}
	for _, x := range m.Loads {
		want := core.HprofLoadClass{ClassSerialNumber: x.Serial, ClassObjectId: core.Identifier(x.Class), StackTraceSerialNumber: x.Stack, ClassNameId: core.Identifier(x.Name)}
		dw[want] = true
		order = append(order, want)
		got, err := s.GetHprofLoadClassByClassObjectId(want.ClassObjectId)
		if err != nil || got != want {
			fail("class load of %#x: got %+v (%v), the dump has %+v", x.Class, got, err, want)
		}
		got, err = s.GetHprofLoadClassByClassSerialNumer(want.ClassSerialNumber)
		if err != nil || got != want {
			fail("class load with serial %d: got %+v (%v), the dump has %+v", x.Serial, got, err, want)
		}
	}
	if len(distinct) != len(dw) {
		fail("%d different class loads are listed, the dump has %d", len(distinct), len(dw))
	}
	for x := range dw {
		if !distinct[x] {
			fail("class load %+v is not listed", x)
		}
	}
	for _, x := range m.Frames {
		want := core.HprofFrame{StackFrameId: core.Identifier(x.ID), MethodNameId: core.Identifier(x.Method), MethodSignatureId: core.Identifier(x.Sig),
			SourceFileNameId: core.Identifier(x.File), ClassSerialNumber: x.Class, LineNumber: core.LineNumber(x.Line)}
		got, err := s.GetHprofFrame(want.StackFrameId)
		if err != nil || got != want {
			fail("frame %#x: got %+v (%v), the dump has %+v", x.ID, got, err, want)
		}
	}
	perThread := map[uint32]int{}
	for _, x := range m.Traces {
		perThread[x.Thread]++
	}
	for _, x := range m.Traces {
		if perThread[x.Thread] > 1 {
			continue // traces are found by thread
		}
		got, err := s.GetHprofTrace(x.Thread)
		ok := err == nil && got.StackTraceSerialNumber == x.Serial && got.ThreadSerialNumber == x.Thread && got.NumberOfFrames == x.N && len(got.StackFrameIds) == len(x.Frames)
		for j := 0; ok && j < len(x.Frames); j++ {
			ok = uint64(got.StackFrameIds[j]) == x.Frames[j]
		}
		if !ok {
			fail("trace of thread %d: got %+v (%v), the dump has %+v", x.Thread, got, err, x)
		}
		p.max("frames of a trace", len(x.Frames))
		p.obs("traces compared", 1)
	}
	for _, c := range m.Class {
		p.sameClass(s, c)
	}
	p.roots(s, m)
	// what the dump does not have
	for j := 0; j < 20; j++ {
		id := r.Uint64()
		if j < 10 && len(m.Strs) > 0 {
			id = m.Strs[r.N(len(m.Strs))].ID + uint64(1+r.N(3))
		}
		if _, ok := m.Str[id]; !ok {
			if got, err := s.GetHprofUtf8(core.Identifier(id)); err == nil {
				fail("the dump has no string %#x, got %+v", id, got)
			}
		}
		if m.Class[id] == nil {
			if got, err := s.GetHprofGcClassDump(core.Identifier(id)); err == nil {
				fail("the dump has no class %#x, got %+v", id, got)
			}
		}
	}
	p.obs("strings compared", len(m.Strs))
	p.obs("class loads compared", len(m.Loads))
	p.obs("frames compared", len(m.Frames))
	p.obs("class dumps compared", len(m.Class))
	p.obs("roots compared", len(m.Roots))
	p.eval(fmt.Sprint(len(m.Strs), len(m.Loads), len(m.Frames), len(m.Traces), len(m.Class), len(m.Roots), len(x.Data), e))
	if i < 2 {
		p.sample(map[string]any{"strings": len(m.Strs), "classes": len(m.Class), "frames": len(m.Frames), "traces": len(m.Traces), "roots": len(m.Roots), "idsize": m.IDSize, "timestamp": m.TS})
	}
}

// wild adds extreme records.
// wide adds a class with as many constants and fields as their counts allow.
func (p *probe) wide(g *hp.G, r *hp.Rng) {
	c := g.AddClass("many", g.Classes[0], 8)
	n := func() int { return hp.Pick(r, 0, 1, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535) }
	for k := n(); k > 0; k-- {
		c.Consts = append(c.Consts, hp.Const{Idx: uint16(k), V: g.Val(hp.Pick[byte](r, hp.TShort, hp.TInt, hp.TObject))})
	}
	for k := n(); k > 0; k-- {
		c.Statics = append(c.Statics, hp.Static{Name: "s", V: g.Val(hp.Pick[byte](r, hp.TByte, hp.TLong))})
	}
	for k := n(); k > 0; k-- {
		c.Fields = append(c.Fields, hp.Field{Name: "f", T: hp.AllTypes[r.N(9)]})
	}
	p.max("fields of a class", len(c.Fields)+len(c.Statics)+len(c.Consts))
}

func (p *probe) wild(g *hp.G, r *hp.Rng) {
	if r.P(40) {
		// a class with everything
		c := g.AddClass(g.ClassName(), g.Classes[0], int32(hp.Pick(r, 0, 1, -1, 1<<31-1, -1<<31)))
		for k := hp.Pick(r, 1, 10, 300); k > 0; k-- {
			t := hp.AllTypes[r.N(9)]
			c.Consts = append(c.Consts, hp.Const{Idx: uint16(hp.Pick(r, 0, 1, 65535, r.N(65536))), V: g.Val(t)})
			c.Statics = append(c.Statics, hp.Static{Name: g.Word(), V: g.Val(hp.AllTypes[r.N(9)])})
			c.Fields = append(c.Fields, hp.Field{Name: g.Word(), T: hp.AllTypes[r.N(9)]})
		}
		c.Loader, c.Signers, c.PD = hp.H(1+r.N(int(g.Last))), hp.H(r.N(int(g.Last))), hp.H(r.N(int(g.Last)))
	}
	if r.P(8) {
		p.wide(g, r)
	}
	if r.P(30) {
		g.Extra = append(g.Extra, "", string(make([]byte, hp.Pick(r, 1, 4096, 100000, 5<<20>>r.N(4)))))
		b := make([]byte, 1+r.N(5000))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		g.Extra = append(g.Extra, string(b))
	}
	if r.P(5) {
		for k := 0; k < 20000; k++ {
			g.Extra = append(g.Extra, fmt.Sprint("str", k))
		}
	}
	if r.P(20) {
		// frames with every line number
		for k := r.N(20); k >= 0; k-- {
			g.Frames = append(g.Frames, &hp.Frame{Method: g.Word(), Sig: g.Sig(), File: g.Word(), Cls: g.Classes[r.N(len(g.Classes))], Line: int32(hp.Pick(r, 0, 1, -1, -2, -3, 1<<31-1, -1<<31, r.N(1<<31)))})
		}
	}
	if r.P(15) && len(g.Frames) > 0 {
		t := &hp.Trace{Thread: 1000}
		for k := hp.Pick(r, 0, 1, 1000, 20000); k > 0; k-- {
			t.Frames = append(t.Frames, g.Frames[r.N(len(g.Frames))])
		}
		g.Traces = append(g.Traces, t)
	}
	if r.P(60) {
		for k := hp.Pick(r, 1, 30, 3000, 30000*b2i(r.P(20))); k > 0; k-- {
			g.Roots = append(g.Roots, &hp.Root{Kind: hp.Pick[byte](r, hp.RJniGlobal, hp.RJniLocal, hp.RJavaFrame, hp.RSticky, hp.RThread, hp.RUnknown, hp.RMonitor, hp.RNativeStack, hp.RThreadBlock),
				Obj: hp.H(r.N(int(g.Last) + 1)), Thread: uint32(r.N(12)), Frame: int32(hp.Pick(r, 0, 1, 5, -1, 1<<31-1)), Jni: r.Uint64()})
		}
	}
}

func (p *probe) sameClass(s *storage.SmallRecordsReadStorage, c *ref.ClassDump) {
	got, err := s.GetHprofGcClassDump(core.Identifier(c.ID))
	if err != nil {
		fail("class dump of %#x: %v", c.ID, err)
	}
	if uint64(got.ClassObjectId) != c.ID || got.StackTraceSerialNumber != c.Serial || uint64(got.SuperclassObjectId) != c.Super || uint64(got.ClassloaderObjectId) != c.Loader ||
		uint64(got.SignersObjectId) != c.Signers || uint64(got.ProtectionDomainObjectId) != c.PD || got.InstanceSize != c.InstSize ||
		int(got.SizeOfConstantPool) != len(c.Consts) || int(got.NumberOfStaticFields) != len(c.Statics) || int(got.NumberOfInstanceFields) != len(c.Fields) ||
		len(got.ConstantPoolRecords) != len(c.Consts) || len(got.StaticFieldRecords) != len(c.Statics) || len(got.InstanceFieldRecords) != len(c.Fields) {
		got.ConstantPoolRecords, got.StaticFieldRecords, got.InstanceFieldRecords = nil, nil, nil
		fail("class dump of %#x: got %+v, the dump has super %#x loader %#x signers %#x domain %#x size %d, %d constants, %d statics, %d fields", c.ID, got, c.Super, c.Loader, c.Signers, c.PD, c.InstSize, len(c.Consts), len(c.Statics), len(c.Fields))
	}
	for j, k := range c.Consts {
		x := got.ConstantPoolRecords[j]
		if x.ConstantPoolIndex != k.Idx || byte(x.Ty) != k.V.T || !sameSaved(x.Value, k.V) {
			fail("class %#x: constant %d is %+v, the dump has %+v", c.ID, j, x, k)
		}
		p.seen("types of values", ref.TypeName[k.V.T])
	}
	for j, k := range c.Statics {
		x := got.StaticFieldRecords[j]
		if uint64(x.StaticFieldName) != k.Name || byte(x.Ty) != k.V.T || !sameSaved(x.Value, k.V) {
			fail("class %#x: static field %d is %+v, the dump has %+v", c.ID, j, x, k)
		}
	}
	for j, k := range c.Fields {
		x := got.InstanceFieldRecords[j]
		if uint64(x.InstanceFieldName) != k.Name || byte(x.Ty) != k.T {
			fail("class %#x: field %d is %+v, the dump has %+v", c.ID, j, x, k)
		}
	}
	p.obs("values compared", len(c.Consts)+len(c.Statics))
	p.max("fields of a class", len(c.Fields)+len(c.Statics)+len(c.Consts))
}

// sameSaved is sameVal for values that went through the index; all NaNs are
// equal.
func sameSaved(got core.JavaValue, want ref.Val) bool {
	switch x := got.Value.(type) {
	case float32:
		if want.T == hp.TFloat && x != x {
			return ref.F32(want.Bits) != ref.F32(want.Bits)
		}
	case float64:
		if want.T == hp.TDouble && x != x {
			return ref.F64(want.Bits) != ref.F64(want.Bits)
		}
	}
	return sameVal(got, want)
}

func (p *probe) roots(s *storage.SmallRecordsReadStorage, m *ref.Model) {
	var got []ref.Root
	for _, x := range s.ListHprofGcRootJniGlobal() {
		got = append(got, ref.Root{Kind: 1, Obj: uint64(x.ObjectId), Jni: uint64(x.JniGlobalRefId)})
	}
	for _, x := range s.ListHprofGcRootJniLocal() {
		got = append(got, ref.Root{Kind: 2, Obj: uint64(x.ObjectId), A: x.ThreadSerialNumber, B: x.FrameNumberInStackTrace})
	}
	for _, x := range s.ListHprofGcRootJavaFrame() {
		got = append(got, ref.Root{Kind: 3, Obj: uint64(x.ObjectId), A: x.ThreadSerialNumber, B: x.FrameNumberInStackTrace})
	}
	for _, x := range s.ListHprofGcRootStickyClass() {
		got = append(got, ref.Root{Kind: 5, Obj: uint64(x.ObjectId)})
	}
	for _, x := range s.ListHprofGcRootThreadObj() {
		got = append(got, ref.Root{Kind: 8, Obj: uint64(x.ThreadObjectId), A: x.ThreadSequenceNumber, B: x.StackTraceSequenceNumber})
	}
	var want []ref.Root
	for _, k := range []byte{1, 2, 3, 5, 8} {
		for _, x := range m.Roots {
			if x.Kind == k {
				want = append(want, x)
			}
		}
	}
	if len(got) != len(want) {
		fail("%d roots are listed, the dump has %d of the five kinds", len(got), len(want))
	}
	for j := range want {
		if got[j] != want[j] {
			fail("root %d is %+v, the dump has %+v", j, got[j], want[j])
		}
	}
}

// ---- C08 ----

// hierarchy adds chains of classes whose fields shadow each other.
func (p *probe) hierarchy(g *hp.G, r *hp.Rng, wide bool) (cs []*hp.Class) {
	names := []string{"a", "b", "value", "x", "", "é", "ab", "A"}[:1+r.N(8)]
	super := g.Classes[0]
	for d := hp.Pick(r, 1, 2, 3, 5, 12, 60); d > 0; d-- {
		var fs []hp.Field
		have := map[string]bool{}
		for k := hp.Pick(r, 0, 0, 1, 3, len(names), len(names)); k > 0; k-- {
			n := names[r.N(len(names))]
			if r.P(10) {
				n = g.Word()
			}
			if !have[n] {
				have[n] = true
				fs = append(fs, hp.Field{Name: n, T: hp.AllTypes[r.N(9)]})
			}
		}
		if r.P(3) {
			for k := 0; k < 3000; k++ {
				fs = append(fs, hp.Field{Name: fmt.Sprint("f", k), T: hp.AllTypes[r.N(9)]})
			}
		}
		if wide && d == 1 { // more than 64 KiB of fields
			for k := 0; k < 9000+r.N(3000); k++ {
				fs = append(fs, hp.Field{Name: fmt.Sprint("w", k), T: hp.Pick[byte](r, hp.TLong, hp.TDouble, hp.TObject)})
			}
		}
		base := super
		if len(cs) > 0 && r.P(15) {
			base = cs[r.N(len(cs))]
		}
		c := g.AddClass(g.ClassName(), base, 8, fs...)
		for k := hp.Pick(r, 0, 0, 2, 6); k > 0; k-- {
			c.Statics = append(c.Statics, hp.Static{Name: names[r.N(len(names))], V: g.Val(hp.AllTypes[r.N(9)])})
		}
		super = c
		cs = append(cs, c)
	}
	for _, c := range cs {
		for k := r.N(3); k > 0; k-- {
			i := g.NewInst(c)
			for j := range i.Vals {
				i.Vals[j] = g.Val(i.Vals[j].T)
			}
		}
	}
	return
}

func (p *probe) fields(i int) {
	r := p.rng("C08", i)
	o := hp.RandomOpts(r)
	o.Names = r.N(2)
	o.NoJVM = r.P(60)
	o.Objects = r.N(60)
	g := hp.Gen(p.seed, fmt.Sprint("C08", i), o)
	for k := r.N(4); k >= 0; k-- {
		p.hierarchy(g, r, k == 0 && i%24 == 3)
	}
	e := hp.RandomEnc(r, hp.Pick(r, 4, 8))
	x := g.Encode(e)
	m := p.model(x.Data)
	l := p.index(one(x.Data), false)
	defer l.close()
	chains := map[uint64]bool{}
	reads, shadowed, absent := 0, 0, 0
	for _, ob := range m.Objs {
		if ob.Kind != 'i' {
			continue
		}
		p.max("bytes of an instance", len(ob.Data))
		if time.Now().After(p.deadline.Add(20 * time.Second)) {
			break
		}
		begin(atOnce, fmt.Sprintf("reading instance %#x and its fields", ob.ID))
		obj, err := l.heap.ParseNormalObject(core.Identifier(ob.ID))
		if err != nil {
			fail("instance %#x of %s: %v", ob.ID, m.ClassName(ob.Class), err)
		}
		if !bytes.Equal(obj.Bytes, ob.Data) {
			fail("instance %#x: bytes %x, the dump has %x", ob.ID, obj.Bytes, ob.Data)
		}
		if !chains[ob.Class] {
			chains[ob.Class] = true
			p.sameChain(m, &obj.Class, ob.Class)
			c, err := l.heap.ParseClass(core.Identifier(ob.Class))
			if err != nil {
				fail("class %#x: %v", ob.Class, err)
			}
			p.sameChain(m, &c, ob.Class)
		}
		// every field of the hierarchy, the most derived one of each name
		type where struct {
			v      ref.Val
			origin string
		}
		want := map[string]where{}
		var order []string
		pos, depth := 0, 0
		for id := ob.Class; id != 0; id = m.Class[id].Super {
			c := m.Class[id]
			for _, f := range c.Fields {
				w := ref.Width(f.T, m.IDSize)
				v := ref.Val{T: f.T}
				for _, b := range ob.Data[pos : pos+w] {
					v.Bits = v.Bits<<8 | uint64(b)
				}
				pos += w
				n := m.Str[f.Name]
				if _, ok := want[n]; ok {
					shadowed++
					continue
				}
				want[n] = where{v, m.ClassName(id)}
				order = append(order, n)
			}
			depth++
		}
		for _, k := range r.Perm(len(order)) {
			if len(order) > 300 && r.P(90) {
				continue
			}
			n := order[k]
			got, err := obj.GetFieldValueByName(n)
			w := want[n]
			if err != nil || got.Origin != w.origin || !sameVal(got.Value, w.v) {
				fail("instance %#x of %s: field %q is %+v (%v), the dump has the value %#x of type %s declared by %s", ob.ID, m.ClassName(ob.Class), n, got, err, w.v.Bits, ref.TypeName[w.v.T], w.origin)
			}
			reads++
			p.seen("types read", ref.TypeName[w.v.T])
			p.seen("offsets and types read", fmt.Sprint(k, w.v.T))
		}
		for _, n := range []string{"nobody", "", "a", "valu", "values", "é", "serialVersionUID"} {
			if _, ok := want[n]; ok {
				continue
			}
			if got, err := obj.GetFieldValueByName(n); err == nil {
				fail("instance %#x of %s: nobody declares %q, got %+v", ob.ID, m.ClassName(ob.Class), n, got)
			}
			absent++
		}
		p.max("depth of a hierarchy", depth)
		p.max("fields of an instance", len(order))
	}
	p.obs("fields read", reads)
	p.obs("hidden fields", shadowed)
	p.obs("absent fields asked for", absent)
	p.obs("class chains compared", len(chains))
	key := ""
	if reads > 0 {
		key = fmt.Sprint(reads, shadowed, len(chains), len(x.Data), e)
	}
	p.eval(key)
	if i < 2 {
		p.sample(map[string]any{"fields read": reads, "hidden": shadowed, "classes": len(chains), "idsize": m.IDSize})
	}
}

func (p *probe) sameChain(m *ref.Model, c *java.Class, id uint64) {
	for ; id != 0; id = m.Class[id].Super {
		if c == nil {
			fail("the chain of superclasses ends before %s", m.ClassName(id))
		}
		d := m.Class[id]
		if c.Name != m.ClassName(id) || len(c.StaticFields) != len(d.Statics) || len(c.InstanceFields) != len(d.Fields) {
			fail("class %#x: got %s with %d static and %d instance fields, the dump has %s with %d and %d", id, c.Name, len(c.StaticFields), len(c.InstanceFields), m.ClassName(id), len(d.Statics), len(d.Fields))
		}
		for j, s := range d.Statics {
			g := c.StaticFields[j]
			if g.Name != m.Str[s.Name] || byte(g.Type) != s.V.T || !sameSaved(g.Value, s.V) {
				fail("class %s: static field %d is %+v, the dump has %q %+v", c.Name, j, g, m.Str[s.Name], s.V)
			}
		}
		for j, f := range d.Fields {
			g := c.InstanceFields[j]
			if g.Name != m.Str[f.Name] || byte(g.Type) != f.T {
				fail("class %s: field %d is %+v, the dump has %q of type %d", c.Name, j, g, m.Str[f.Name], f.T)
			}
		}
		c = c.Superclass
	}
	if c != nil {
		fail("the chain of superclasses goes on with %s", c.Name)
	}
}

// ---- C19: position while parsing, read by another goroutine ----

// slow reads a few bytes at a time.
type slow struct {
	r     io.Reader
	max   int
	used  int
	mu    sync.Mutex
	delay time.Duration
}

func (s *slow) Read(b []byte) (int, error) {
	if len(b) > s.max {
		b = b[:s.max]
	}
	n, err := s.r.Read(b)
	s.mu.Lock()
	s.used += n
	s.mu.Unlock()
	if s.delay > 0 {
		time.Sleep(s.delay)
	}
	return n, err
}

func (p *probe) position(i int) {
	r := p.rng("C19", i)
	o := hp.RandomOpts(r)
	o.Objects = hp.Pick(r, 0, 20, 300)
	o.NoJVM = r.P(60)
	g := hp.Gen(p.seed, fmt.Sprint("C19", i), o)
	x := g.Encode(hp.RandomEnc(r, hp.Pick(r, 4, 8)))
	m := p.model(x.Data)
	data := x.Data
	cut := len(data)
	if r.P(30) {
		cut = r.N(len(data))
		data = data[:cut]
	} else if r.P(40) {
		data = append(append([]byte(nil), data...), make([]byte, r.N(100))...)
	}
	// a delay before, between and after reads makes different interleavings
	src := &slow{r: bytes.NewReader(data), max: hp.Pick(r, 1<<20, 4096, 512, 100)}
	if len(data)/src.max < 200 {
		src.delay = time.Duration(hp.Pick(r, 0, 1, 20, 200)) * time.Microsecond
	}
	a, b, c := storage.NewRamWriteVolume(), storage.NewRamWriteVolume(), storage.NewRamWriteVolume()
	parser := dump.NewParser(src, storage.NewSmallRecordsWriteStorage(), storage.NewBigRecordsWriteStorage(a, b, c), storage.NewMetaWriteStorage())
	stop := make(chan bool)
	var wg sync.WaitGroup
	var seen, distinct int
	var bad string
	wg.Add(1)
	go func() {
		defer wg.Done()
		last := 0
		for {
			select {
			case <-stop:
				return
			default:
			}
			pos := parser.GetPosition()
			seen++
			if pos != last {
				distinct++
			}
			if pos < last || pos < 0 {
				bad = fmt.Sprintf("position went from %d to %d", last, pos)
			}
			last = pos
			if seen%64 == 0 {
				time.Sleep(time.Microsecond)
			}
		}
	}()
	err := parser.ParseHeapDump()
	end := parser.GetPosition()
	close(stop)
	wg.Wait()
	p.obs("positions observed", seen)
	p.obs("changes of position observed", distinct)
	if cut < m.End {
		if err == nil {
			fail("parse of a truncated dump (%d of %d bytes) succeeds", cut, m.End)
		}
		p.obs("failing parses", 1)
	} else {
		if err != nil {
			fail("parse: %v", err)
		}
		if end != m.End {
			fail("position %d after a complete parse, the parser consumed %d bytes", end, m.End)
		}
		p.obs("complete parses", 1)
		if bad != "" {
			fail("%s", bad)
		}
	}
	p.eval(fmt.Sprint(len(data), cut, src.max, src.delay))
	if i < 2 {
		p.sample(map[string]any{"bytes": len(data), "complete": cut >= m.End, "position": end, "observed": seen, "distinct": distinct})
	}
}

// ---- C22: writers that fail ----

type badWriter struct {
	mu      sync.Mutex
	n, at   int // fail the write call number at (0: never)
	failing bool
	short   bool
	closeAt bool
	closed  int
	total   int
}

var errDisk = errors.New("no space left on device (injected)")

func (w *badWriter) Write(b []byte) (int, error) {
	w.n++
	if w.at > 0 && w.n >= w.at {
		w.failing = true
		if w.short {
			return len(b) / 2, errDisk
		}
		return 0, errDisk
	}
	w.total += len(b)
	return len(b), nil
}
func (w *badWriter) Close() error {
	w.closed++
	if w.closeAt {
		w.failing = true
		return errDisk
	}
	return nil
}

type failAfter struct {
	n    int
	fail bool
}

func (w *failAfter) Write(b []byte) (int, error) {
	if len(b) > w.n {
		w.fail = true
		k := w.n
		w.n = 0
		return k, errDisk
	}
	w.n -= len(b)
	return len(b), nil
}

func (p *probe) failingWriters(i int) {
	r := p.rng("C22", i)
	var all hp.Pieces
	many := i < 8 || r.P(p.pick(2, 10))
	data, m, cls, idSize := p.base("C22", i)
	if many {
		// several batches
		k := &hp.Bulk{IDSize: idSize}
		var ps []hp.Piece
		kind := r.N(3)
		n := 1_000_100 + r.N(2)*1_000_000
		for j := 1; j < n; j++ {
			switch kind {
			case 0:
				k.Inst(uint64(j), cls)
			case 1:
				k.ObjArr(uint64(j), cls, 0)
			case 2:
				k.Prim(uint64(j), nil)
			}
			if k.Len() > 16<<20 {
				ps = append(ps, k.Segment())
			}
		}
		ps = append(ps, k.Segment())
		all = hp.SpliceAt(data, m.FirstSeg(), ps...)
	} else {
		all = hp.Pieces{{B: data}}
	}
	parse := func(ws [3]*badWriter) (error, *storage.SmallRecordsWriteStorage, *storage.MetaWriteStorage) {
		sw, mw := storage.NewSmallRecordsWriteStorage(), storage.NewMetaWriteStorage()
		return dump.NewParser(hp.NewReader(all), sw, storage.NewBigRecordsWriteStorage(ws[0], ws[1], ws[2]), mw).ParseHeapDump(), sw, mw
	}
	// a run without faults counts the operations
	ws := [3]*badWriter{{}, {}, {}}
	err, sw, mw := parse(ws)
	if err != nil {
		fail("parse without faults: %v", err)
	}
	for k := range ws {
		if ws[k].closed == 0 {
			p.obs("index files that the parser leaves open", 1)
		}
		p.max("writes to an index file", ws[k].n)
	}
	faults := 0
	for k := range ws {
		for at := 1; at <= ws[k].n+1; at++ {
			for _, short := range []bool{false, true} {
				var w [3]*badWriter
				for j := range w {
					w[j] = &badWriter{}
				}
				if at <= ws[k].n {
					w[k].at, w[k].short = at, short
				} else if short || ws[k].closed == 0 {
					continue
				} else {
					w[k].closeAt = true
				}
				err, _, _ := parse(w)
				if !w[k].failing {
					p.obs("faults that were not reached", 1)
					continue
				}
				if err == nil {
					fail("operation %d of %d on index file %d fails (short: %v), ParseHeapDump reports success", at, ws[k].n+1, k, short)
				}
				faults++
				p.seen("faults", fmt.Sprintf("file %d operation %d of %d short %v", k, at, ws[k].n+1, short))
			}
		}
	}
	// saving the small records and the counters
	var sb, mb bytes.Buffer
	if sw.SerializeTo(&sb) != nil || mw.SerializeTo(&mb) != nil {
		fail("SerializeTo fails without faults")
	}
	for k := 0; k < 12; k++ {
		for which, size := range []int{sb.Len(), mb.Len()} {
			at := r.N(size)
			if k < 2 {
				at = []int{0, size - 1}[k]
			}
			w := &failAfter{n: at}
			var err error
			if which == 0 {
				err = sw.SerializeTo(w)
			} else {
				err = mw.SerializeTo(w)
			}
			if w.fail && err == nil {
				fail("writing of file %d fails after %d of %d bytes, SerializeTo reports success", which, at, size)
			}
			if !w.fail {
				p.obs("faults that were not reached", 1)
				continue
			}
			faults++
		}
	}
	p.obs("faults injected in process", faults)
	p.eval(fmt.Sprint("probe", i, many, ws[0].total, ws[1].total, ws[2].total))
	if i < 2 {
		p.sample(map[string]any{"faults": faults, "writes": []int{ws[0].n, ws[1].n, ws[2].n}})
	}
}

func (p *probe) pick(q, t int) int {
	if p.thorough {
		return t
	}
	return q
}
