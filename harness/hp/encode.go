package hp

import (
	"bytes"
	"encoding/binary"
	"sort"
)

// Enc says how a world is written.
type Enc struct {
	IDSize     int
	Seed       int64
	ObjBase    uint64 // identifier of handle 1
	ObjGap     int    // gaps between neighbours are 1..ObjGap (multiples of ObjAlign)
	ObjAlign   uint64
	ObjJump    bool // identifiers jump over the powers of two
	StrBase    uint64
	StrRandom  bool   // random distinct string ids instead of ascending ones
	StrStride  uint64 // distance of ascending string ids, 0: 8
	FrameBase  uint64
	FrameStep  uint64 // distance of frame ids, 0: 1
	Shuffle    bool   // top-level records in random order
	AfterHeap  int    // percent of top-level records that follow heap segments
	SegMax     int    // maximal number of sub-records in a segment, 0: all in one
	EmptySegs  bool   // a few empty segments (always followed by a segment or the end)
	Interleave int    // 0: grouped as HotSpot does, 1: random, 2: one of each kind in turn, 3: grouped, reverse order of kinds
	Serials    bool   // permuted class, thread and stack serials
	DupStr     bool   // some texts have two string records
	Times      bool   // records have time stamps
	NoEnd      bool
	Tail       []byte // bytes after the end record
}

// DefaultEnc is HotSpot-like.
func DefaultEnc(idSize int) Enc {
	e := Enc{IDSize: idSize, ObjBase: 0x1000, ObjGap: 3, ObjAlign: 8, StrBase: 0x100, FrameBase: 1, Seed: 1}
	if idSize == 8 {
		e.ObjBase, e.StrBase = 0x7ff000000, 0x7f0012340000
	}
	return e
}

// RandomEnc picks any encoding.
func RandomEnc(r *Rng, idSize int) Enc {
	e := Enc{IDSize: idSize, Seed: int64(r.Uint64() >> 1)}
	if idSize == 4 {
		e.ObjBase = Pick[uint64](r, 1, 0x10, 0x7fff0000, 0x80000000, 0xc0000000, 0xf0000000)
		e.StrBase = Pick[uint64](r, 1, 0x1000, 0x7fffff00, 0x80000000, 0xf0000000)
	} else {
		e.ObjBase = Pick[uint64](r, 1, 0x10, 0x7ff000000, 0xfffff000, 0x7fffffffff000000, 0x8000000000000000, 0xf000000000000000, 0xfffffffff0000000)
		e.StrBase = Pick[uint64](r, 1, 0x7f0012340000, 0xffffff00, 0x7fffffffffffff00, 0x8000000000000000, 0xfffffff000000000)
	}
	e.ObjGap = Pick(r, 1, 2, 5, 100)
	e.ObjAlign = Pick[uint64](r, 1, 8, 16)
	if r.P(25) {
		e.ObjAlign = e.stride(r) // many identifiers equal in their low bits
	}
	e.ObjJump = r.P(30)
	e.StrRandom = r.P(50)
	if r.P(30) {
		e.StrStride = e.stride(r)
	}
	e.FrameBase = Pick[uint64](r, 1, 1, 0x1000, 0x7fffff00)
	if r.P(30) {
		e.FrameStep = e.stride(r)
	}
	e.Shuffle = r.P(60)
	e.AfterHeap = Pick(r, 0, 0, 10, 60)
	e.SegMax = Pick(r, 0, 1, 3, 20, 200)
	e.EmptySegs = r.P(20)
	e.Interleave = r.N(4)
	e.Serials = r.P(60)
	e.DupStr = r.P(25)
	e.Times = r.P(50)
	return e
}

func (e *Enc) stride(r *Rng) uint64 {
	if e.IDSize == 4 {
		return 1 << Pick(r, 8, 12, 16)
	}
	return 1 << Pick(r, 8, 16, 24, 32, 32, 40)
}

// fit is the stride made smaller until n steps of it fit behind base.
func (e *Enc) fit(base, stride, n uint64) uint64 {
	top := uint64(1<<64 - 1)
	if e.IDSize == 4 {
		top = 1<<32 - 1
	}
	for stride > 1 && (top-base)/stride <= n {
		stride /= 2
	}
	return stride
}

// jumps tells from which handles on the identifiers are at least a value, and
// the last of the values.
func (e *Enc) jumps(r *Rng, base uint64, n int) (map[int]uint64, uint64) {
	marks := []uint64{1 << 15, 1 << 16, 1 << 24, 1 << 31}
	if e.IDSize == 8 {
		marks = append(marks, 1<<32, 1<<47, 1<<53, 1<<62, 1<<63, 1<<63+1<<62)
	} else {
		marks = append(marks, 1<<31+1<<30)
	}
	var at []int
	for k := 1 + r.N(3); k > 0; k-- {
		at = append(at, 1+r.N(n))
	}
	sort.Ints(at)
	var vals []uint64
	for range at {
		vals = append(vals, Pick(r, marks...)-uint64(r.N(3)*r.N(20)))
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	m := map[int]uint64{}
	for i := range at {
		m[at[i]] = vals[i]
		base = max(base, vals[i])
	}
	return m, base
}

type outW struct {
	b      bytes.Buffer
	idSize int
}

func (o *outW) u1(v byte)   { o.b.WriteByte(v) }
func (o *outW) u2(v uint16) { o.b.Write(binary.BigEndian.AppendUint16(nil, v)) }
func (o *outW) u4(v uint32) { o.b.Write(binary.BigEndian.AppendUint32(nil, v)) }
func (o *outW) u8(v uint64) { o.b.Write(binary.BigEndian.AppendUint64(nil, v)) }
func (o *outW) id(v uint64) {
	if o.idSize == 4 {
		o.u4(uint32(v))
	} else {
		o.u8(v)
	}
}

// Encoded is a written dump.
type Encoded struct {
	Data  []byte
	ObjID func(H) uint64
	StrID map[string]uint64
}

type item struct {
	kind byte // sub-record type
	data []byte
}

// Encode writes the world.
func (w *World) Encode(e Enc) *Encoded {
	r := NewRng(e.Seed, "enc")
	ids := make([]uint64, w.Last+1)
	cur := e.ObjBase
	var jumps map[int]uint64
	last := cur
	if e.ObjJump {
		jumps, last = e.jumps(r, cur, int(w.Last))
	}
	align := e.fit(last, max(e.ObjAlign, 1), uint64(w.Last)*uint64(max(e.ObjGap, 1)))
	for i := 1; i <= int(w.Last); i++ {
		cur = max(cur, jumps[i])
		ids[i] = cur
		cur += uint64(1+r.N(max(e.ObjGap, 1))) * align
	}
	objID := func(h H) uint64 { return ids[h] }

	// strings
	strID := map[string]uint64{}
	var strs []string
	sid := func(s string) uint64 {
		if id, ok := strID[s]; ok {
			return id
		}
		strID[s] = 0
		strs = append(strs, s)
		return 0
	}
	for _, c := range w.Classes {
		sid(c.Name)
		for _, s := range c.Statics {
			sid(s.Name)
		}
		for _, f := range c.Fields {
			sid(f.Name)
		}
	}
	for _, f := range w.Frames {
		sid(f.Method)
		sid(f.Sig)
		if !f.NoFile {
			sid(f.File)
		}
	}
	for _, x := range w.Extra {
		sid(x)
	}
	for _, x := range w.LoadOnly {
		sid(x.Name)
	}
	used := map[uint64]bool{}
	next := e.StrBase
	step := e.StrStride
	if step == 0 {
		step = 8
	}
	step = e.fit(next, step, 6*uint64(len(strs)))
	for _, s := range strs {
		id := next
		if e.StrRandom {
			for {
				id = r.Uint64()
				if e.IDSize == 4 {
					id &= 0xffffffff
				}
				if id != 0 && !used[id] {
					break
				}
			}
		} else {
			next += uint64(1+r.N(3)) * step
		}
		used[id] = true
		strID[s] = id
	}
	alt := map[string]uint64{}
	if e.DupStr {
		for _, s := range strs {
			if !r.P(30) {
				continue
			}
			id := next
			next += uint64(1+r.N(3)) * step
			if e.IDSize == 4 && id > 0xffffffff || used[id] {
				continue
			}
			used[id] = true
			alt[s] = id
		}
	}
	name := func(s string) uint64 { // an id of the text
		if id, ok := alt[s]; ok && r.P(50) {
			return id
		}
		return strID[s]
	}
	stamp := func() uint32 {
		if !e.Times {
			return 0
		}
		return Pick(r, 0, 1, r.Uint32(), 0xffffffff)
	}
	missing := uint64(0) // an id no string has
	if r.P(50) {
		for missing = 3; used[missing]; missing += 7 {
		}
	}

	// serials
	perm := func(n int) []uint32 {
		p := make([]uint32, n+1)
		for i := range p {
			p[i] = uint32(i)
		}
		if e.Serials {
			// distinct, not zero
			base, step := uint32(Pick(r, 0, 5, 100000)), uint32(1)
			switch r.N(5) {
			case 0: // equal in their low bits
				base = uint32(r.N(1000))
				for step = 1 << Pick(r, 8, 16, 16, 24); uint64(step)*uint64(n+1)+1000 > 1<<32-1; step /= 2 {
				}
			case 1: // around 2^31, the last ones
				base = Pick(r, 1<<31-uint32(n)/2-1, 1<<32-1-uint32(n))
			case 2:
				seen := map[uint32]bool{0: true}
				for i := 1; i <= n; i++ {
					for p[i] = r.Uint32(); seen[p[i]]; p[i] = r.Uint32() {
					}
					seen[p[i]] = true
				}
				return p
			}
			q := r.Perm(n)
			for i, x := range q {
				p[i+1] = base + uint32(x)*step + 1
			}
		}
		return p
	}
	maxThread := 0
	for _, t := range w.Traces {
		maxThread = max(maxThread, int(t.Thread))
	}
	for _, x := range w.Roots {
		maxThread = max(maxThread, int(x.Thread))
	}
	classSer := perm(len(w.Classes) + len(w.LoadOnly))
	threadSer := perm(maxThread)
	traceSer := perm(len(w.Traces))
	stackSer := func() uint32 {
		if len(w.Traces) == 0 || r.P(70) {
			return 1
		}
		return traceSer[1+r.N(len(w.Traces))]
	}
	classIdx := map[*Class]uint32{}
	for i, c := range w.Classes {
		classIdx[c] = classSer[i+1]
	}
	frameID := map[*Frame]uint64{}
	fstep := e.fit(e.FrameBase, max(e.FrameStep, 1), uint64(len(w.Frames)))
	for i, f := range w.Frames {
		frameID[f] = e.FrameBase + uint64(i)*fstep
	}

	// top-level records
	rec := func(tag byte, body func(o *outW)) []byte {
		b := &outW{idSize: e.IDSize}
		body(b)
		o := &outW{idSize: e.IDSize}
		o.u1(tag)
		o.u4(stamp())
		o.u4(uint32(b.b.Len()))
		o.b.Write(b.b.Bytes())
		return o.b.Bytes()
	}
	var top [][]byte
	for _, s := range strs {
		top = append(top, rec(0x01, func(o *outW) { o.id(strID[s]); o.b.WriteString(s) }))
	}
	for _, s := range strs {
		if id, ok := alt[s]; ok {
			top = append(top, rec(0x01, func(o *outW) { o.id(id); o.b.WriteString(s) }))
		}
	}
	for _, c := range w.Classes {
		n := 1
		if c.Dup {
			n = 2
		}
		ser, cname := stackSer(), name(c.Name)
		for ; n > 0; n-- {
			top = append(top, rec(0x02, func(o *outW) {
				o.u4(classIdx[c])
				o.id(objID(c.H))
				o.u4(ser)
				o.id(cname)
			}))
		}
	}
	for i, c := range w.LoadOnly {
		top = append(top, rec(0x02, func(o *outW) {
			o.u4(classSer[len(w.Classes)+1+i])
			o.id(objID(c.H))
			o.u4(stackSer())
			o.id(name(c.Name))
		}))
	}
	for _, f := range w.Frames {
		top = append(top, rec(0x04, func(o *outW) {
			o.id(frameID[f])
			o.id(name(f.Method))
			o.id(name(f.Sig))
			if f.NoFile {
				o.id(missing)
			} else {
				o.id(name(f.File))
			}
			o.u4(classIdx[f.Cls])
			o.u4(uint32(f.Line))
		}))
	}
	for i, t := range w.Traces {
		top = append(top, rec(0x05, func(o *outW) {
			o.u4(traceSer[i+1])
			if t.Thread == 0 {
				o.u4(0)
			} else {
				o.u4(threadSer[t.Thread])
			}
			o.u4(uint32(len(t.Frames)))
			for _, f := range t.Frames {
				o.id(frameID[f])
			}
		}))
	}
	if e.Shuffle {
		r.Shuffle(len(top), func(i, j int) { top[i], top[j] = top[j], top[i] })
	}
	var before, after [][]byte
	for _, t := range top {
		if e.AfterHeap > 0 && r.P(e.AfterHeap) {
			after = append(after, t)
		} else {
			before = append(before, t)
		}
	}

	// sub-records by kind
	sub := func(kind byte, body func(o *outW)) item {
		o := &outW{idSize: e.IDSize}
		o.u1(kind)
		body(o)
		return item{kind, o.b.Bytes()}
	}
	val := func(o *outW, v Val) {
		switch Width(v.T, e.IDSize) {
		case 1:
			o.u1(byte(v.Bits))
		case 2:
			o.u2(uint16(v.Bits))
		case 4:
			if v.T == TObject {
				o.id(ids[v.Ref])
			} else {
				o.u4(uint32(v.Bits))
			}
		case 8:
			if v.T == TObject {
				o.id(ids[v.Ref])
			} else {
				o.u8(v.Bits)
			}
		}
	}
	lists := map[string][]item{}
	for _, c := range w.Classes {
		super := uint64(0)
		if c.Super != nil {
			super = objID(c.Super.H)
		}
		lists["class"] = append(lists["class"], sub(0x20, func(o *outW) {
			o.id(objID(c.H))
			o.u4(stackSer())
			o.id(super)
			o.id(ids[c.Loader])
			o.id(ids[c.Signers])
			o.id(ids[c.PD])
			o.id(0)
			o.id(0)
			o.u4(uint32(c.InstSize))
			o.u2(uint16(len(c.Consts)))
			for _, k := range c.Consts {
				o.u2(k.Idx)
				o.u1(k.V.T)
				val(o, k.V)
			}
			o.u2(uint16(len(c.Statics)))
			for _, s := range c.Statics {
				o.id(name(s.Name))
				o.u1(s.V.T)
				val(o, s.V)
			}
			o.u2(uint16(len(c.Fields)))
			for _, f := range c.Fields {
				o.id(name(f.Name))
				o.u1(f.T)
			}
		}))
	}
	for _, x := range w.Roots {
		ser := uint32(0)
		if x.Thread != 0 {
			ser = threadSer[x.Thread]
		}
		key := "root" + string(rune('a'+int(x.Kind)%26))
		lists[key] = append(lists[key], sub(x.Kind, func(o *outW) {
			o.id(ids[x.Obj])
			switch x.Kind {
			case RJniGlobal:
				o.id(x.Jni)
			case RJniLocal, RJavaFrame:
				o.u4(ser)
				o.u4(uint32(x.Frame))
			case RNativeStack, RThreadBlock:
				o.u4(ser)
			case RThread:
				o.u4(ser)
				if int(x.Frame) < len(w.Traces) && x.Frame >= 0 {
					o.u4(traceSer[x.Frame+1])
				} else {
					o.u4(0)
				}
			}
		}))
	}
	for _, x := range w.Insts {
		lists["inst"] = append(lists["inst"], sub(0x21, func(o *outW) {
			n := 0
			for _, v := range x.Vals {
				n += Width(v.T, e.IDSize)
			}
			o.id(objID(x.H))
			o.u4(stackSer())
			o.id(objID(x.Cls.H))
			o.u4(uint32(n))
			for _, v := range x.Vals {
				val(o, v)
			}
		}))
	}
	for _, x := range w.ObjArrs {
		lists["objarr"] = append(lists["objarr"], sub(0x22, func(o *outW) {
			o.id(objID(x.H))
			o.u4(stackSer())
			o.u4(uint32(len(x.Elems)))
			o.id(objID(x.Cls.H))
			for _, h := range x.Elems {
				o.id(ids[h])
			}
		}))
	}
	for _, x := range w.Prims {
		lists["prim"] = append(lists["prim"], sub(0x23, func(o *outW) {
			o.id(objID(x.H))
			o.u4(stackSer())
			o.u4(uint32(x.N))
			o.u1(x.T)
			o.b.Write(x.Data)
		}))
	}
	var keys []string
	for k := range lists {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var subs []item
	switch e.Interleave {
	case 0:
		for _, k := range keys {
			subs = append(subs, lists[k]...)
		}
	case 3:
		for i := len(keys) - 1; i >= 0; i-- {
			subs = append(subs, lists[keys[i]]...)
		}
	case 2:
		for more := true; more; {
			more = false
			for _, k := range keys {
				if l := lists[k]; len(l) > 0 {
					subs = append(subs, l[0])
					lists[k] = l[1:]
					more = true
				}
			}
		}
	default:
		var order []string
		for _, k := range keys {
			for range lists[k] {
				order = append(order, k)
			}
		}
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		for _, k := range order {
			subs = append(subs, lists[k][0])
			lists[k] = lists[k][1:]
		}
	}

	o := &outW{idSize: e.IDSize}
	o.b.WriteString("JAVA PROFILE 1.0.2\x00")
	o.u4(uint32(e.IDSize))
	o.u4(uint32(uint64(w.TS) >> 32))
	o.u4(uint32(w.TS))
	for _, t := range before {
		o.b.Write(t)
	}
	var segs [][]byte
	seg := func(items []item) {
		var b bytes.Buffer
		for _, it := range items {
			b.Write(it.data)
		}
		s := &outW{}
		s.u1(0x1c)
		s.u4(stamp())
		s.u4(uint32(b.Len()))
		s.b.Write(b.Bytes())
		segs = append(segs, s.b.Bytes())
	}
	for len(subs) > 0 {
		n := len(subs)
		if e.SegMax > 0 {
			n = min(n, 1+r.N(e.SegMax))
		}
		seg(subs[:n])
		subs = subs[n:]
	}
	for i, s := range segs {
		if e.EmptySegs && r.P(30) {
			o.b.Write([]byte{0x1c, 0, 0, 0, 0, 0, 0, 0, 0})
		}
		o.b.Write(s)
		// some of the late top-level records between the segments
		if len(after) > 0 {
			n := len(after)
			if i < len(segs)-1 {
				n = r.N(min(len(after), 5) + 1)
			}
			for _, t := range after[:n] {
				o.b.Write(t)
			}
			after = after[n:]
		}
	}
	for _, t := range after {
		o.b.Write(t)
	}
	if e.EmptySegs && r.P(30) {
		o.b.Write([]byte{0x1c, 0, 0, 0, 0, 0, 0, 0, 0})
	}
	if !e.NoEnd {
		o.u1(0x2c)
		o.u4(stamp())
		o.u4(0)
	}
	o.b.Write(e.Tail)
	return &Encoded{Data: o.b.Bytes(), ObjID: objID, StrID: strID}
}
