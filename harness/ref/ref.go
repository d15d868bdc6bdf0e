// Package ref reads HPROF files and computes from them what the reports of the
// tool must say. It shares no code with the tool and holds the whole dump in
// memory.
package ref

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
)

type ID = uint64

type Val struct {
	T    byte
	Bits uint64
}
type Static struct {
	Name ID
	V    Val
}
type Field struct {
	Name ID
	T    byte
}
type Const struct {
	Idx uint16
	V   Val
}
type ClassDump struct {
	ID, Super, Loader, Signers, PD ID
	Serial                         uint32
	InstSize                       int32
	Consts                         []Const
	Statics                        []Static
	Fields                         []Field
}
type Load struct {
	Serial uint32
	Class  ID
	Stack  uint32
	Name   ID
}
type Frame struct {
	ID, Method, Sig, File ID
	Class                 uint32
	Line                  int32
}
type Trace struct {
	Serial, Thread, N uint32
	Frames            []ID
}
type Root struct {
	Kind byte
	Obj  ID
	A, B uint32
	Jni  ID
}
type Str struct {
	ID   ID
	Text string
}

// Obj is an instance ('i'), object array ('o') or primitive array ('p').
type Obj struct {
	Kind  byte
	ID    ID
	Stack uint32
	Class ID // of instances and object arrays
	T     byte
	N     uint32
	Off   int // of the body of the sub-record (after the type byte)
	Data  []byte
}

type Model struct {
	IDSize int
	TS     int64
	Strs   []Str
	Str    map[ID]string
	Loads  []Load
	Frames []Frame
	Frame  map[ID]Frame
	Traces []Trace
	Class  map[ID]*ClassDump
	Dumps  []*ClassDump
	Roots  []Root
	Objs   []*Obj
	Inst   map[ID]*Obj
	OArr   map[ID]*Obj
	PArr   map[ID]*Obj
	Bounds []int // offsets at which a record or sub-record starts
	End    int   // offset after the end record
	Top    []Rec // top-level records
	Subs   []Rec // sub-records of heap segments
	More   []More

	loadByClass  map[ID]Load
	loadBySerial map[uint32]Load
}

// More are objects that were added to the dump without being read here.
type More struct {
	Kind  byte
	Class ID
	T     byte
	Count int
	Elems int // of all together
}

// Rec is where a record lies.
type Rec struct {
	Tag      byte
	Off, End int
	In       int // for sub-records the index of the segment in Top
}

type rd struct {
	b  []byte
	p  int
	id int
}

func (r *rd) u1() byte { v := r.b[r.p]; r.p++; return v }
func (r *rd) u2() uint16 {
	v := binary.BigEndian.Uint16(r.b[r.p:])
	r.p += 2
	return v
}
func (r *rd) u4() uint32 {
	v := binary.BigEndian.Uint32(r.b[r.p:])
	r.p += 4
	return v
}
func (r *rd) u8() uint64 {
	v := binary.BigEndian.Uint64(r.b[r.p:])
	r.p += 8
	return v
}
func (r *rd) ident() ID {
	if r.id == 4 {
		return uint64(r.u4())
	}
	return r.u8()
}

// Width of a type in bytes, 0 for unknown ones.
func Width(t byte, id int) int {
	switch t {
	case 2:
		return id
	case 4, 8:
		return 1
	case 5, 9:
		return 2
	case 6, 10:
		return 4
	case 7, 11:
		return 8
	}
	return 0
}

func (r *rd) val(t byte) Val {
	v := Val{T: t}
	switch Width(t, r.id) {
	case 1:
		v.Bits = uint64(r.u1())
	case 2:
		v.Bits = uint64(r.u2())
	case 4:
		v.Bits = uint64(r.u4())
	case 8:
		v.Bits = r.u8()
	default:
		panic(fmt.Sprintf("type %d", t))
	}
	return v
}

// Read parses a well-formed dump.
func Read(data []byte) (m *Model, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("not well-formed: %v", x)
		}
	}()
	const head = "JAVA PROFILE 1.0.2\x00"
	if !strings.HasPrefix(string(data[:len(head)]), head) {
		return nil, fmt.Errorf("bad header")
	}
	r := &rd{b: data, p: len(head)}
	m = &Model{Str: map[ID]string{}, Frame: map[ID]Frame{}, Class: map[ID]*ClassDump{}, Inst: map[ID]*Obj{}, OArr: map[ID]*Obj{}, PArr: map[ID]*Obj{},
		loadByClass: map[ID]Load{}, loadBySerial: map[uint32]Load{}}
	m.IDSize = int(r.u4())
	r.id = m.IDSize
	if r.id != 4 && r.id != 8 {
		return nil, fmt.Errorf("id size %d", r.id)
	}
	m.TS = int64(r.u4()) << 32
	m.TS |= int64(r.u4())
	for {
		m.Bounds = append(m.Bounds, r.p)
		tag := r.u1()
		r.u4()
		n := int(r.u4())
		end := r.p + n
		m.Top = append(m.Top, Rec{Tag: tag, Off: r.p - 9, End: end})
		if end > len(data) {
			return nil, fmt.Errorf("record too long")
		}
		switch tag {
		case 1:
			id := r.ident()
			s := Str{id, string(data[r.p:end])}
			r.p = end
			m.Strs = append(m.Strs, s)
			m.Str[id] = s.Text
		case 2:
			var l Load
			l.Serial = r.u4()
			l.Class = r.ident()
			l.Stack = r.u4()
			l.Name = r.ident()
			m.Loads = append(m.Loads, l)
			m.loadByClass[l.Class] = l
			m.loadBySerial[l.Serial] = l
		case 4:
			var f Frame
			f.ID = r.ident()
			f.Method = r.ident()
			f.Sig = r.ident()
			f.File = r.ident()
			f.Class = r.u4()
			f.Line = int32(r.u4())
			m.Frames = append(m.Frames, f)
			m.Frame[f.ID] = f
		case 5:
			var t Trace
			t.Serial = r.u4()
			t.Thread = r.u4()
			t.N = r.u4()
			for i := 0; i < int(t.N); i++ {
				t.Frames = append(t.Frames, r.ident())
			}
			m.Traces = append(m.Traces, t)
		case 0x1c:
			for r.p < end {
				m.Bounds = append(m.Bounds, r.p)
				x := Rec{Tag: data[r.p], Off: r.p, In: len(m.Top) - 1}
				m.sub(r)
				x.End = r.p
				m.Subs = append(m.Subs, x)
			}
		case 0x2c:
			m.End = r.p
			return m, nil
		default:
			return nil, fmt.Errorf("tag %#x", tag)
		}
		if r.p != end {
			return nil, fmt.Errorf("record of tag %#x ends at %d, not %d", tag, r.p, end)
		}
	}
}

// FirstSeg is the offset of the first heap segment, or of the end record.
func (m *Model) FirstSeg() int {
	for _, t := range m.Top {
		if t.Tag == 0x1c || t.Tag == 0x2c {
			return t.Off
		}
	}
	return m.End
}

func (m *Model) sub(r *rd) {
	t := r.u1()
	off := r.p
	switch t {
	case 0xff, 5, 7:
		m.Roots = append(m.Roots, Root{Kind: t, Obj: r.ident()})
	case 1:
		x := Root{Kind: t, Obj: r.ident()}
		x.Jni = r.ident()
		m.Roots = append(m.Roots, x)
	case 2, 3, 8:
		x := Root{Kind: t, Obj: r.ident()}
		x.A = r.u4()
		x.B = r.u4()
		m.Roots = append(m.Roots, x)
	case 4, 6:
		x := Root{Kind: t, Obj: r.ident()}
		x.A = r.u4()
		m.Roots = append(m.Roots, x)
	case 0x20:
		c := &ClassDump{}
		c.ID = r.ident()
		c.Serial = r.u4()
		c.Super = r.ident()
		c.Loader = r.ident()
		c.Signers = r.ident()
		c.PD = r.ident()
		r.ident()
		r.ident()
		c.InstSize = int32(r.u4())
		for n := r.u2(); n > 0; n-- {
			k := Const{Idx: r.u2()}
			k.V = r.val(r.u1())
			c.Consts = append(c.Consts, k)
		}
		for n := r.u2(); n > 0; n-- {
			s := Static{Name: r.ident()}
			s.V = r.val(r.u1())
			c.Statics = append(c.Statics, s)
		}
		for n := r.u2(); n > 0; n-- {
			f := Field{Name: r.ident()}
			f.T = r.u1()
			c.Fields = append(c.Fields, f)
		}
		m.Class[c.ID] = c
		m.Dumps = append(m.Dumps, c)
	case 0x21:
		o := &Obj{Kind: 'i', Off: off}
		o.ID = r.ident()
		o.Stack = r.u4()
		o.Class = r.ident()
		o.N = r.u4()
		m.body(r, o, int(o.N))
		m.Inst[o.ID] = o
	case 0x22:
		o := &Obj{Kind: 'o', Off: off}
		o.ID = r.ident()
		o.Stack = r.u4()
		o.N = r.u4()
		o.Class = r.ident()
		m.body(r, o, int(o.N)*r.id)
		m.OArr[o.ID] = o
	case 0x23:
		o := &Obj{Kind: 'p', Off: off}
		o.ID = r.ident()
		o.Stack = r.u4()
		o.N = r.u4()
		o.T = r.u1()
		m.body(r, o, int(o.N)*Width(o.T, r.id))
		m.PArr[o.ID] = o
	default:
		panic(fmt.Sprintf("sub-record %#x", t))
	}
}

func (m *Model) body(r *rd, o *Obj, n int) {
	o.Data = r.b[r.p : r.p+n]
	r.p += n
	m.Objs = append(m.Objs, o)
}

// ---- names ----

var prim = map[byte]string{'B': "byte", 'C': "char", 'D': "double", 'F': "float", 'I': "int", 'J': "long", 'S': "short", 'Z': "boolean", 'V': "void"}

// TypeName of a code.
var TypeName = map[byte]string{2: "object", 4: "boolean", 5: "char", 6: "float", 7: "double", 8: "byte", 9: "short", 10: "int", 11: "long"}

// Desc renders the field descriptor at the start of d and returns the rest.
func Desc(d string) (string, string) {
	dims := 0
	for d[dims] == '[' {
		dims++
	}
	d = d[dims:]
	var s string
	if d[0] == 'L' {
		i := strings.IndexByte(d, ';')
		s = strings.ReplaceAll(d[1:i], "/", ".")
		d = d[i+1:]
	} else {
		s = prim[d[0]]
		d = d[1:]
	}
	return s + strings.Repeat("[]", dims), d
}

// Method renders a method descriptor.
func Method(d string) (args, ret string) {
	d = d[1:]
	var a []string
	for d[0] != ')' {
		var s string
		s, d = Desc(d)
		a = append(a, s)
	}
	ret, _ = Desc(d[1:])
	return strings.Join(a, ", "), ret
}

// Pretty is the name of a class in Java source form.
func Pretty(name string) string {
	if strings.HasPrefix(name, "[") {
		s, _ := Desc(name)
		return s
	}
	return strings.ReplaceAll(name, "/", ".")
}

// ClassName by identifier.
func (m *Model) ClassName(id ID) string {
	l, ok := m.loadByClass[id]
	if !ok {
		panic(fmt.Sprintf("no class %#x", id))
	}
	return m.Str[l.Name]
}

// ---- objects ----

type Row struct {
	Name        string
	Count, Size int
}

// Objects returns the rows of the histogram in no particular order.
func (m *Model) Objects() (rows []Row, count, size int) {
	type key struct {
		kind byte
		id   ID
	}
	acc := map[key]*Row{}
	add := func(kind byte, class ID, t byte, count, elems int) {
		k := key{kind, class}
		if kind == 'p' {
			k.id = ID(t)
		}
		x := acc[k]
		if x == nil {
			x = &Row{}
			switch kind {
			case 'p':
				x.Name = TypeName[t] + "[]"
			default:
				x.Name = Pretty(m.ClassName(class))
			}
			acc[k] = x
		}
		x.Count += count
		switch kind {
		case 'i':
			x.Size += count * int(m.Class[class].InstSize)
		case 'o':
			x.Size += elems * m.IDSize
		case 'p':
			x.Size += elems * Width(t, m.IDSize)
		}
	}
	for _, o := range m.Objs {
		add(o.Kind, o.Class, o.T, 1, int(o.N))
	}
	for _, o := range m.More {
		add(o.Kind, o.Class, o.T, o.Count, o.Elems)
	}
	for _, x := range acc {
		rows = append(rows, *x)
		count += x.Count
		size += x.Size
	}
	sort.Slice(rows, func(i, j int) bool {
		a, b := rows[i], rows[j]
		if a.Name != b.Name {
			return a.Name < b.Name
		}
		if a.Count != b.Count {
			return a.Count > b.Count
		}
		return a.Size > b.Size
	})
	return
}

// Size in B, K, M or G rounded down.
func Size(n int) string {
	switch {
	case n >= 1<<30:
		return strconv.Itoa(n>>30) + "G"
	case n >= 1<<20:
		return strconv.Itoa(n>>20) + "M"
	case n >= 1<<10:
		return strconv.Itoa(n>>10) + "K"
	}
	return strconv.Itoa(n) + "B"
}

// ---- objects' fields ----

// FieldOf returns the value of the field of instance id declared by the class
// named owner, or by the most derived class if owner is empty.
func (m *Model) FieldOf(o *Obj, owner, name string) (Val, string, bool) {
	off := 0
	for c := m.Class[o.Class]; c != nil; c = m.Class[c.Super] {
		cn := m.ClassName(c.ID)
		for _, f := range c.Fields {
			if m.Str[f.Name] == name && (owner == "" || owner == cn) {
				r := &rd{b: o.Data, p: off, id: m.IDSize}
				return r.val(f.T), cn, true
			}
			off += Width(f.T, m.IDSize)
		}
		if c.Super == 0 {
			break
		}
	}
	return Val{}, "", false
}

// Text of a java.lang.String.
func (m *Model) Text(id ID) string {
	o := m.Inst[id]
	v, _, ok := m.FieldOf(o, "java/lang/String", "value")
	if !ok {
		panic("not a string")
	}
	c, _, _ := m.FieldOf(o, "java/lang/String", "coder")
	data := m.PArr[v.Bits].Data
	if c.Bits == 0 {
		var b strings.Builder
		for _, x := range data {
			b.WriteRune(rune(x))
		}
		return b.String()
	}
	var u []uint16
	for i := 0; i+1 < len(data); i += 2 {
		u = append(u, uint16(data[i])|uint16(data[i+1])<<8)
	}
	return string(utf16.Decode(u))
}

// ---- threads ----

type FrameOut struct {
	Ret, Class, Method, Args, Loc string
	Locals                        []string
}

func (f FrameOut) Line() string {
	return strings.TrimRight(fmt.Sprintf("%s %s.%s(%s) %s", f.Ret, f.Class, f.Method, f.Args, f.Loc), " ")
}

type Thread struct {
	Name    string
	ID      int64
	Prio    int32
	Daemon  bool
	Status  string
	Word    uint32
	Frames  []FrameOut
	ObjID   ID
	ObjType string
}

func (t Thread) Head() string {
	d := ""
	if t.Daemon {
		d = " (daemon)"
	}
	return fmt.Sprintf("\"%s\", ID=%d, prio=%d, status=%s%s", t.Name, t.ID, t.Prio, t.Status, d)
}

// Status is java.lang.Thread.getState().
func Status(w uint32) string {
	switch {
	case w&4 != 0:
		return "RUNNABLE"
	case w&0x400 != 0:
		return "BLOCKED"
	case w&0x10 != 0:
		return "WAITING"
	case w&0x20 != 0:
		return "TIMED_WAITING"
	case w&2 != 0:
		return "TERMINATED"
	case w&1 == 0:
		return "NEW"
	}
	return "RUNNABLE"
}

// LocalType is how a local variable is shown.
func (m *Model) LocalType(id ID) string {
	if o := m.Inst[id]; o != nil {
		return Pretty(m.ClassName(o.Class))
	}
	if o := m.OArr[id]; o != nil {
		return Pretty(m.ClassName(o.Class))
	}
	if o := m.PArr[id]; o != nil {
		return TypeName[o.T] + "[]"
	}
	return "class " + Pretty(m.ClassName(id))
}

// Threads in ascending order of thread ids.
func (m *Model) Threads() []Thread {
	var out []Thread
	const T = "java/lang/Thread"
	for _, x := range m.Roots {
		if x.Kind != 8 {
			continue
		}
		o := m.Inst[x.Obj]
		get := func(f string) uint64 {
			v, _, ok := m.FieldOf(o, T, f)
			if !ok {
				panic("no field " + f)
			}
			return v.Bits
		}
		t := Thread{Name: m.Text(get("name")), ID: int64(get("tid")), Prio: int32(get("priority")), Daemon: get("daemon") != 0,
			Status: Status(uint32(get("threadStatus"))), Word: uint32(get("threadStatus")), ObjID: x.Obj, ObjType: m.ClassName(o.Class)}
		for _, tr := range m.Traces {
			if tr.Thread != x.A {
				continue
			}
			for i, fid := range tr.Frames {
				f, ok := m.Frame[fid]
				if !ok {
					panic("no frame")
				}
				var fo FrameOut
				fo.Args, fo.Ret = Method(m.Str[f.Sig])
				fo.Class = Pretty(m.Str[m.loadBySerial[f.Class].Name])
				fo.Method = m.Str[f.Method]
				if file, ok := m.Str[f.File]; ok {
					switch {
					case f.Line > 0:
						fo.Loc = fmt.Sprintf("%s:%d", file, f.Line)
					case f.Line == -1:
						fo.Loc = file
					case f.Line == -2:
						fo.Loc = file + ":CompiledMethod"
					case f.Line == -3:
						fo.Loc = file + ":NativeMethod"
					}
				}
				for _, kind := range []byte{2, 3} {
					for _, l := range m.Roots {
						if l.Kind == kind && l.A == x.A && l.B == uint32(i) {
							fo.Locals = append(fo.Locals, m.LocalType(l.Obj))
						}
					}
				}
				t.Frames = append(t.Frames, fo)
			}
		}
		out = append(out, t)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// ---- summary ----

type KV struct{ K, V string }

type Summary struct {
	Env                      []KV
	Classes, Roots, Insts    int
	HeapSize                 int
	Uptime                   string
	Props                    []KV
	PropBins, MaxChain, Tree int
}

func (m *Model) classByName(n string) *ClassDump {
	for _, l := range m.Loads {
		if m.Str[l.Name] == n {
			return m.Class[l.Class]
		}
	}
	panic("no class " + n)
}

func (m *Model) static(c *ClassDump, n string) Val {
	for _, s := range c.Statics {
		if m.Str[s.Name] == n {
			return s.V
		}
	}
	panic("no static " + n)
}

func (m *Model) field(id ID, owner, n string) uint64 {
	o := m.Inst[id]
	if o == nil {
		panic(fmt.Sprintf("no instance %#x", id))
	}
	v, _, ok := m.FieldOf(o, owner, n)
	if !ok {
		panic("no field " + n)
	}
	return v.Bits
}

// PropsMap reads the pairs of java.lang.System's properties.
func (m *Model) PropsMap(s *Summary) map[string]string {
	const CHM = "java/util/concurrent/ConcurrentHashMap"
	p := m.static(m.classByName("java/lang/System"), "props").Bits
	mp := m.field(p, "java/util/Properties", "map")
	tab := m.OArr[m.field(mp, CHM, "table")]
	out := map[string]string{}
	r := &rd{b: tab.Data, id: m.IDSize}
	for i := 0; i < int(tab.N); i++ {
		n := r.ident()
		if n == 0 {
			continue
		}
		if m.ClassName(m.Inst[n].Class) == CHM+"$TreeBin" {
			n = m.field(n, CHM+"$TreeBin", "first")
			s.Tree++
		}
		s.PropBins++
		len := 0
		for ; n != 0; n = m.field(n, CHM+"$Node", "next") {
			out[m.Text(m.field(n, CHM+"$Node", "key"))] = m.Text(m.field(n, CHM+"$Node", "val"))
			len++
		}
		s.MaxChain = max(s.MaxChain, len)
	}
	return out
}

func (m *Model) HeapStats() (classes, roots, insts, size int) {
	cs := map[ID]bool{}
	for _, l := range m.Loads {
		cs[l.Class] = true
	}
	_, c, s := m.Objects()
	return len(cs), len(m.Roots), c, s
}

// Summary of the dump.
func (m *Model) Summary() Summary {
	var s Summary
	p := m.PropsMap(&s)
	s.Env = []KV{{"Architecture", p["os.arch"]}, {"JavaHome", p["java.home"]},
		{"JavaName", p["java.vm.name"] + " (" + p["java.vm.version"] + ", " + p["java.vm.info"] + ")"},
		{"JavaVendor", p["java.vm.vendor"]}, {"JavaVersion", p["java.version"]}, {"System", p["os.name"]}}
	s.Classes, s.Roots, s.Insts, s.HeapSize = m.HeapStats()
	b := m.static(m.classByName("sun/management/ManagementFactoryHelper"), "runtimeMBean").Bits
	start := int64(m.field(b, "sun/management/RuntimeImpl", "vmStartupTime"))
	s.Uptime = (time.Duration(m.TS-start) * time.Millisecond).String()
	for k, v := range p {
		s.Props = append(s.Props, KV{k, v})
	}
	sort.Slice(s.Props, func(i, j int) bool { return s.Props[i].K < s.Props[j].K })
	return s
}

// F32 is the float32 value of bits.
func F32(b uint64) float32 { return math.Float32frombits(uint32(b)) }

// F64 is the float64 value of bits.
func F64(b uint64) float64 { return math.Float64frombits(b) }
