package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"vh/cli"
	"vh/hp"
	"vh/ref"
)

func init() {
	register("C18", "exploration",
		"mutated dumps of small JVMs (bytes, extreme values, identifiers of other records, tags, types, counts, lengths, class names and signatures; records cut, doubled, removed, swapped, spliced from another dump), random and nearly empty files, dumps that claim sizes up to 2^64 they do not have, and towers: well-formed dumps deep, long or wide in one dimension (hierarchies, frames, signatures, bins, threads, fields, strings, locals), each run must end in time with status 0 and a report or status 1 and a message, within an address-space limit in proportion to the file; non-trivial if the header is intact; distinct by content",
		checkRobust)
}

// limitMain runs the tool with limited private memory and reports what it
// used. (The peak of a direct child would include the monitor's own, which it
// shares until it becomes the tool.)
func limitMain(args []string) {
	var n uint64
	fmt.Sscan(args[0], &n)
	if n > 0 {
		if err := syscall.Setrlimit(rlimitData, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			fatal("limit: %v", err)
		}
	}
	p, err := os.StartProcess(args[2], args[2:], &os.ProcAttr{Files: []*os.File{os.Stdin, os.Stdout, os.Stderr}})
	if err != nil {
		fatal("%v", err)
	}
	st, err := p.Wait()
	if err != nil {
		fatal("%v", err)
	}
	ru := st.SysUsage().(*syscall.Rusage)
	ws := st.Sys().(syscall.WaitStatus)
	sig := 0
	if ws.Signaled() {
		sig = int(ws.Signal())
	}
	os.WriteFile(args[1], []byte(fmt.Sprint(ru.Maxrss*1024, sig, ru.Utime.Nano()+ru.Stime.Nano())), 0o644)
	os.Exit(max(st.ExitCode(), 0))
}

const rlimitData = 2

// memory the tool may use for a dump and report of that many bytes. Go
// reserves and grows in large steps.
func allowance(n int) uint64 { return 256<<20 + 64*uint64(n) }

func (k *Case) limited(n int, timeout time.Duration, args ...string) *cli.Result {
	return k.measured(allowance(n), timeout, args...)
}

// measured runs the tool with a limit of memory (0: none) and the peak of its
// own memory.
func (k *Case) measured(limit uint64, timeout time.Duration, args ...string) *cli.Result {
	return k.measuredEnv(limit, timeout, nil, args...)
}

func (k *Case) measuredEnv(limit uint64, timeout time.Duration, env []string, args ...string) *cli.Result {
	if k.fast && len(env) == 0 {
		// totals tell little about the peak, but all of them are small
		return k.RunOpt(cli.Opt{Timeout: timeout, MaxOut: 256 << 20}, args...)
	}
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	k.used++
	used := k.Path(fmt.Sprint("used", k.used))
	r := k.RunOpt(cli.Opt{Timeout: timeout, Env: env, Wrap: []string{self, "limit", fmt.Sprint(limit), used}, Dir: filepath.Dir(argHprof(args)), MaxOut: 256 << 20}, args...)
	b, err := os.ReadFile(used)
	if err != nil && !r.TimedOut && r.Signal == 0 {
		fatal("limit: %v", r)
	}
	if err == nil {
		var sig, cpu int64
		fmt.Sscan(string(b), &r.MaxRSS, &sig, &cpu)
		r.Signal, r.CPU = syscall.Signal(sig), time.Duration(cpu)
	}
	os.Remove(used)
	return r
}

func argHprof(args []string) string {
	for i, a := range args {
		if a == "--hprof" {
			return args[i+1]
		}
	}
	return ""
}

// ended checks the ending of a run on any file.
func ended(r *cli.Result, n int) error {
	if i := strings.Index(r.Stdout, "(PANIC="); i >= 0 { // caught by fmt
		return fmt.Errorf("a panic: %q", cut(r.Stdout[i:], 300))
	}
	if c := r.Crash(); c != "" {
		return fmt.Errorf("%s", c)
	}
	switch r.Exit {
	case 0:
		if cli.LooksLikeReport(r.Stdout) == "" && !(r.Args[0] == "threads") {
			return fmt.Errorf("status 0 without a report: %q", cut(r.Stdout, 200))
		}
	case 1:
		if err := r.Refused(); err != nil {
			return err
		}
	default:
		return fmt.Errorf("exit status %d: %q %q", r.Exit, cut(r.Stdout, 300), cut(r.Stderr, 300))
	}
	if lim := uint64(32<<20 + 64*n + 32*len(r.Stdout)); r.Alloc > lim {
		return fmt.Errorf("allocated %d MiB in all for a file of %d bytes and an output of %d bytes", r.Alloc>>20, n, len(r.Stdout))
	}
	if r.MaxRSS > 64<<20+48*int64(n)+16*int64(len(r.Stdout)) {
		return fmt.Errorf("used %d MiB of memory for a file of %d bytes and an output of %d bytes", r.MaxRSS>>20, n, len(r.Stdout))
	}
	return nil
}

// anyArgs is a random command.
func anyArgs(r *hp.Rng, dump string) []string {
	v := full[r.N(len(full))]
	a := []string{v[0], "--hprof", dump, "--non-interactive"}
	a = append(a, v[1:]...)
	if r.P(70) {
		a = append(a, "--no-color")
	}
	if r.P(30) {
		a = append(a, "--output", "html")
	}
	return a
}

var extreme = []uint64{0, 1, 2, 3, 4, 7, 8, 9, 31, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x3fffffff, 0x40000000, 0x7ffffff0, 0x7fffffff,
	0x80000000, 0x80000001, 0xfffffff0, 0xfffffffe, 0xffffffff, 1 << 32, 1<<32 + 1, 1 << 40, 1 << 62, math.MaxInt64, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}

var badNames = []string{"", "(", ")", "L", "[", ";", "L;", "[[[[", "(L", "(Lx", "()", "(I", "(I)", ")(", "))", "((((", "(L;)L;", "(;)", "[;", "V", "(V)V", "LL", "[L", "[Lx", "(((I)))", "I)", ")I",
	"\x00", "\xff\xfe", "\xed\xa0\x80", "java/lang/Thread", "java/lang/String", "java/util/Properties", "java/lang/System", "sun/management/ManagementFactoryHelper", "name", "value", "props", "table", "next", "key", "val", "map", "coder", "daemon", "tid", "threadStatus", "priority", "runtimeMBean", "vmStartupTime", "first", "java/util/concurrent/ConcurrentHashMap$TreeBin", "%s%d%n%x", strings.Repeat("[", 3000), strings.Repeat("[I", 2000), "(" + strings.Repeat("Lx;", 1000) + ")", strings.Repeat("L", 5000), strings.Repeat(")", 400), "(" + strings.Repeat("[", 900) + "I)" + strings.Repeat("[", 900) + "V"}

// idAt collects the places of identifiers that the format knows, and all
// identifiers there.
type mut struct {
	r    *hp.Rng
	m    *ref.Model
	d    []byte
	ids  []uint64
	what []string
	hot  *hot
}

func newMut(r *hp.Rng, m *ref.Model, data []byte) *mut {
	x := &mut{r: r, m: m, d: append([]byte{}, data...)}
	for id := range m.Class {
		x.ids = append(x.ids, uint64(id))
	}
	for _, o := range m.Subs {
		if o.Tag >= 0x20 {
			x.ids = append(x.ids, x.id(o.Off+1))
		}
	}
	for _, s := range m.Strs {
		x.ids = append(x.ids, uint64(s.ID))
	}
	for _, s := range m.Frames {
		x.ids = append(x.ids, uint64(s.ID))
	}
	for i := range x.ids { // the order of a map must not matter
		for j := i; j > 0 && x.ids[j] < x.ids[j-1]; j-- {
			x.ids[j], x.ids[j-1] = x.ids[j-1], x.ids[j]
		}
		if i > 400 {
			x.ids = x.ids[:i]
			break
		}
	}
	return x
}

func (x *mut) id(at int) uint64 {
	if x.m.IDSize == 4 {
		return uint64(binary.BigEndian.Uint32(x.d[at:]))
	}
	return binary.BigEndian.Uint64(x.d[at:])
}

func (x *mut) put(at, width int, v uint64) {
	for i := 0; i < width && at+i < len(x.d); i++ {
		x.d[at+i] = byte(v >> (8 * (width - 1 - i)))
	}
}

func (x *mut) note(f string, a ...any) { x.what = append(x.what, fmt.Sprintf(f, a...)) }

// spot is one value of the dump.
type spot struct {
	at, width int
	refers    bool
	name      string
}

// hot are the places that the reports read: fields of the objects behind
// threads and properties, elements of tables, statics, superclasses, types of
// fields.
type hot struct {
	vals   []spot // in instances, arrays, statics
	types  []spot // type codes
	supers []spot
	same   map[string][]uint64 // objects by class
	all    []uint64
	class  []uint64
	chain  map[uint64][]uint64 // class and its superclasses
	super  map[uint64]spot
}

func hotClass(n string) bool {
	for _, p := range []string{"java/lang/Thread", "java/lang/String", "java/lang/System", "java/util/Properties", "java/util/concurrent/ConcurrentHashMap", "sun/management/"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func findHot(m *ref.Model, data []byte) *hot {
	h := &hot{same: map[string][]uint64{}, chain: map[uint64][]uint64{}, super: map[uint64]spot{}}
	id := m.IDSize
	is := map[uint64]bool{}
	name := map[uint64]string{}
	for _, l := range m.Loads {
		name[l.Class] = m.Str[l.Name]
	}
	for _, c := range m.Dumps {
		var ch []uint64
		for d := c; d != nil; d = m.Class[d.Super] {
			ch = append(ch, d.ID)
			is[c.ID] = is[c.ID] || hotClass(name[d.ID])
		}
		h.chain[c.ID] = ch
		if is[c.ID] {
			h.class = append(h.class, c.ID)
		}
	}
	for _, s := range m.Subs {
		if s.Tag != 0x20 {
			continue
		}
		// the class again, with the places
		x := &mut{m: m, d: data}
		cid := x.id(s.Off + 1)
		c := m.Class[cid]
		h.super[cid] = spot{s.Off + 1 + id + 4, id, true, "superclass of " + name[cid]}
		if !is[cid] || c == nil {
			continue
		}
		h.supers = append(h.supers, h.super[cid])
		at := s.Off + 1 + 7*id + 4 + 4 + 2
		for _, k := range c.Consts {
			at += 3 + ref.Width(k.V.T, id)
		}
		at += 2
		for _, k := range c.Statics {
			n := name[cid] + "." + m.Str[k.Name]
			h.types = append(h.types, spot{at + id, 1, false, "type of " + n})
			at += id + 1
			h.vals = append(h.vals, spot{at, ref.Width(k.V.T, id), k.V.T == 2, n})
			at += ref.Width(k.V.T, id)
		}
		at += 2
		for _, k := range c.Fields {
			h.types = append(h.types, spot{at + id, 1, false, "type of " + name[cid] + "." + m.Str[k.Name]})
			at += id + 1
		}
	}
	for _, o := range m.Objs {
		switch o.Kind {
		case 'i':
			if !is[o.Class] {
				continue
			}
			at := o.Off + 2*id + 8
			for _, cid := range h.chain[o.Class] {
				for _, f := range m.Class[cid].Fields {
					h.vals = append(h.vals, spot{at, ref.Width(f.T, id), f.T == 2, fmt.Sprintf("%s.%s of %#x", name[cid], m.Str[f.Name], o.ID)})
					at += ref.Width(f.T, id)
				}
			}
			h.same[name[o.Class]] = append(h.same[name[o.Class]], o.ID)
			h.all = append(h.all, o.ID)
		case 'o':
			if !strings.Contains(name[o.Class], "ConcurrentHashMap") {
				continue
			}
			h.vals = append(h.vals, spot{o.Off + id + 4, 4, false, "length of the table"})
			for i := 0; i < int(o.N); i++ {
				h.vals = append(h.vals, spot{o.Off + 2*id + 8 + i*id, id, true, fmt.Sprint("bin ", i)})
			}
			h.all = append(h.all, o.ID)
		case 'p':
			if o.T != 8 {
				continue
			}
			h.types = append(h.types, spot{o.Off + id + 8, 1, false, fmt.Sprintf("type of elements of %#x", o.ID)})
			h.all = append(h.all, o.ID)
		}
	}
	return h
}

// inHot changes a place that matters.
func (x *mut) inHot() {
	r, h := x.r, x.hot
	var s spot
	var v uint64
	switch k := r.N(10); {
	case k == 0 && len(h.types) > 0:
		s = h.types[r.N(len(h.types))]
		v = uint64(hp.Pick(r, 2, 4, 5, 6, 7, 8, 9, 10, 11, 8, 2, r.N(256)))
	case k == 1 && len(h.class) > 0:
		// a class of the chain becomes a subclass of one below it, at any
		// distance
		best := h.class[r.N(len(h.class))]
		for i := 0; i < 20; i++ {
			if c := h.class[r.N(len(h.class))]; len(h.chain[c]) > len(h.chain[best]) && r.P(60) {
				best = c
			}
		}
		ch := h.chain[best]
		at := r.N(len(ch))
		s = h.super[ch[at]]
		v = ch[r.N(at+1)]
	case k == 2 && len(h.supers) > 0:
		s = h.supers[r.N(len(h.supers))]
		v = x.oneID()
	case len(h.vals) > 0:
		// not mostly the fields of strings, and reports read some only
		s = h.vals[r.N(len(h.vals))]
		for i := 0; i < 30 && r.P(90); i++ {
			use := strings.Contains(s.name, "Node.") || strings.Contains(s.name, "TreeBin") || strings.Contains(s.name, "bin ") || strings.Contains(s.name, "coder") || strings.Contains(s.name, "value") || strings.Contains(s.name, "System") || strings.Contains(s.name, "FieldHolder") || strings.Contains(s.name, "Thread.")
			if use {
				break
			}
			s = h.vals[r.N(len(h.vals))]
		}
		switch {
		case !s.refers:
			v = hp.Pick(r, 0, 1, 1, 2, 3, 0xff, extreme[r.N(len(extreme))], ^uint64(0), 1<<(8*s.width-1), r.Uint64())
		case r.P(15):
			v = 0
		case r.P(30):
			v = x.oneID()
		case r.P(60):
			// what others refer to there, so that lists become cycles
			base, _, _ := strings.Cut(s.name, " of ")
			for i := 0; i < 50; i++ {
				o := h.vals[r.N(len(h.vals))]
				if b, _, _ := strings.Cut(o.name, " of "); o.refers && (b == base || strings.HasSuffix(o.name, "Node.next") && strings.HasPrefix(s.name, "bin")) {
					v = x.id(o.at)
				}
			}
			if r.P(40) { // itself
				if _, of, ok := strings.Cut(s.name, " of "); ok {
					fmt.Sscanf(of, "0x%x", &v)
				}
			}
		default:
			if len(h.all) > 0 {
				v = h.all[r.N(len(h.all))]
			}
		}
	default:
		return
	}
	x.put(s.at, s.width, v)
	x.note("%s = %#x", s.name, v)
}

func (x *mut) anyRec() ref.Rec {
	if x.r.P(60) && len(x.m.Subs) > 0 {
		return x.m.Subs[x.r.N(len(x.m.Subs))]
	}
	return x.m.Top[x.r.N(len(x.m.Top))]
}

func (x *mut) oneID() uint64 {
	if x.r.P(10) || len(x.ids) == 0 {
		return extreme[x.r.N(len(extreme))]
	}
	return x.ids[x.r.N(len(x.ids))]
}

// inPlace changes something without moving anything.
func (x *mut) inPlace() {
	r := x.r
	end := x.m.End
	switch r.N(8) {
	case 0: // bytes
		for i := r.Range(1, 4); i > 0; i-- {
			at := r.N(end)
			x.d[at] = byte(hp.Pick(r, int(x.d[at])^1<<r.N(8), r.N(256), 0, 0xff))
			x.note("byte at %d", at)
		}
	case 1: // extreme number anywhere
		w := hp.Pick(r, 1, 2, 4, 8)
		at := r.N(end)
		v := extreme[r.N(len(extreme))]
		x.put(at, w, v)
		x.note("%d bytes at %d = %#x", w, at, v)
	case 2, 3: // a field of a record
		rc := x.anyRec()
		n := rc.End - rc.Off
		at := rc.Off + hp.Pick(r, 0, 1, 5, 9, 1+4*r.N(8), 1+x.m.IDSize*r.N(8), 1+x.m.IDSize+4, 1+2*x.m.IDSize+4, 9+4*r.N(6), 9+x.m.IDSize*r.N(5))
		if at >= rc.Off+n {
			at = rc.Off + r.N(n)
		}
		w := hp.Pick(r, 1, 2, 4, 4, x.m.IDSize)
		v := extreme[r.N(len(extreme))]
		if r.P(40) {
			w, v = x.m.IDSize, x.oneID()
		}
		x.put(at, w, v)
		x.note("record of kind %#x at %d: %d bytes at +%d = %#x", rc.Tag, rc.Off, w, at-rc.Off, v)
	case 4: // a class: counts, types, superclass
		for try := 0; try < 30; try++ {
			rc := x.anyRec()
			if rc.Tag != 0x20 {
				continue
			}
			id := x.m.IDSize
			at := rc.Off + 1 + id + 4
			switch r.N(4) {
			case 0: // superclass of any class
				v := x.oneID()
				x.put(at, id, v)
				x.note("superclass of class at %d = %#x", rc.Off, v)
			case 1: // instance size
				v := extreme[r.N(len(extreme))]
				x.put(at+6*id, 4, v)
				x.note("instance size of class at %d = %#x", rc.Off, v)
			case 2: // constant pool
				v := hp.Pick[uint64](r, 1, 2, 255, 65535)
				x.put(at+6*id+4, 2, v)
				x.note("constant pool of class at %d = %#x", rc.Off, v)
			case 3: // near the end: fields and their types
				o := rc.End - 1 - r.N(min(40, rc.End-rc.Off-1))
				x.d[o] = byte(r.N(16))
				x.note("byte %d of class at %d = %d", o-rc.Off, rc.Off, x.d[o])
			}
			return
		}
	case 5: // fields of instances, elements of arrays
		for try := 0; try < 30; try++ {
			rc := x.anyRec()
			if rc.Tag != 0x21 && rc.Tag != 0x22 {
				continue
			}
			h := rc.Off + 1 + 2*x.m.IDSize + 8
			if h >= rc.End {
				continue
			}
			at := h + r.N(rc.End-h)
			if r.P(50) {
				at = h + (at-h)/x.m.IDSize*x.m.IDSize
			}
			v := x.oneID()
			x.put(at, x.m.IDSize, v)
			x.note("reference at %d = %#x", at, v)
			return
		}
	case 6: // claimed sizes
		for try := 0; try < 30; try++ {
			rc := x.anyRec()
			id := x.m.IDSize
			at := 0
			switch rc.Tag {
			case 0x21:
				at = 1 + 2*id + 4
			case 0x22, 0x23:
				at = 1 + id + 4
			case 1, 2, 4, 5, 0x1c:
				at = 5
				if rc.Tag == 5 && r.P(60) {
					at = 9 + 8
				}
			default:
				continue
			}
			v := hp.Pick[uint64](r, 0, 1, uint64(r.N(100)), uint64(r.N(1<<20)), 1<<20, 1<<28, 1<<30, 1<<31-1, 1<<31, 1<<32-1, uint64(r.Uint32()))
			x.put(rc.Off+at, 4, v)
			x.note("size of record of kind %#x at %d = %#x", rc.Tag, rc.Off, v)
			return
		}
	case 7: // identifiers swapped
		a, b := x.anyRec(), x.anyRec()
		o := hp.Pick(r, 1, 9, 13)
		for i := 0; i < x.m.IDSize; i++ {
			if a.Off+o+i < len(x.d) && b.Off+o+i < len(x.d) {
				x.d[a.Off+o+i], x.d[b.Off+o+i] = x.d[b.Off+o+i], x.d[a.Off+o+i]
			}
		}
		x.note("%d bytes at +%d of records at %d and %d swapped", x.m.IDSize, o, a.Off, b.Off)
	}
}

// resize changes the layout once.
func (x *mut) resize(other []byte) {
	r := x.r
	top := x.m.Top[r.N(len(x.m.Top))]
	switch r.N(9) {
	case 0:
		n := r.N(len(x.d))
		x.d = x.d[:n]
		x.note("cut to %d", n)
	case 1: // doubled
		x.d = insert(x.d, top.End, x.d[top.Off:top.End])
		x.note("record at %d doubled", top.Off)
	case 2: // removed
		x.d = append(x.d[:top.Off:top.Off], x.d[top.End:]...)
		x.note("record at %d of kind %#x removed", top.Off, top.Tag)
	case 3: // garbage
		g := make([]byte, hp.Pick(r, 1, 4, 9, r.N(200)))
		r.Fill(g)
		at := hp.Pick(r, top.Off, r.N(len(x.d)))
		x.d = insert(x.d, at, g)
		x.note("%d bytes inserted at %d", len(g), at)
	case 4: // a piece of another dump
		a := r.N(len(other))
		b := a + r.N(min(len(other)-a, 4000))
		at := x.m.Bounds[r.N(len(x.m.Bounds))]
		x.d = insert(x.d, at, other[a:b])
		x.note("%d bytes of another dump inserted at %d", b-a, at)
	case 5, 6, 7: // names
		var ss []ref.Rec
		for _, t := range x.m.Top {
			if t.Tag == 1 {
				ss = append(ss, t)
			}
		}
		// from the end, so that the places stay right
		n := hp.Pick(r, 1, 1, 3, 20)
		for i := len(ss) - 1; i >= 0; i-- {
			if r.N(len(ss)) >= n {
				continue
			}
			s := badNames[r.N(len(badNames))]
			t := ss[i]
			body := t.Off + 9 + x.m.IDSize
			if r.P(20) {
				s = mangle(r, string(x.d[body:t.End]))
			}
			x.d = append(append(append([]byte{}, x.d[:body]...), s...), x.d[t.End:]...)
			x.put(t.Off+5, 4, uint64(x.m.IDSize+len(s)))
			x.note("string at %d = %q", t.Off, cut(s, 40))
		}
	case 8: // a sub-record removed or doubled
		if len(x.m.Subs) == 0 {
			return
		}
		s := x.m.Subs[r.N(len(x.m.Subs))]
		seg := x.m.Top[s.In]
		n := s.End - s.Off
		if r.P(50) {
			x.d = append(x.d[:s.Off:s.Off], x.d[s.End:]...)
			n = -n
		} else {
			x.d = insert(x.d, s.End, x.d[s.Off:s.End])
		}
		x.put(seg.Off+5, 4, uint64(seg.End-seg.Off-9+n))
		x.note("sub-record at %d of kind %#x: %+d bytes", s.Off, s.Tag, n)
	}
}

func mangle(r *hp.Rng, s string) string {
	b := []byte(s)
	for i := r.Range(1, 4); i > 0; i-- {
		c := "()[];LVI/\x00\xffZ"[r.N(12)]
		at := r.N(len(b) + 1)
		if r.P(50) || len(b) == 0 || at == len(b) {
			b = append(b[:at:at], append([]byte{c}, b[at:]...)...)
		} else {
			b[at] = c
		}
	}
	return string(b)
}

// survive runs commands on any bytes.
func (k *Case) survive(data []byte, what string, runs int) bool {
	k.files["d.hprof"] = data
	dump := k.place("d", data)
	for i := 0; i < runs; i++ {
		args := anyArgs(k.R, dump)
		r := k.limited(len(data), 60*time.Second, args...)
		if err := ended(r, len(data)); err != nil {
			k.Fail("%s (%d bytes): %q: %v", what, len(data), args, err)
			return false
		}
		k.Obs(fmt.Sprintf("runs that ended with status %d", r.Exit), 1)
		if r.Exit == 1 {
			k.Seen("kinds of error messages", kindOf(r.Stdout))
		}
		k.Max("resident memory, KiB", int(r.MaxRSS>>10))
	}
	os.RemoveAll(filepath.Dir(dump))
	return true
}

// kindOf an error message, without its numbers.
func kindOf(s string) string {
	var b strings.Builder
	for _, c := range cut(s, 400) {
		if c < 0x20 || c > 0x7e || (c >= '0' && c <= '9') {
			continue
		}
		b.WriteRune(c)
	}
	return cut(b.String(), 160)
}

func checkRobust(c *Ctx) {
	type base struct {
		d []byte
		m *ref.Model
		h *hot
	}
	var bases []base
	for i := 0; i < c.Pick(24, 120); i++ {
		r := hp.NewRng(c.Seed, "C18base", fmt.Sprint(i))
		o := small(r)
		if i%4 == 0 {
			o = hp.RandomOpts(r)
		}
		o.TreeBins = r.P(50)
		if i%4 == 1 { // none, one, or two
			o.FewProps, o.Props = true, i/4%3
		}
		_, x, m := Gen(c.Seed, fmt.Sprint("C18base", i), o, hp.RandomEnc(r, idSize(r)))
		bases = append(bases, base{x.Data, m, findHot(m, x.Data)})
	}
	ts := towers(c.Pick(10, 80))
	c.CasesFor("towers", len(ts), c.Pick(len(ts), 3*len(ts)), 0.5, func(k *Case) { ts[k.N%len(ts)].survives(k, k.N >= len(ts)) })
	lies := c.lies()
	c.CasesFor("lies", len(lies), len(lies), 0.5, func(k *Case) { lies[k.N](k) })
	// every field that matters takes every kind of value
	type change struct {
		b int
		s spot
		v uint64
	}
	var changes []change
	for bi, few := range []int{-1, 0, 1, 2}[:c.Pick(3, 4)] {
		r := hp.NewRng(c.Seed, "C18kinds", fmt.Sprint(bi))
		o := small(r)
		o.Objects, o.Threads = 4, 1
		o.TreeBins = bi == 0
		if few >= 0 {
			o.FewProps, o.Props = true, few
		}
		_, x, m := Gen(c.Seed, fmt.Sprint("C18kinds", bi), o, hp.RandomEnc(r, idSize(r)))
		h := findHot(m, x.Data)
		bases = append(bases, base{x.Data, m, h})
		count := map[string]int{}
		for _, s := range h.vals {
			n, of, _ := strings.Cut(s.name, " of ")
			if count[n]++; count[n] > 2 {
				continue
			}
			vs := []uint64{0, 1, 2, 1<<(8*s.width-1) - 1, 1 << (8*s.width - 1), ^uint64(0)}
			if s.refers {
				vs = []uint64{0, 1 << (8*s.width - 2)}
				var self uint64
				fmt.Sscanf(of, "0x%x", &self)
				vs = append(vs, self)
				kinds := map[string]bool{} // one object of each kind and class
				for _, ob := range m.Objs {
					if k := fmt.Sprint(ob.Kind, ob.Class, ob.T); !kinds[k] {
						kinds[k] = true
						vs = append(vs, ob.ID)
					}
				}
				for _, d := range m.Dumps[:min(3, len(m.Dumps))] {
					vs = append(vs, d.ID)
				}
			}
			for _, v := range vs {
				changes = append(changes, change{len(bases) - 1, s, v})
			}
		}
	}
	// mixed, so that the first ones are of all sorts
	hp.NewRng(c.Seed, "C18kinds").Shuffle(len(changes), func(i, j int) { changes[i], changes[j] = changes[j], changes[i] })
	c.CasesFor("kinds", len(changes), len(changes), 0.5, func(k *Case) {
		ch := changes[k.N]
		b := bases[ch.b]
		x := newMut(k.R, b.m, b.d)
		x.put(ch.s.at, ch.s.width, ch.v)
		dump := k.place("d", x.d)
		k.files["d.hprof"] = x.d
		for _, v := range three[:2] {
			if err := ended(k.limited(len(x.d), 60*time.Second, vargs(v, dump)...), len(x.d)); err != nil {
				k.Fail("%s = %#x: %s: %v", ch.s.name, ch.v, vname(v), err)
				return
			}
		}
		os.RemoveAll(filepath.Dir(dump))
		k.Obs("fields changed to values of every kind", 1)
		k.Eval(string(x.d))
	})
	// the display: few, since each takes a second
	c.CasesFor("display", 16, c.Pick(16, 200), 0.5, func(k *Case) {
		b := bases[k.R.N(len(bases))]
		x := newMut(k.R, b.m, b.d)
		switch k.N {
		case 0:
			x.d = nil
		case 1:
			x.d = x.d[:19]
		case 2:
			x.d = x.d[:31]
		default:
			x.inPlace()
		}
		k.files["d.hprof"] = x.d
		dump := k.place("d", x.d)
		v := full[k.R.N(len(full))]
		r := k.limited(len(x.d), 60*time.Second, append([]string{v[0], "--hprof", dump}, v[1:]...)...)
		if err := ended(r, len(x.d)); err != nil {
			k.Fail("%s with the display: %v: %v", v, x.what, err)
			return
		}
		k.Eval("display" + string(x.d))
	})
	c.CasesFor("fuzz", 2000, c.Pick(10000000, 100000000), 1, func(k *Case) {
		r := k.R
		if r.P(3) { // no dump at all
			n := hp.Pick(r, 0, 1, 18, 19, 20, 23, 30, 31, 32, 40, r.N(3000))
			d := make([]byte, n)
			r.Fill(d)
			if r.P(50) {
				copy(d, "JAVA PROFILE 1.0.2\x00\x00\x00\x00\x08")
			}
			if r.P(20) {
				d = bytes.Repeat([]byte{byte(r.N(256))}, n)
			}
			if k.survive(d, "random file", 2) {
				k.Eval("")
			}
			return
		}
		b := bases[r.N(len(bases))]
		x := newMut(r, b.m, b.d)
		x.hot = b.h
		for i := hp.Pick(r, 0, 1, 1, 1, 2, 4); i > 0; i-- {
			if r.P(45) {
				x.inHot()
			} else {
				x.inPlace()
			}
		}
		if len(x.what) == 0 || r.P(30) {
			x.resize(bases[r.N(len(bases))].d)
		}
		if k.survive(x.d, strings.Join(x.what, ", "), hp.Pick(r, 1, 2, 3)) {
			key := string(x.d)
			if len(x.d) < 31 {
				key = ""
			}
			k.Eval(key)
			if k.N < 3 {
				k.Sample(x.what)
			}
		}
	})
}

// lies claim huge things in small files.
func (c *Ctx) lies() (out []func(k *Case)) {
	for _, id := range []int{4, 8} {
		for _, v := range []uint32{1 << 20, 1 << 24, 1 << 28, 1<<30 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 9} {
			for what := 0; what < 10; what++ {
				out = append(out, func(k *Case) {
					o := small(k.R)
					_, x, m := Gen(k.Seed, fmt.Sprint("C18lies", k.N), o, hp.RandomEnc(k.R, id))
					mu := newMut(k.R, m, x.Data)
					tags := []byte{1, 0x1c, 5, 5, 0x21, 0x22, 0x23, 0x20, 4, 2}
					offs := []int{5, 5, 5, 17, 1 + 2*id + 4, 1 + id + 4, 1 + id + 4, 1 + 7*id + 4 + 4, 5, 5}
					tag, off := tags[what], offs[what]
					var recs []ref.Rec
					for _, t := range append(append([]ref.Rec{}, m.Top...), m.Subs...) {
						if t.Tag == tag && (tag >= 0x20 || t.In == 0) {
							recs = append(recs, t)
						}
					}
					if len(recs) == 0 {
						return
					}
					t := recs[k.R.N(len(recs))]
					w := 4
					if tag == 0x20 {
						w = 2
						v |= 0xffff
					}
					mu.put(t.Off+off, w, uint64(v))
					cutAt := ""
					if k.R.P(30) { // the file ends soon after
						mu.d = mu.d[:min(len(mu.d), t.Off+off+w+k.R.N(40))]
						cutAt = ", file cut"
					}
					if k.survive(mu.d, fmt.Sprintf("record of kind %#x at %d claims %#x%s", tag, t.Off, v, cutAt), 3) {
						k.Obs("claims of sizes that are not there", 1)
						k.Eval(string(mu.d))
					}
				})
			}
		}
	}
	return
}

// tower is a well-formed dump that is extreme in one dimension.
type tower struct {
	name  string
	opts  hp.Opts
	build func(g *hp.G, r *hp.Rng)
}

func (t tower) make(k *Case, random bool) ([]byte, *ref.Model) {
	o := t.opts
	if o.Threads == 0 {
		o.Threads = 2
	}
	o.Props = max(o.Props, 3)
	e := hp.DefaultEnc(idSize(k.R))
	if random {
		e = hp.RandomEnc(k.R, e.IDSize)
	}
	g := hp.Gen(k.Seed, fmt.Sprint("C18", t.name, k.N), o)
	t.build(g, k.R)
	_, x, m := encode(g, e)
	k.files[t.name+".hprof"] = x.Data
	return x.Data, m
}

// overTowers checks the reports of towers (quick ones are small).
func (c *Ctx) overTowers(vs [][]string, names ...string) {
	all := towers(c.Pick(1, 20))
	var ts []tower
	for _, t := range all {
		for _, n := range names {
			if t.name == n {
				ts = append(ts, t)
			}
		}
	}
	if len(ts) != len(names) {
		panic("unknown tower")
	}
	c.CasesFor("towers", len(ts), c.Pick(len(ts), 4*len(ts)), 0.3, func(k *Case) {
		t := ts[k.N%len(ts)]
		data, m := t.make(k, k.N >= len(ts))
		dump := k.place("d", data)
		for _, v := range vs {
			r := k.RunOpt(cli.Opt{Timeout: 150 * time.Second, MaxOut: 256 << 20}, vargs(v, dump)...)
			if r.Exit != 0 || r.Crash() != "" {
				k.Fail("%s failed on a well-formed dump with many or large %s: %v", vname(v), t.name, r)
				return
			}
			if err := Oracle(v, r.Stdout, m); err != nil {
				k.Fail("%s of a dump with many or large %s: %v", vname(v), t.name, err)
				return
			}
		}
		k.Obs("towers (dumps extreme in one dimension) compared", 1)
		k.Seen("towers", t.name)
		k.Eval(fmt.Sprint("tower", t.name, k.N))
		os.RemoveAll(filepath.Dir(dump))
	})
}

// survives runs all on a tower.
func (t tower) survives(k *Case, random bool) {
	data, _ := t.make(k, random)
	dump := k.place("d", data)
	for _, v := range three {
		for _, o := range []string{"plain", "html"} {
			args := append(vargs(v, dump), "--output", o)
			r := k.measured(6<<30, 150*time.Second, args...)
			if err := ended(r, len(data)); err != nil {
				k.Fail("dump with many or large %s (%d bytes): %q: %v", t.name, len(data), args, err)
				return
			}
			k.Obs(fmt.Sprintf("runs on towers that ended with status %d", r.Exit), 1)
			k.Max("seconds of CPU for a tower of "+t.name, int(r.CPU.Seconds()+0.5))
			k.Max("MiB for a tower of "+t.name, int(r.MaxRSS>>20))
		}
	}
	k.Obs("towers", 1)
	k.Seen("towers", t.name)
	k.Eval(fmt.Sprint(t.name, k.N))
	os.RemoveAll(filepath.Dir(dump))
}

// towers of a size; 10 are some 100,000 steps.
func towers(scale int) (out []tower) {
	add := func(name string, o hp.Opts, f func(g *hp.G, r *hp.Rng)) { out = append(out, tower{name, o, f}) }
	small := hp.Opts{Classes: 1, Objects: 3, MaxDepth: 2, Locals: 1}
	add("superclasses", small, func(g *hp.G, r *hp.Rng) {
		t := g.Class("java/lang/Thread")
		top := g.Class("java/lang/Object")
		for i := 0; i < 60000*scale/10; i++ {
			top = g.AddClass(fmt.Sprint("c/C", i), top, 8)
		}
		// below Object, above Thread
		t.Super = top
	})
	add("subclasses of Thread", small, func(g *hp.G, r *hp.Rng) {
		c := g.Class("java/lang/Thread")
		for i := 0; i < 30000*scale/10; i++ {
			c = g.AddClass(fmt.Sprint("t/T", i), c, 8)
		}
		for _, x := range g.Insts {
			if x.Cls.Name == "java/lang/Thread" {
				x.Cls = c
			}
		}
	})
	add("frames", small, func(g *hp.G, r *hp.Rng) {
		f := &hp.Frame{Method: "recurse", Sig: "()V", File: "R.java", Cls: g.Class("java/lang/Object"), Line: 7}
		g.Frames = append(g.Frames, f)
		for _, t := range g.Traces {
			if t.Thread == 1 {
				n := max(70000, 150000*scale/10) // positions of more than 16 bits
				for i := 0; i < n; i++ {
					t.Frames = append(t.Frames, f)
				}
				for i := 0; i < 200; i++ {
					g.Roots = append(g.Roots, &hp.Root{Kind: hp.Pick[byte](r, hp.RJniLocal, hp.RJavaFrame), Obj: g.Insts[r.N(len(g.Insts))].H, Thread: 1, Frame: int32(hp.Pick(r, r.N(n), r.N(600), 255, 256, 257, 65535, 65536, 65537, n-1, n, -1))})
				}
			}
		}
	})
	add("signatures", small, func(g *hp.G, r *hp.Rng) {
		n := 200000 * scale
		for _, s := range []string{"(" + strings.Repeat("Lx;", n) + ")V", "([" + strings.Repeat("I[", n/4) + "I)V", "(" + strings.Repeat("B", n) + ")Lx;", "(" + "L" + strings.Repeat("a/", n) + "b;)V"} {
			f := &hp.Frame{Method: "m", Sig: s, File: "R.java", Cls: g.Class("java/lang/Object"), Line: 7}
			g.Frames = append(g.Frames, f)
			for _, t := range g.Traces {
				if t.Thread == 1 {
					t.Frames = append(t.Frames, f)
				}
			}
		}
	})
	add("texts", small, func(g *hp.G, r *hp.Rng) {
		long := strings.Repeat("a long text ", 100000*scale/10)
		for _, p := range g.Insts {
			if p.Cls.Name == "java/lang/Thread" {
				h := g.JString(long)
				p.Set("java/lang/Thread", "name", hp.Obj(h))
				break
			}
		}
		g.Extra = append(g.Extra, long)
	})
	add("threads", hp.Opts{Classes: 1, Objects: 3, Threads: 150, MaxDepth: 3, Locals: 3}, func(g *hp.G, r *hp.Rng) {})
	add("classes", small, func(g *hp.G, r *hp.Rng) {
		for i := 0; i < 15000*scale/10; i++ {
			c := g.AddClass(fmt.Sprint("many/C", i), g.Class("java/lang/Object"), int32(i))
			g.NewInst(c)
		}
	})
	add("fields", small, func(g *hp.G, r *hp.Rng) {
		c := g.AddClass("wide/C", g.Class("java/lang/Object"), 8)
		for i := 0; i < min(65535, 6000*scale); i++ {
			c.Fields = append(c.Fields, hp.Field{Name: fmt.Sprint("f", i), T: hp.TByte})
			c.Statics = append(c.Statics, hp.Static{Name: fmt.Sprint("s", i%100), V: hp.Byte(1)})
			c.Consts = append(c.Consts, hp.Const{Idx: uint16(i), V: hp.Int(int32(i))})
		}
		g.NewInst(c)
	})
	add("empty bins", small, func(g *hp.G, r *hp.Rng) {
		for _, a := range g.ObjArrs {
			if strings.HasSuffix(a.Cls.Name, "ConcurrentHashMap$Node;") {
				a.Elems = append(a.Elems, make([]hp.H, 300000*scale/10)...)
			}
		}
	})
	add("locals", small, func(g *hp.G, r *hp.Rng) {
		for i := 0; i < 30000*scale/10; i++ {
			g.Roots = append(g.Roots, &hp.Root{Kind: hp.Pick[byte](r, hp.RJniLocal, hp.RJavaFrame), Obj: g.Insts[r.N(len(g.Insts))].H, Thread: 1, Frame: int32(r.N(2))})
		}
	})
	add("roots", small, func(g *hp.G, r *hp.Rng) {
		for i := 0; i < 60000*scale/10; i++ {
			g.Roots = append(g.Roots, &hp.Root{Kind: hp.Pick[byte](r, hp.RSticky, hp.RJniGlobal, hp.RUnknown, hp.RMonitor, hp.RNativeStack), Obj: 1, Thread: 1})
		}
	})
	add("strings", small, func(g *hp.G, r *hp.Rng) {
		for i := 0; i < 60000*scale/10; i++ {
			g.Extra = append(g.Extra, fmt.Sprint("unused", i))
		}
	})
	add("properties", hp.Opts{Classes: 1, Objects: 3, Props: 1500 * scale, Chains: true, TreeBins: true}, func(g *hp.G, r *hp.Rng) {})
	add("keys of properties", small, func(g *hp.G, r *hp.Rng) {
		kvs := [][2]string{{"java.version", "11"}, {"os.name", "Linux"}, {"", "none"}}
		for i, n := range []int{0, 10, 50, 100, 300, 1000, 3000 * scale} {
			kvs = append(kvs, [2]string{strings.Repeat(hp.Pick(r, "日", "é", "😀", "日本語 é"), n) + fmt.Sprint(i), strings.Repeat("値", n)})
		}
		properties(g, kvs)
	})
	return
}
