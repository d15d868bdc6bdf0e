package hp

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"unicode/utf16"
)

// Opts steer the generator. Zero values are small and plain.
type Opts struct {
	NoJVM      bool // no java.lang.System & co., only `objects` works
	Names      int  // 0 plain, 1 anything the JVM allows, 2 markup and escape sequences too
	Texts      int  // 0 plain ASCII, 1 any text without control characters, 2 markup, escapes
	Classes    int  // extra classes
	Objects    int  // extra objects
	Threads    int  // -1: none
	MaxDepth   int  // frames per thread
	Props      int  // system properties
	Locals     int  // local roots per thread (average)
	Shadow     bool // Thread subclasses with fields of the same names
	NoCompact  bool // all strings are UTF-16
	SameNames  bool // classes of the same name
	OtherRoots bool
	ZeroSizes  bool // many classes of size 0
	TreeBins   bool
	Chains     bool
	FewProps   bool                         // only Props properties, without those of every JVM
	TextFn     func(r *Rng, max int) string // replaces the texts of Java strings
}

// RandomOpts picks a world of modest size.
func RandomOpts(r *Rng) Opts {
	return Opts{
		Names: r.N(2), Texts: r.N(2), Classes: r.N(12), Objects: r.N(120), Threads: r.N(6), MaxDepth: Pick(r, 0, 3, 12),
		Props: Pick(r, 0, 3, 25, 60), Locals: Pick(r, 0, 2, 6), Shadow: r.P(40), NoCompact: r.P(20), SameNames: r.P(30),
		OtherRoots: r.P(60), ZeroSizes: r.P(10), TreeBins: r.P(40), Chains: r.P(80),
	}
}

// G is a generator with its world.
type G struct {
	*World
	R *Rng
	O Opts

	object, str, thread *Class
	strFields           []Field
	byteArr             *Class
	arrays              []*Class // object array classes
	primArrCls          []*Class
	plain               []*Class // classes for random instances
	pool                []H      // things to refer to
	seen                map[string]int
	strings             map[string][]sharedString
	Props               map[string]string // what java.lang.System holds
	Start               int64             // JVM start time
	Hostile             []string          // payload strings that were placed
	Map                 func(string) string
	Slots               int // of tables of properties, 0: what a JVM might have
}

var plainSeg = []string{"com", "acme", "L", "LL", "Lang", "I", "B", "V", "Z", "J", "java", "util", "io", "net", "x", "core"}
var plainName = []string{"Foo", "Bar$1", "Bar$Inner$2", "L", "Lx", "I", "V", "Long", "Loader", "$", "_q", "List", "ALL", "Node", "Foo$$Lambda$14+0x0000000080003530", "Foo$$Lambda$14/0x0000000800c03440", "Main", "Worker", "Cache", "DLL"}
var oddName = []string{"a(b)c", "(", ")", "été", "日本語", "x y", "class", "a|b", "a:b", "b\"q", "a'b", "a&b", "a<b", "(LI)V", "ID=7", "B]", "-", "% d", "\\n", "{}", "α$β", "L(", ")L", "class x"}

// HtmlPayloads try to break out of text.
var HtmlPayloads = []string{
	"<script>alert(1)</script>", "</td><td>", "</p><p class=\"two\">", "<!--", "-->", "<b>", "&lt;b&gt;", "&amp;", "\"><img src=x>", "' onload='x",
	"</style><script>", "</table>", "]]>", "<![CDATA[", "<svg/onload=1>", "{{.Title}}", "&#60;b&#62;", "</title>", "<plaintext>", "javascript:alert(1)", "&", "<", ">", "\"", "'", "`", "%3Cb%3E",
	"</span><span class=\"ret\">", "</div>", "<textarea>",
}

func (g *G) ident(seg, name []string) string {
	var b strings.Builder
	n := g.R.N(4)
	if g.R.P(4) {
		n = g.R.Range(4, 14)
	}
	for ; n > 0; n-- {
		b.WriteString(seg[g.R.N(len(seg))])
		b.WriteByte('/')
	}
	b.WriteString(name[g.R.N(len(name))])
	if g.R.P(4) { // long ones
		b.WriteString(strings.Repeat(Pick(g.R, "Factory", "$Impl", "Bean_", "Q"), g.R.Range(4, 60)))
	}
	return b.String()
}

// htmlName is a payload that may be a class, method or file name.
func (g *G) payload(name bool) string {
	p := HtmlPayloads[g.R.N(len(HtmlPayloads))]
	if name {
		p = strings.NewReplacer(";", ",", "[", "(", ".", ",").Replace(p)
	}
	g.Hostile = append(g.Hostile, p)
	if g.Map != nil {
		p = g.Map(p)
	}
	return p
}

// names the reports look for
var knownName = []string{"java/lang/Thread", "java/lang/System", "java/util/Properties", "java/lang/String", "java/lang/Object", "java/lang/Class", "sun/management/ManagementFactoryHelper", "sun/management/RuntimeImpl",
	"java/util/concurrent/ConcurrentHashMap", "java/util/concurrent/ConcurrentHashMap$TreeBin", "java/util/concurrent/ConcurrentHashMap$Node"}

// alike is another name, similar to n.
func (g *G) alike(n string) string {
	i := strings.LastIndexByte(n, '/') + 1
	return Pick(g.R, "shaded/"+n, "x"+n, "x$"+n, n+"X", n+"$1", n+"$Inner", n[i:], "javax/"+n[i:], strings.ToLower(n), n[:i]+strings.ToUpper(n[i:]), strings.ReplaceAll(n, "/", "_"), n[:len(n)-1], n+"/"+n[i:], n[:i]+"$"+n[i:])
}

// ClassName makes a fresh class name.
func (g *G) ClassName() string {
	var s string
	switch {
	case g.O.Names >= 2 && g.R.P(60):
		s = g.ident(plainSeg, plainName) + g.payload(true)
		s = strings.TrimSuffix(s, "/")
	case g.R.P(6):
		s = g.alike(knownName[g.R.N(len(knownName))])
	case g.O.Names >= 1 && g.R.P(50):
		s = g.ident(append(oddName[:len(oddName):len(oddName)], plainSeg...), oddName)
	default:
		s = g.ident(plainSeg, plainName)
	}
	if n := g.seen[s]; n > 0 {
		g.seen[s]++
		return fmt.Sprintf("%s%d", s, n)
	}
	g.seen[s] = 1
	return s
}

// Word is a method, field or file name.
func (g *G) Word() string {
	if g.O.Names >= 2 && g.R.P(50) {
		return g.payload(true)
	}
	if g.O.Names >= 1 && g.R.P(30) {
		return oddName[g.R.N(len(oddName))]
	}
	return Pick(g.R, "run", "main", "<init>", "<clinit>", "lambda$main$0", "get", "L", "I", "value", "access$000", "f", "next", "name", "size")
}

func (g *G) fileName() string {
	if g.O.Names >= 2 && g.R.P(50) {
		return g.payload(true)
	}
	return Pick(g.R, "Main.java", "Foo.kt", "Thread.java", "A.scala", "<generated>", "Unknown Source", "x y.java", "日本.java", "NativeMethod", "-1")
}

// Text is the content of a Java string. It has no line breaks and no spaces around.
func (g *G) Text(maxLen int) string {
	if g.O.TextFn != nil {
		return g.O.TextFn(g.R, maxLen)
	}
	if g.O.Texts >= 2 && g.R.P(60) {
		return g.payload(false) + Pick(g.R, "", "x", g.payload(false))
	}
	n := g.R.N(maxLen + 1)
	var b strings.Builder
	mode := 0
	if g.O.Texts >= 1 {
		mode = g.R.N(4)
	}
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			b.WriteByte(byte(Pick(g.R, g.R.Range('a', 'z'), g.R.Range('0', '9'), g.R.Range(0x21, 0x7e), ' ')))
		case 1:
			b.WriteRune(rune(Pick(g.R, g.R.Range(0xa1, 0xff), g.R.Range('a', 'z'))))
		case 2:
			b.WriteRune(rune(Pick(g.R, g.R.Range(0x4e00, 0x4fff), g.R.Range(0x400, 0x4ff), g.R.Range(0xa1, 0xff), 'q')))
		case 3:
			b.WriteRune(rune(Pick(g.R, g.R.Range(0x1f600, 0x1f64f), g.R.Range(0x10000, 0x10ffff), 'z', 0xffe8, g.R.Range(0xe000, 0xf8ff))))
		}
	}
	s := strings.TrimSpace(b.String())
	if n > 0 && s == "" {
		return "t"
	}
	return s
}

// Latin1 reports whether s fits coder 0.
func Latin1(s string) bool {
	for _, c := range s {
		if c > 0xff {
			return false
		}
	}
	return true
}

// EncodeJava returns the bytes and the coder of a java.lang.String.
func EncodeJava(s string, compact bool) ([]byte, int8) {
	if compact && Latin1(s) {
		var b []byte
		for _, c := range s {
			b = append(b, byte(c))
		}
		return b, 0
	}
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = binary.LittleEndian.AppendUint16(b, u)
	}
	return b, 1
}

type sharedString struct{ str, arr H }

// JString makes a java.lang.String; the array may precede or follow it. Equal texts may share
// the string or its array.
func (g *G) JString(s string) H {
	if x := g.strings[s]; len(x) > 0 && g.R.P(15) {
		return x[g.R.N(len(x))].str // interned
	}
	data, coder := EncodeJava(s, !g.O.NoCompact)
	var i *Inst
	if g.R.P(50) {
		i = g.NewInst(g.str)
		g.filler(1)
	}
	var a H
	if x := g.strings[s]; len(x) > 0 && g.R.P(15) {
		a = x[0].arr // the contents are shared by the collector (string deduplication)
	} else {
		a = g.NewPrimArr(TByte, data).H
	}
	if i == nil {
		g.filler(1)
		i = g.NewInst(g.str)
	}
	if g.strings == nil {
		g.strings = map[string][]sharedString{}
	}
	g.strings[s] = append(g.strings[s], sharedString{i.H, a})
	i.Set("", "value", Obj(a)).Set("", "coder", Byte(coder)).Set("", "hash", Int(int32(g.R.Uint32())))
	return i.H
}

// Val makes a random value, extreme ones included.
func (g *G) Val(t byte) Val {
	r := g.R
	switch t {
	case TObject:
		if len(g.pool) == 0 || r.P(20) {
			return Obj(0)
		}
		return Obj(g.pool[r.N(len(g.pool))])
	case TBool:
		return Bool(r.P(50))
	case TFloat:
		return Val{T: t, Bits: uint64(Pick(r, 0, 0x80000000, 0x7fc00001, 0x7f800000, 0xff800000, math.Float32bits(1.5), r.Uint32(), 1, 0x7f7fffff))}
	case TDouble:
		return Val{T: t, Bits: Pick(r, 0, 1<<63, 0x7ff8000000000001, 0x7ff0000000000000, 0xfff0000000000000, math.Float64bits(-2.25), r.Uint64(), 1)}
	}
	w := Width(t, 8) * 8
	m := uint64(1)<<w - 1
	if w == 64 {
		m = math.MaxUint64
	}
	return Val{T: t, Bits: Pick(r, 0, 1, m, m>>1, m>>1+1, r.Uint64()&m, uint64(r.N(300))&m)}
}

func (g *G) instSize() int32 {
	if g.O.ZeroSizes && g.R.P(70) {
		return 0
	}
	return int32(Pick(g.R, 8, 16, 24, 0, 1, 40, g.R.N(200), g.R.N(5000), 1<<20, 1000003))
}

func (g *G) fields(n int) []Field {
	var fs []Field
	have := map[string]bool{}
	for i := 0; i < n; i++ {
		name := g.Word()
		for have[name] {
			name += "_"
		}
		have[name] = true
		fs = append(fs, Field{name, AllTypes[g.R.N(len(AllTypes))]})
	}
	return fs
}

func (g *G) shuffleFields(fs ...Field) []Field {
	for i := g.R.N(3); i > 0; i-- {
		fs = append(fs, Field{fmt.Sprintf("extra%d", i), AllTypes[g.R.N(len(AllTypes))]})
	}
	g.R.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	return fs
}

// filler adds up to n random objects.
func (g *G) filler(n int) {
	if g.O.Objects == 0 {
		return
	}
	for i := g.R.N(n + 1); i > 0; i-- {
		g.RandomObject()
	}
}

// RandomObject adds an instance or array.
func (g *G) RandomObject() H {
	r := g.R
	var h H
	switch k := r.N(10); {
	case k < 4 && len(g.plain) > 0:
		c := g.plain[r.N(len(g.plain))]
		i := g.NewInst(c)
		for j := range i.Vals {
			i.Vals[j] = g.Val(i.Vals[j].T)
		}
		h = i.H
	case k < 7 && len(g.arrays) > 0:
		n := Pick(r, 0, 1, 2, r.N(9), r.N(40))
		var e []H
		for ; n > 0; n-- {
			e = append(e, g.Val(TObject).Ref)
		}
		h = g.NewObjArr(g.arrays[r.N(len(g.arrays))], e).H
	default:
		t := PrimTypes[r.N(len(PrimTypes))]
		n := Pick(r, 0, 1, 2, r.N(10), r.N(100))
		b := make([]byte, n*Width(t, 8))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		if t == TBool {
			for i := range b {
				b[i] &= 1
			}
		}
		h = g.NewPrimArr(t, b).H
	}
	g.pool = append(g.pool, h)
	return h
}

func (g *G) randomStatics(n int) []Static {
	var s []Static
	for i := 0; i < n; i++ {
		s = append(s, Static{g.Word(), g.Val(AllTypes[g.R.N(len(AllTypes))])})
	}
	return s
}

// Gen makes a world.
func Gen(seed int64, label string, o Opts) *G { return GenMap(seed, label, o, nil) }

// GenMap is Gen with every payload string replaced by m of it.
func GenMap(seed int64, label string, o Opts, m func(string) string) *G {
	g := &G{World: New(), R: NewRng(seed, label, "world"), O: o, seen: map[string]int{}, Map: m}
	r := g.R
	g.TS = 1600000000000 + int64(r.N(1<<30))*int64(r.Range(1, 300)) + int64(r.N(1000))
	g.object = g.AddClass("java/lang/Object", nil, int32(Pick(r, 8, 16)))
	g.seen["java/lang/Object"] = 1
	if !o.NoJVM || r.P(50) {
		g.seen["java/lang/String"] = 1
		g.str = g.AddClass("java/lang/String", g.object, int32(Pick(r, 13, 14, 24)), g.shuffleFields(Field{"value", TObject}, Field{"coder", TByte}, Field{"hash", TInt})...)
	}
	for _, t := range "ZCFDBSIJ" {
		c := g.AddClass("["+string(t), g.object, 0)
		g.primArrCls = append(g.primArrCls, c)
	}
	objArr := g.AddClass("[Ljava/lang/Object;", g.object, 0)
	g.arrays = append(g.arrays, objArr)

	// extra classes
	for i := 0; i < o.Classes; i++ {
		super := g.object
		if len(g.plain) > 0 && r.P(60) {
			super = g.plain[r.N(len(g.plain))]
		}
		name := ""
		if o.SameNames && len(g.plain) > 0 && r.P(30) {
			name = g.plain[r.N(len(g.plain))].Name
		} else {
			name = g.ClassName()
		}
		c := g.AddClass(name, super, g.instSize(), g.fields(Pick(r, 0, 1, 3, r.N(12)))...)
		if super != g.object && r.P(50) && len(super.Fields) > 0 {
			// a shadowing field, perhaps of another type
			c.Fields = append(c.Fields, Field{super.Fields[r.N(len(super.Fields))].Name, AllTypes[r.N(len(AllTypes))]})
			c.Fields = dedup(c.Fields)
		}
		for k := r.N(3); k > 0; k-- {
			c.Consts = append(c.Consts, Const{uint16(r.N(65536)), g.Val(AllTypes[r.N(len(AllTypes))])})
		}
		c.Statics = g.randomStatics(Pick(r, 0, 0, 2, r.N(8)))
		c.Dup = r.P(5)
		g.plain = append(g.plain, c)
		if r.P(40) {
			dim := r.Range(1, 4)
			g.arrays = append(g.arrays, g.AddClass(strings.Repeat("[", dim)+"L"+name+";", g.object, 0))
		}
	}
	if r.P(50) {
		g.arrays = append(g.arrays, g.AddClass(strings.Repeat("[", r.Range(2, 5))+Pick(r, "Z", "C", "F", "D", "B", "S", "I", "J"), g.object, 0))
	}
	g.plain = append(g.plain, g.object)
	for _, c := range g.Classes {
		if r.P(30) {
			g.pool = append(g.pool, c.H)
		}
	}
	if !o.NoJVM {
		g.jvm()
	}
	for i := 0; i < o.Objects; i++ {
		g.RandomObject()
	}
	if o.OtherRoots {
		for i := r.N(30); i > 0; i-- {
			k := Pick[byte](r, RUnknown, RJniGlobal, RNativeStack, RSticky, RThreadBlock, RMonitor, RJniGlobal, RSticky)
			h := H(1 + r.N(int(g.Last)))
			g.Roots = append(g.Roots, &Root{Kind: k, Obj: h, Thread: uint32(r.N(3)), Jni: uint64(r.Uint32())})
		}
	}
	if r.P(30) {
		for i := 1 + r.N(3); i > 0; i-- {
			g.LoadOnly = append(g.LoadOnly, Loaded{g.NewH(), g.ClassName()})
		}
	}
	for i := r.N(4); i > 0; i-- {
		g.Extra = append(g.Extra, fmt.Sprintf("unused%d%s", i, g.Word()))
	}
	return g
}

func dedup(fs []Field) []Field {
	have := map[string]bool{}
	var out []Field
	for _, f := range fs {
		if !have[f.Name] {
			have[f.Name] = true
			out = append(out, f)
		}
	}
	return out
}

// jvm adds the classes and objects `threads` and `summary` look at.
func (g *G) jvm() {
	r := g.R
	g.seen["java/lang/Thread"] = 1
	g.thread = g.AddClass("java/lang/Thread", g.object, 120, g.shuffleFields(Field{"name", TObject}, Field{"priority", TInt}, Field{"daemon", TBool},
		Field{"tid", TLong}, Field{"threadStatus", TInt}, Field{"target", TObject}, Field{"stillborn", TBool}, Field{"stackSize", TLong})...)
	tclasses := []*Class{g.thread}
	for i := r.N(3); i > 0; i-- {
		super := tclasses[r.N(len(tclasses))]
		name := g.ClassName()
		if n := g.alike("java/lang/Thread"); r.P(25) && g.seen[n] == 0 {
			name = n
			g.seen[n] = 1
		}
		c := g.AddClass(name, super, g.instSize())
		if g.O.Shadow {
			for _, n := range []string{"name", "priority", "daemon", "tid", "threadStatus"} {
				if r.P(50) {
					c.Fields = append(c.Fields, Field{n, AllTypes[r.N(len(AllTypes))]})
				}
			}
		}
		c.Fields = dedup(append(c.Fields, g.fields(r.N(4))...))
		tclasses = append(tclasses, c)
	}
	g.props()
	g.threads(tclasses)

	// JMX
	decoy := func(start int64, c *Class) H {
		i := g.NewInst(c)
		for j := range i.Vals {
			i.Vals[j] = g.Val(i.Vals[j].T)
		}
		i.Set("sun/management/RuntimeImpl", "vmStartupTime", Long(start))
		return i.H
	}
	ri := g.AddClass("sun/management/RuntimeImpl", g.object, 32, g.shuffleFields(Field{"jvm", TObject}, Field{"vmStartupTime", TLong})...)
	g.Start = g.TS - int64(Pick(r, 0, 1, 999, 1000, 60000, 3599999, 86400000*3+1, r.N(1<<30), r.N(1<<30), r.N(1<<30), 86400000*r.Range(20, 400), 86400000*r.Range(20, 20000)+r.N(86400000)))
	if r.P(10) {
		g.Start = g.TS + int64(r.N(5000)) // clock went back
	}
	if r.P(50) {
		decoy(g.TS-int64(r.N(100000)), ri)
	}
	h := decoy(g.Start, ri)
	if r.P(50) {
		decoy(g.TS-int64(r.N(100000)), ri)
	}
	mf := g.AddClass("sun/management/ManagementFactoryHelper", g.object, 8)
	mf.Statics = g.randomStatics(r.N(3))
	mf.Statics = append(mf.Statics, Static{"runtimeMBean", Obj(h)}, Static{"memoryMBean", g.Val(TObject)})
	r.Shuffle(len(mf.Statics), func(i, j int) { mf.Statics[i], mf.Statics[j] = mf.Statics[j], mf.Statics[i] })
}

var stdProps = [][2]string{{"java.vm.name", "OpenJDK 64-Bit Server VM"}, {"java.vm.version", "17.0.2+8"}, {"java.vm.info", "mixed mode, sharing"}, {"java.vm.vendor", "Oracle"},
	{"java.version", "17.0.2"}, {"java.home", "/usr/lib/jvm"}, {"os.name", "Linux"}, {"os.arch", "amd64"}}

// javaHash is String.hashCode.
func javaHash(s string) int32 {
	var h int32
	for _, u := range utf16.Encode([]rune(s)) {
		h = 31*h + int32(u)
	}
	return h
}

type kv struct{ k, v string }

// MoreProps is AddProps for other packages; nothing is done to its texts.
func (g *G) MoreProps(list [][2]string) H {
	var l []kv
	for _, x := range list {
		l = append(l, kv{x[0], x[1]})
	}
	return g.AddProps(l, true)
}

// AddProps builds a java.util.Properties with the pairs.
func (g *G) AddProps(list []kv, treeify bool) H {
	r := g.R
	chm, node, tree, bin, arr := g.Class("java/util/concurrent/ConcurrentHashMap"), g.Class("java/util/concurrent/ConcurrentHashMap$Node"),
		g.Class("java/util/concurrent/ConcurrentHashMap$TreeNode"), g.Class("java/util/concurrent/ConcurrentHashMap$TreeBin"), g.Class("[Ljava/util/concurrent/ConcurrentHashMap$Node;")
	n := 1
	for n < len(list) {
		n *= 2
	}
	switch {
	case !g.O.Chains:
		n *= 8
	case r.P(50):
		n = max(1, n/Pick(r, 2, 4, 8))
	default:
		n = max(1, n)
	}
	n = max(n, Pick(r, 1, 2, 8, 16))
	if g.Slots > 0 {
		n = g.Slots
	}
	bins := make([][]kv, n)
	for _, x := range list {
		h := javaHash(x.k)
		h ^= int32(uint32(h) >> 16)
		b := int(uint32(h) % uint32(n))
		if !g.O.Chains {
			for len(bins[b]) > 0 {
				b = (b + 1) % n
			}
		}
		bins[b] = append(bins[b], x)
	}
	table := make([]H, n)
	var arrObj *ObjArr
	if r.P(50) {
		arrObj = g.NewObjArr(arr, table)
	}
	for b, l := range bins {
		if len(l) == 0 {
			continue
		}
		isTree := treeify && (len(l) >= 3 || r.P(20))
		cls := node
		if isTree {
			cls = tree
		}
		nodes := make([]*Inst, len(l))
		for _, i := range r.Perm(len(l)) {
			g.filler(1)
			nodes[i] = g.NewInst(cls)
		}
		for i, x := range l {
			k := g.JString(x.k)
			v := g.JString(x.v)
			nodes[i].Set("", "key", Obj(k)).Set("", "val", Obj(v)).Set("", "hash", Int(javaHash(x.k)&0x7fffffff))
			if i+1 < len(l) {
				nodes[i].Set("", "next", Obj(nodes[i+1].H))
			}
			if isTree {
				nodes[i].Set("", "red", Bool(r.P(50)))
				if i > 0 {
					nodes[i].Set("", "prev", Obj(nodes[i-1].H)).Set("", "parent", Obj(nodes[(i-1)/2].H))
				}
				if 2*i+1 < len(l) {
					nodes[i].Set("", "left", Obj(nodes[2*i+1].H))
				}
				if 2*i+2 < len(l) {
					nodes[i].Set("", "right", Obj(nodes[2*i+2].H))
				}
			}
		}
		table[b] = nodes[0].H
		if isTree {
			t := g.NewInst(bin)
			t.Set("", "hash", Int(-2)).Set("", "root", Obj(nodes[r.N(len(nodes))].H)).Set("", "first", Obj(nodes[0].H))
			table[b] = t.H
		}
	}
	if arrObj == nil {
		arrObj = g.NewObjArr(arr, table)
	}
	m := g.NewInst(chm)
	m.Set("", "table", Obj(arrObj.H)).Set("", "baseCount", Long(int64(len(list)))).Set("", "sizeCtl", Int(int32(n*3/4)))
	pc := g.Class("java/util/Properties")
	if sub := g.Class("java/util/Properties$Sub"); sub != nil && r.P(50) {
		pc = sub
	}
	p := g.NewInst(pc)
	for j := range p.Vals {
		p.Vals[j] = g.Val(p.Vals[j].T)
	}
	p.Set("java/util/Properties", "map", Obj(m.H))
	return p.H
}

func (g *G) props() {
	r := g.R
	dict := g.AddClass("java/util/Dictionary", g.object, 8)
	ht := g.AddClass("java/util/Hashtable", dict, 40, g.shuffleFields(Field{"table", TObject}, Field{"count", TInt}, Field{"threshold", TInt}, Field{"loadFactor", TFloat})...)
	pr := g.AddClass("java/util/Properties", ht, 48, g.shuffleFields(Field{"defaults", TObject}, Field{"map", TObject})...)
	if r.P(30) {
		fs := []Field{}
		if g.O.Shadow {
			fs = append(fs, Field{"map", AllTypes[r.N(len(AllTypes))]})
		}
		g.AddClass("java/util/Properties$Sub", pr, 56, append(fs, Field{"own", TInt})...)
	}
	am := g.AddClass("java/util/AbstractMap", g.object, 16, Field{"keySet", TObject}, Field{"values", TObject})
	g.AddClass("java/util/concurrent/ConcurrentHashMap", am, 64, g.shuffleFields(Field{"table", TObject}, Field{"nextTable", TObject}, Field{"baseCount", TLong}, Field{"sizeCtl", TInt})...)
	node := g.AddClass("java/util/concurrent/ConcurrentHashMap$Node", g.object, 28, g.shuffleFields(Field{"hash", TInt}, Field{"key", TObject}, Field{"val", TObject}, Field{"next", TObject})...)
	for i, f := range node.Fields {
		if strings.HasPrefix(f.Name, "extra") {
			node.Fields[i].Name = "pad" + f.Name
		}
	}
	g.AddClass("java/util/concurrent/ConcurrentHashMap$TreeNode", node, 56, Field{"parent", TObject}, Field{"left", TObject}, Field{"right", TObject}, Field{"prev", TObject}, Field{"red", TBool})
	g.AddClass("java/util/concurrent/ConcurrentHashMap$TreeBin", node, 48, Field{"root", TObject}, Field{"first", TObject}, Field{"waiter", TObject}, Field{"lockState", TInt})
	g.AddClass("[Ljava/util/concurrent/ConcurrentHashMap$Node;", g.object, 0)
	mk := func(n int, std bool) ([]kv, map[string]string) {
		m := map[string]string{}
		var l []kv
		add := func(k, v string) {
			if _, ok := m[k]; !ok {
				m[k] = v
				l = append(l, kv{k, v})
			}
		}
		if std {
			for _, p := range stdProps {
				v := p[1]
				switch {
				case r.P(15):
					continue
				case r.P(30):
					v = g.Text(20)
				}
				add(p[0], v)
			}
			if r.P(60) {
				add("line.separator", "\n")
				add("path.separator", ":")
			}
		}
		for i := 0; i < n; i++ {
			k := ""
			switch r.N(4) {
			case 0:
				k = fmt.Sprintf("p.%d", r.N(1000))
			case 1:
				// String.hashCode collisions
				for j := r.Range(1, 4); j > 0; j-- {
					k += Pick(r, "Aa", "BB")
				}
			case 2:
				k = Pick(r, "java", "sun", "user", "os", "Java.Home") + "." + g.Text(8)
			default:
				k = g.Text(12)
				if k == "" || g.R.P(50) {
					k += fmt.Sprint(i)
				}
			}
			v := g.Text(Pick(r, 0, 10, 30, 300))
			k = strings.TrimSpace(k)
			switch {
			case r.P(8):
				k = Pick(r, k+" ", " "+k, k+"  ", " ")
			case r.P(8) && len(l) > 0: // the same but for the spaces or the case
				k = l[r.N(len(l))].k
				k = Pick(r, k+" ", " "+k, strings.ToUpper(k), k+".")
			}
			switch {
			case r.P(8):
				v = k
			case r.P(8) && len(l) > 0:
				v = l[r.N(len(l))].v
			}
			add(k, v)
		}
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return l, m
	}
	if r.P(50) { // another Properties object
		l, _ := mk(r.N(5), true)
		g.AddProps(l, false)
	}
	l, m := mk(g.O.Props, !g.O.FewProps)
	g.Props = m
	h := g.AddProps(l, g.O.TreeBins)
	sys := g.AddClass("java/lang/System", g.object, 8)
	sys.Statics = append(sys.Statics, Static{"in", g.Val(TObject)}, Static{"props", Obj(h)}, Static{"out", g.Val(TObject)}, Static{"lineSeparator", g.Val(TObject)}, Static{"allowSecurityManager", Int(1)})
	r.Shuffle(len(sys.Statics), func(i, j int) { sys.Statics[i], sys.Statics[j] = sys.Statics[j], sys.Statics[i] })
	if r.P(50) {
		d := g.AddClass(Pick(r, "java/lang/SystemX", "x/java/lang/System", "java/lang/system", "System", "java/lang/System$props"), g.object, 8)
		d.Statics = append(d.Statics, Static{"props", g.Val(TObject)})
	}
}

// Status words HotSpot stores in java.lang.Thread.threadStatus.
var Statuses = []int32{0, 5, 0x401, 0x191, 0x1a1, 0xe1, 0xd1, 0x91, 0xa1, 2, 0x291, 0x2a1, 0x405, 0x500005, 0x100005, 0x200005, 0x300401, 0x100191, 0x40000 | 0xe1}

// Sig makes a random method descriptor.
func (g *G) Sig() string {
	var b strings.Builder
	typ := func() string {
		s := ""
		if g.R.P(30) {
			s = strings.Repeat("[", Pick(g.R, 1, 1, 2, 3, g.R.Range(1, 10)))
		}
		if g.R.P(50) {
			return s + Pick(g.R, "Z", "C", "F", "D", "B", "S", "I", "J")
		}
		if len(g.plain) > 0 && g.R.P(50) {
			return s + "L" + g.plain[g.R.N(len(g.plain))].Name + ";"
		}
		n := g.ident(plainSeg, plainName)
		if g.O.Names > 0 && g.R.P(30) {
			n = g.ident(plainSeg, oddName)
		}
		return s + "L" + n + ";"
	}
	b.WriteByte('(')
	for i := Pick(g.R, 0, 0, 1, 2, g.R.N(8)); i > 0; i-- {
		b.WriteString(typ())
	}
	b.WriteByte(')')
	if g.R.P(50) {
		b.WriteByte('V')
	} else {
		b.WriteString(typ())
	}
	return b.String()
}

func (g *G) threads(tclasses []*Class) {
	r := g.R
	var frames []*Frame
	// the dummy trace of HotSpot
	g.Traces = append(g.Traces, &Trace{})
	if g.O.Threads < 0 {
		return
	}
	tids := r.Perm(max(200, g.O.Threads+1))
	var names []string
	for t := 1; t <= g.O.Threads; t++ {
		c := tclasses[0]
		if r.P(50) {
			c = tclasses[r.N(len(tclasses))]
		}
		name := g.Text(15)
		if r.P(20) {
			name = Pick(r, "main", "x\", ID=3, prio=9, status=NEW (daemon)", "", "a \"quoted\" one", "Thread-0", "    indented")
		}
		if r.P(10) && len(names) > 0 {
			name = names[r.N(len(names))]
		}
		names = append(names, name)
		var nameH H
		first := r.P(50)
		if first {
			nameH = g.JString(name)
		}
		i := g.NewInst(c)
		for j := range i.Vals {
			i.Vals[j] = g.Val(i.Vals[j].T)
		}
		if !first {
			g.filler(2)
			nameH = g.JString(name)
		}
		const T = "java/lang/Thread"
		tid := int64(tids[t])
		if r.P(10) {
			tid = Pick(r, int64(r.N(1<<30))*1000003, 1<<31+int64(t), 1<<53+int64(t), 1<<63-1-int64(t), -int64(t), -1<<63+int64(t))
		}
		i.Set(T, "name", Obj(nameH)).Set(T, "priority", Int(int32(r.Range(1, 10)))).Set(T, "daemon", Bool(r.P(50))).
			Set(T, "tid", Long(tid)).Set(T, "threadStatus", Int(Statuses[r.N(len(Statuses))]))
		tr := &Trace{Thread: uint32(t)}
		for d := r.N(g.O.MaxDepth + 1); d > 0; d-- {
			if len(frames) > 0 && r.P(25) {
				tr.Frames = append(tr.Frames, frames[r.N(len(frames))])
				continue
			}
			f := &Frame{Method: g.Word(), Sig: g.Sig(), File: g.fileName(), NoFile: r.P(15), Cls: g.Classes[r.N(len(g.Classes))],
				Line: int32(Pick(r, -1, -2, -3, 1, r.Range(1, 99), r.Range(1, 70000), r.Range(1, 70000), 1<<31-1-r.N(1<<31-1)))}
			for strings.HasPrefix(f.Cls.Name, "[") {
				f.Cls = g.Classes[r.N(len(g.Classes))]
			}
			frames = append(frames, f)
			g.Frames = append(g.Frames, f)
			tr.Frames = append(tr.Frames, f)
		}
		g.Traces = append(g.Traces, tr)
		g.Roots = append(g.Roots, &Root{Kind: RThread, Obj: i.H, Thread: uint32(t), Frame: int32(len(g.Traces) - 1)})
		g.pool = append(g.pool, i.H)
		for k := r.N(2*g.O.Locals + 1); k > 0; k-- {
			fr := int32(r.N(len(tr.Frames) + 1))
			if r.P(15) {
				fr = Pick[int32](r, -1, int32(len(tr.Frames)), int32(len(tr.Frames)+3))
			}
			obj := g.local()
			g.Roots = append(g.Roots, &Root{Kind: Pick[byte](r, RJniLocal, RJavaFrame, RJavaFrame), Obj: obj, Thread: uint32(t), Frame: fr})
			if r.P(20) { // the same object twice
				g.Roots = append(g.Roots, &Root{Kind: Pick[byte](r, RJniLocal, RJavaFrame), Obj: obj, Thread: uint32(t), Frame: fr})
			}
		}
	}
	// threads that are no roots any more
	for k := r.N(3); k > 0; k-- {
		n := g.JString("ended")
		i := g.NewInst(tclasses[0])
		i.Set("", "name", Obj(n)).Set("", "threadStatus", Int(2)).Set("", "tid", Long(1))
	}
	// locals of threads that have no frames here
	if g.O.Locals > 0 && r.P(30) {
		g.Roots = append(g.Roots, &Root{Kind: RJavaFrame, Obj: g.local(), Thread: uint32(g.O.Threads + 1), Frame: 0})
	}
	r.Shuffle(len(g.Roots), func(i, j int) { g.Roots[i], g.Roots[j] = g.Roots[j], g.Roots[i] })
	r.Shuffle(len(g.Traces), func(i, j int) {
		g.Traces[i], g.Traces[j] = g.Traces[j], g.Traces[i]
		for _, x := range g.Roots {
			if x.Kind == RThread {
				switch int(x.Frame) {
				case i:
					x.Frame = int32(j)
				case j:
					x.Frame = int32(i)
				}
			}
		}
	})
}

// local is something a local variable may refer to.
func (g *G) local() H {
	switch g.R.N(6) {
	case 0:
		return g.Classes[g.R.N(len(g.Classes))].H
	case 1:
		if len(g.pool) > 0 {
			return g.pool[g.R.N(len(g.pool))]
		}
	}
	return g.RandomObject()
}
