package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"vh/hp"
	"vh/ref"
	"vh/view"
)

func init() {
	register("C09", "exploration",
		"Java strings of every Latin-1 and BMP code point, surrogate pairs, lone surrogates, empty and long ones, compact and not, with the fields of java.lang.String in any order and its array before or after it, shown as thread names and as property keys and values; non-trivial if the dump holds text that is not ASCII; distinct by the texts",
		checkStrings)
	register("C10", "exploration",
		"method descriptors enumerated (all of up to two parameters over 12 types) and random (up to 255 dimensions, long parameter lists), class names with every character the JVM allows, as frames, histogram rows and locals; distinct by descriptor or name",
		checkSignatures)
}

// chunkText yields texts that cover all code points in turn.
func chunkText(n int) func(r *hp.Rng, max int) string {
	next := 0
	return func(r *hp.Rng, m int) string {
		next++
		var b strings.Builder
		switch (n + next) % 8 {
		case 0: // Latin-1, all of it
			for c := 0; c < 256; c++ {
				b.WriteRune(rune((c + n*17) % 256))
			}
		case 1, 2, 3, 4: // the BMP in pieces
			base := ((n*97 + next) * 61) % 0xffff
			for c := base; c < base+61; c++ {
				if x := c % 0x10000; x < 0xd800 || x > 0xdfff {
					b.WriteRune(rune(x))
				}
			}
		case 5: // beyond
			base := r.Range(0x10000, 0x10ffff-64)
			for c := 0; c < r.Range(1, 60); c++ {
				b.WriteRune(rune(base + c))
			}
		case 6: // long
			l := hp.Pick(r, 0, 1, 255, 256, 4095, 4096, 4097, 65536, r.N(20000))
			c := hp.Pick(r, 'x', 'é', '日', 0x1f600, 0x100, 0xff)
			b.WriteString(strings.Repeat(string(rune(c)), l))
		default:
			for i := r.N(20); i > 0; i-- {
				b.WriteRune(rune(hp.Pick(r, r.Range(0x20, 0x7e), r.Range(0x80, 0xff), r.Range(0x100, 0x2fff), 0xff, 0x100, 0xfffd, 0xfeff, 0xffff, 0x80, 0x7f)))
			}
		}
		s := b.String()
		if r.P(25) { // characters that some trim, or take for a mark
			c := hp.Pick(r, "\x00", "\x00\x00", "\ufeff", "\ufffe", " ", "\t", "\u00a0", "\u2028", "\ufffd", "\uffff", "\x7f", "\u0085")
			s = hp.Pick(r, s+c, c+s, c+s+c, c)
		}
		return s
	}
}

func checkStrings(c *Ctx) {
	c.overTowers([][]string{{"threads"}, {"summary", "--all-props"}}, "texts")
	c.overJVM([][]string{{"threads"}, {"summary", "--all-props"}})
	c.Cases("text", 150, c.Pick(1000000, 10000000), func(k *Case) {
		o := hp.RandomOpts(k.R)
		o.Threads, o.MaxDepth, o.Locals = hp.Pick(k.R, 1, 5, 12), hp.Pick(k.R, 0, 1), 0
		o.Props = hp.Pick(k.R, 3, 20, 60)
		o.Objects = hp.Pick(k.R, 0, 40)
		o.NoCompact = k.R.P(30)
		o.Texts = 1
		if k.R.P(80) {
			o.TextFn = chunkText(k.N)
		}
		g := hp.Gen(k.Seed, fmt.Sprint("C09", k.N), o)
		// lone surrogates cannot be in Go strings, put them into arrays
		lone := 0
		if k.R.P(30) {
			for _, a := range g.Prims {
				if a.T == hp.TByte && len(a.Data) >= 4 && len(a.Data)%2 == 0 && k.R.P(20) && isUTF16(g, a) {
					i := k.R.N(len(a.Data)/2) * 2
					a.Data[i], a.Data[i+1] = byte(k.R.N(256)), hp.Pick[byte](k.R, 0xd8, 0xdb, 0xdc, 0xdf)
					lone++
				}
			}
		}
		_, x, m := encode(g, hp.RandomEnc(k.R, idSize(k.R)))
		dump := k.Write("d.hprof", x.Data)
		ts, s := m.Threads(), m.Summary()
		r := k.Run(Args("threads", dump, "--no-color")...)
		r2 := k.Run(Args("summary", dump, "--no-color", "--all-props")...)
		if r.Exit != 0 || r2.Exit != 0 {
			k.Fail("failed on a well-formed dump: %v %v", r, r2)
			return
		}
		if err := view.CheckThreads(r.Stdout, ts, false); err != nil {
			k.Fail("thread names: %v", err)
			return
		}
		if err := view.CheckSummary(r2.Stdout, view.SummarySections(s, true), "Environment", "Properties"); err != nil {
			k.Fail("properties: %v", err)
			return
		}
		if !utf8.ValidString(r.Stdout) || !utf8.ValidString(r2.Stdout) {
			k.Fail("output is not valid UTF-8")
			return
		}
		var all strings.Builder
		for _, t := range ts {
			all.WriteString(t.Name)
		}
		for _, kv := range s.Props {
			all.WriteString(kv.K + kv.V)
		}
		n := 0
		for _, ch := range all.String() {
			switch {
			case ch > 0xffff:
				k.Obs("supplementary characters", 1)
			case ch > 0xff:
				k.Seen("BMP code points beyond Latin-1", string(ch))
			default:
				k.Seen("Latin-1 code points", string(ch))
			}
			if ch > 0x7e {
				n++
			}
		}
		k.Obs("strings compared", len(ts)+2*len(s.Props))
		k.Obs("characters compared", utf8.RuneCountInString(all.String()))
		k.Obs("strings with lone surrogates", lone)
		key := ""
		if n > 0 {
			key = all.String()
		}
		k.Eval(key)
		if k.N < 3 && len(s.Props) > 0 {
			k.Sample(map[string]any{"key": s.Props[0].K, "value": cut(s.Props[0].V, 40), "coder": map[bool]string{true: "UTF-16 only", false: "compact"}[o.NoCompact]})
		}
	})
}

func cut(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		return string(r[:n]) + "..."
	}
	return s
}

// isUTF16 tells whether the array belongs to a string of coder 1 (and is no
// key, so that keys stay distinct).
func isUTF16(g *hp.G, a *hp.PrimArr) bool {
	str := g.Class("java/lang/String")
	keys := map[hp.H]bool{}
	for _, i := range g.Insts {
		for j, f := range i.Cls.AllFields() {
			if f.Name == "key" {
				keys[i.Vals[j].Ref] = true
			}
		}
	}
	for _, i := range g.Insts {
		if i.Cls != str || keys[i.H] {
			continue
		}
		var v hp.H
		coder := uint64(0)
		for j, f := range str.AllFields() {
			switch f.Name {
			case "value":
				v = i.Vals[j].Ref
			case "coder":
				coder = i.Vals[j].Bits
			}
		}
		if v == a.H {
			return coder == 1
		}
	}
	return false
}

var descTypes = []string{"Z", "C", "F", "D", "B", "S", "I", "J", "Ljava/lang/String;", "LL;", "LI;", "LVL/L;"}

// legal characters of class names (besides `/`)
func oddClassName(r *hp.Rng) string {
	var b strings.Builder
	deep := 20
	n := 1 + r.N(12)
	switch {
	case r.P(4):
		deep, n = 60, r.Range(20, 80)
	case r.P(1):
		n = hp.Pick(r, 255, 256, 1000, 16384, 40000)
	}
	for i := n; i > 0; i-- {
		var c rune
		switch r.N(4) {
		case 0:
			c = rune(r.Range('A', 'Z'))
		case 1:
			c = rune(r.Range(0x21, 0x7e))
		case 2:
			c = hp.Pick(r, '(', ')', '$', 'L', 'V', 'I', '<', '>', '%', '"', '\\', '|', '-', ' ', ':', 'é', '日', 'ß', 'ǅ', 0xff5e)
		default:
			c = rune(r.Range('a', 'z'))
		}
		if strings.ContainsRune(".;[/", c) {
			c = '_'
		}
		b.WriteRune(c)
		if r.P(deep) {
			b.WriteString("x/x")
		}
	}
	// white space at the ends is trimmed by the monitors, not by the tool
	s := strings.TrimSpace(b.String())
	if s == "" || strings.HasPrefix(s, "/") || strings.HasSuffix(s, "/") {
		return "X" + s + "X"
	}
	if r.P(5) { // hidden classes
		return s + hp.Pick(r, "", "$$Lambda$14", "$$Lambda") + hp.Pick(r, "/0x", "+0x", "/", "/0X") + fmt.Sprintf("%016x", r.N(1<<40))
	}
	return s
}

func checkSignatures(c *Ctx) {
	c.overTowers([][]string{{"threads"}}, "signatures")
	// all descriptors of up to two parameters
	var enum []string
	atoms := []string{""}
	atoms = append(atoms, descTypes...)
	for _, d := range descTypes {
		atoms = append(atoms, "["+d)
	}
	atoms = append(atoms, "[[I", "[[Ljava/lang/Object;")
	for _, ret := range append([]string{"V"}, atoms[1:]...) {
		for _, a := range atoms {
			enum = append(enum, "("+a+")"+ret)
		}
	}
	for _, ret := range []string{"V", "I", "[LL;"} {
		for _, a := range atoms[1:] {
			for _, b := range atoms[1:] {
				enum = append(enum, "("+a+b+")"+ret)
			}
		}
	}
	c.Obs("descriptors enumerated", len(enum))
	const per = 250
	nEnum := (len(enum) + per - 1) / per
	c.Cases("sig", nEnum+80, c.Pick(1000000, 10000000), func(k *Case) {
		o := hp.Opts{Threads: 0, Classes: 3, Objects: 0, Names: 1}
		g := hp.Gen(k.Seed, fmt.Sprint("C10", k.N), o)
		var sigs []string
		if k.N < nEnum {
			sigs = enum[k.N*per : min(len(enum), (k.N+1)*per)]
		} else {
			for i := 0; i < 100; i++ {
				sigs = append(sigs, randomSig(k.R))
			}
		}
		th := g.Class("java/lang/Thread")
		i := g.NewInst(th)
		name := g.JString("main")
		i.Set("", "name", hp.Obj(name)).Set("", "tid", hp.Long(1)).Set("", "priority", hp.Int(5)).Set("", "threadStatus", hp.Int(5))
		tr := &hp.Trace{Thread: 1}
		var names []string
		for n := 0; n < 20; n++ {
			names = append(names, oddClassName(k.R))
		}
		var cls []*hp.Class
		for _, n := range names {
			cl := g.AddClass(n, g.Classes[0], 16)
			cls = append(cls, cl)
			g.NewInst(cl)
		}
		for n := 0; n < 12; n++ {
			dims := hp.Pick(k.R, 1, 2, 3, 1+k.R.N(255))
			el := hp.Pick(k.R, descTypes...)
			if k.R.P(50) {
				el = "L" + hp.Pick(k.R, names...) + ";"
			} else if len(el) == 1 {
				dims = max(2, dims)
			}
			cl := g.AddClass(strings.Repeat("[", dims)+el, g.Classes[0], 0)
			cls = append(cls, cl)
			g.NewObjArr(cl, nil)
		}
		for n, s := range sigs {
			f := &hp.Frame{Method: "m", Sig: s, File: "F", Cls: hp.Pick(k.R, cls[:20]...), Line: int32(n + 1)}
			g.Frames = append(g.Frames, f)
			tr.Frames = append(tr.Frames, f)
		}
		g.Traces = append(g.Traces, tr)
		g.Roots = append(g.Roots, &hp.Root{Kind: hp.RThread, Obj: i.H, Thread: 1, Frame: int32(len(g.Traces) - 1)})
		local := func(h hp.H) {
			g.Roots = append(g.Roots, &hp.Root{Kind: hp.RJavaFrame, Obj: h, Thread: 1, Frame: int32(k.R.N(len(sigs)))})
		}
		for _, x := range g.Insts {
			local(x.H)
		}
		for _, x := range g.ObjArrs {
			local(x.H)
		}
		for _, t := range hp.PrimTypes {
			local(g.NewPrimArr(t, nil).H)
		}
		for _, x := range g.Classes {
			local(x.H)
		}
		_, x, m := encode(g, hp.RandomEnc(k.R, idSize(k.R)))
		dump := k.Write("d.hprof", x.Data)
		r := k.Run(Args("threads", dump, "--no-color", "--local-vars")...)
		r2 := k.Run(Args("objects", dump, "--no-color")...)
		if r.Exit != 0 || r2.Exit != 0 {
			k.Fail("failed on a well-formed dump: %v %v", r, r2)
			return
		}
		if err := view.CheckThreads(r.Stdout, m.Threads(), true); err != nil {
			k.Fail("%v", err)
			return
		}
		t, err := view.ParseObjects(r2.Stdout)
		if err == nil {
			err = view.CheckObjects(t, m)
		}
		if err != nil {
			k.Fail("%v", err)
			return
		}
		for _, s := range sigs {
			k.Eval("sig " + s)
		}
		for _, cl := range g.Classes {
			k.Eval("name " + cl.Name)
		}
		k.Obs("frames compared", len(sigs))
		k.Obs("rows compared", len(t.Rows))
		k.Obs("locals compared", len(m.Roots)-1)
		if k.N == nEnum {
			a, ret := ref.Method(sigs[0])
			k.Sample(map[string]any{"descriptor": sigs[0], "arguments": a, "return": ret})
			k.Sample(names[:5])
		}
	})
}

func randomSig(r *hp.Rng) string {
	typ := func() string {
		s := strings.Repeat("[", hp.Pick(r, 0, 0, 0, 1, 2, r.N(6), r.N(255)))
		if r.P(50) {
			return s + hp.Pick(r, descTypes...)
		}
		return s + "L" + oddClassName(r) + ";"
	}
	var b strings.Builder
	b.WriteByte('(')
	for i := hp.Pick(r, 0, 1, 2, 3, 4, r.N(20), r.N(60), r.N(256)); i > 0; i-- {
		b.WriteString(typ())
	}
	b.WriteByte(')')
	if r.P(40) {
		b.WriteByte('V')
	} else {
		b.WriteString(typ())
	}
	return b.String()
}
