package main

import (
	"fmt"
	"strings"

	"vh/hp"
	"vh/view"
)

func init() {
	register("C12", "exploration",
		"hostile class, method, file and thread names and property keys and values (29 markup payloads and their combinations) and benign ones, all three commands and their options; the page is tokenized as a browser would, its rows and paragraphs compared with the plain report, its elements with those of a page without payloads; non-trivial if a payload is on the page; distinct by page",
		checkHTML)
	register("C13", "exploration",
		"random and hostile dumps (strings with escape sequences too), all three commands and their options; non-trivial if there are coloured spans; distinct by report",
		checkColour)
}

// variants of the commands, without colour and output options
func variants(r *hp.Rng) [][]string {
	return [][]string{
		{"threads"}, {"threads", "--local-vars"}, {"summary"}, {"summary", "--all-props"}, {"objects"}, {"objects", "--sort-by", "size"},
	}
}

func benign(s string) string { return fmt.Sprintf("x%dx", len(s)) }

// base paths of pages of an ordinary dump
func (c *Ctx) basePaths() map[string]map[string]int {
	paths := map[string]map[string]int{}
	c.One("base", 0, func(k *Case) {
		o := hp.Opts{Classes: 5, Objects: 50, Threads: 6, MaxDepth: 8, Props: 10, Locals: 6}
		_, x, _ := Gen(1, "base", o, hp.DefaultEnc(8))
		dump := k.Write("d.hprof", x.Data)
		for _, v := range variants(k.R) {
			r := k.Run(append(Args(v[0], dump, "--output", "html"), v[1:]...)...)
			p, err := view.ParsePage(r.Stdout)
			if r.Exit != 0 || err != nil {
				k.Fail("page of an ordinary dump: %v %v", err, r)
				return
			}
			paths[strings.Join(v, " ")] = p.Paths
		}
	})
	// a page with locals has all the elements of threads pages
	return paths
}

func checkHTML(c *Ctx) {
	base := c.basePaths()
	if len(base) == 0 {
		return
	}
	page := func(k *Case, large bool) {
		o := hp.RandomOpts(k.R)
		o.Names, o.Texts = hp.Pick(k.R, 0, 1, 2, 2, 2), hp.Pick(k.R, 0, 1, 2, 2, 2)
		o.Threads = k.R.N(6)
		g := hp.Gen(k.Seed, fmt.Sprint("C12", large, k.N), o)
		if large {
			g = k.large()
		}
		_, x, _ := encode(g, hp.RandomEnc(k.R, idSize(k.R)))
		dump := k.Write("d.hprof", x.Data)
		for _, v := range variants(k.R) {
			name := strings.Join(v, " ")
			h := k.Run(append(Args(v[0], dump, "--output", "html"), v[1:]...)...)
			p := k.Run(append(Args(v[0], dump, "--output", "plain", "--no-color"), v[1:]...)...)
			if h.Exit != 0 || p.Exit != 0 {
				k.Fail("failed on a well-formed dump: %v %v", h, p)
				return
			}
			page, err := view.ParsePage(h.Stdout)
			if err != nil {
				k.Fail("%s: page is broken: %v", name, err)
				return
			}
			if len(page.Loads) > 0 {
				k.Fail("%s: the page runs or loads %s", name, page.Loads[0])
				return
			}
			for path := range page.Paths {
				if base[name][path] == 0 {
					k.Fail("%s: the page has the element %s that pages of ordinary dumps do not have", name, path)
					return
				}
			}
			switch v[0] {
			case "threads":
				err = page.SameThreads(p.Stdout)
			case "objects":
				err = page.SameObjects(p.Stdout)
			case "summary":
				var secs []view.Section
				if secs, err = page.Summary(); err == nil {
					err = view.CheckPageSummary(p.Stdout, secs)
				}
				if err == nil && len(secs) < 3 {
					err = fmt.Errorf("the page has %d sections", len(secs))
				}
			}
			if err != nil {
				k.Fail("%s: page and plain report differ: %v", name, err)
				return
			}
			placed := 0
			for _, w := range g.Hostile {
				if strings.Contains(p.Stdout, w) || strings.Contains(p.Stdout, strings.ReplaceAll(w, "/", ".")) {
					placed++
					k.Seen("payloads on pages", w)
				}
			}
			k.Obs("payloads placed", placed)
			k.Obs("rows compared", len(page.Rows))
			k.Obs("paragraphs compared", len(page.Paras))
			key := ""
			if placed > 0 {
				key = h.Stdout
			}
			k.Eval(key)
		}
		if k.N < 3 {
			k.Sample(map[string]any{"payloads": g.Hostile[:min(6, len(g.Hostile))]})
		}
	}
	n := c.Pick(2, 30)
	defer c.Beside(func() { c.CasesFor("large page", n, n, 0.5, func(k *Case) { page(k, true) }) })()
	c.Cases("page", 150, c.Pick(1000000, 10000000), func(k *Case) { page(k, false) })
}

func checkColour(c *Ctx) {
	report := func(k *Case, large bool) {
		o := hp.RandomOpts(k.R)
		o.Names, o.Texts = k.R.N(3), k.R.N(3)
		o.Threads = k.R.N(6)
		esc := k.R.P(25) && !large
		if esc {
			o.TextFn = func(r *hp.Rng, m int) string {
				return hp.Pick(r, "\x1b[31mred", "a\x1b[0mb", "\x1b[2J", "plain", "\x1b", "x\x1b[1;32my\x1b[0m", "%s%d", "\x1b]0;t\x07", "ends\n", "\nstarts", "in\nside", "two\n\n", "return\r\n")
			}
		}
		g := hp.Gen(k.Seed, fmt.Sprint("C13", large, k.N), o)
		if large {
			g = k.large()
		}
		if esc {
			for _, f := range g.Frames {
				end := hp.Pick(k.R, "\n", "\r", " ", "\t", "\n\n")
				switch k.R.N(6) {
				case 0:
					f.Method += end
				case 1:
					f.File += end
				}
			}
		}
		_, x, m := encode(g, hp.RandomEnc(k.R, idSize(k.R)))
		dump := k.Write("d.hprof", x.Data)
		for _, v := range variants(k.R) {
			name := strings.Join(v, " ")
			a := k.Run(append(Args(v[0], dump), v[1:]...)...)
			b := k.Run(append(Args(v[0], dump, "--no-color"), v[1:]...)...)
			if a.Exit != 0 || b.Exit != 0 {
				k.Fail("failed on a well-formed dump: %v %v", a, b)
				return
			}
			x, y := view.Normal(view.Strip(a.Stdout)), view.Normal(view.Strip(b.Stdout))
			if x != y {
				k.Fail("%s: reports differ not only in colour: %s", name, firstDiff(x, y))
				return
			}
			if !esc {
				if strings.Contains(b.Stdout, "\x1b") {
					k.Fail("%s: escape sequence in a report without colours: %q", name, around(b.Stdout, strings.Index(b.Stdout, "\x1b")))
					return
				}
			} else {
				// every escape is one of the dump's
				n := strings.Count(b.Stdout, "\x1b")
				want := 0
				switch v[0] {
				case "threads":
					for _, t := range m.Threads() {
						want += strings.Count(t.Head(), "\x1b")
					}
				case "summary":
					for _, s := range view.SummarySections(m.Summary(), len(v) > 1) {
						for _, kv := range s.KV {
							want += strings.Count(kv.K+kv.V, "\x1b")
						}
					}
				}
				if n != want {
					k.Fail("%s: %d escape characters in a report without colours, %d in the strings of the dump", name, n, want)
					return
				}
			}
			spans := 0
			if !esc {
				var err error
				if spans, err = view.Spans(a.Stdout); err != nil {
					k.Fail("%s: %v", name, err)
					return
				}
				if strings.Count(a.Stdout, "\x1b") != len(sgrAll(a.Stdout)) {
					k.Fail("%s: escape sequences that are not colours", name)
					return
				}
			}
			k.Obs("coloured spans", spans)
			k.Obs("reports with escapes of the dump", b2i(esc))
			key := ""
			if spans > 0 {
				key = a.Stdout
			}
			k.Eval(key)
			if k.N < 1 {
				k.Sample(cut(a.Stdout, 200))
			}
		}
	}
	n := c.Pick(2, 30)
	defer c.Beside(func() { c.CasesFor("large report", n, n, 0.5, func(k *Case) { report(k, true) }) })()
	c.Cases("report", 150, c.Pick(1000000, 10000000), func(k *Case) { report(k, false) })
}

// large is a dump with thousands of classes, properties and frames, hundreds
// of threads and very many local variables of one frame.
func (k *Case) large() *hp.G {
	r := k.R
	o := hp.RandomOpts(r)
	o.NoJVM, o.Names, o.Texts = false, 1, 1
	o.Classes, o.Objects, o.Threads, o.MaxDepth, o.Props, o.Locals = 1500+r.N(1500), 6000, 280+r.N(100), hp.Pick(r, 20, 40), 1100+r.N(1000), 2
	g := hp.Gen(k.Seed, fmt.Sprint(k.ID, "large", k.N), o)
	frames := 0
	for _, root := range append([]*hp.Root{}, g.Roots...) {
		if root.Kind != hp.RThread || root.Frame < 0 || int(root.Frame) >= len(g.Traces) || len(g.Traces[root.Frame].Frames) == 0 {
			continue
		}
		if frames++; frames > 3 {
			break
		}
		f := int32(r.N(len(g.Traces[root.Frame].Frames)))
		for i := 300 + r.N(1200); i > 0; i-- {
			g.Roots = append(g.Roots, &hp.Root{Kind: hp.Pick[byte](r, hp.RJniLocal, hp.RJavaFrame), Obj: g.Insts[r.N(len(g.Insts))].H, Thread: root.Thread, Frame: f})
		}
	}
	k.Obs("large dumps", 1)
	return g
}

func sgrAll(s string) []string {
	var out []string
	for {
		t := view.Strip(s)
		n := (len(s) - len(t))
		if n == 0 {
			return out
		}
		// count by removing one kind at a time is not needed, count the starts
		return make([]string, strings.Count(s, "\x1b")-strings.Count(t, "\x1b"))
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("at byte %d: %q and %q", i, around(a, i), around(b, i))
}

func around(s string, i int) string {
	return s[max(0, min(i-40, len(s))):min(len(s), i+60)]
}
