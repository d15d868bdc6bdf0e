package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"vh/cli"
	"vh/fault"
	"vh/hp"
	"vh/view"
)

func init() {
	register("C24", "exploration",
		"every combination of the documented options of every command (72), each in several random orders and spellings (one or two dashes, = or space, explicit and negated booleans, defaults spelled out); each report must be the one of exactly those options, which is checked against the oracle, the page structure and the colours; unknown options, options of other commands, unknown values, and unreadable dumps (missing, directories, no permission, no such directory) must be refused, and nothing may be created; asking for help, or leaving the command or the dump out, must print the usage with every documented option and nothing else; distinct by argument vector",
		checkFlags)
}

type combo struct {
	cmd     string
	colour  bool
	html    bool
	special bool // --local-vars, --all-props, --sort-by size
	quiet   bool
}

// spell writes one option in a random way.
func spellBool(r *hp.Rng, name string, on bool) []string {
	d := hp.Pick(r, "-", "--")
	if on {
		return []string{d + name + hp.Pick(r, "", "", "", "=true", "=1", "=t", "=T", "=TRUE", "=True")}
	}
	return hp.Pick(r, nil, nil, []string{d + name + hp.Pick(r, "=false", "=0", "=f", "=F", "=FALSE", "=False")})
}

func spellVal(r *hp.Rng, name, val string, dflt bool) []string {
	d := hp.Pick(r, "-", "--")
	if dflt && r.P(50) {
		return nil
	}
	if r.P(50) {
		return []string{d + name + "=" + val}
	}
	return []string{d + name, val}
}

func pickVal[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

func (x combo) spell(r *hp.Rng, dump string) []string {
	parts := [][]string{
		spellVal(r, "hprof", dump, false),
		spellBool(r, "no-color", !x.colour),
		spellBool(r, "non-interactive", x.quiet),
		spellVal(r, "output", pickVal(x.html, "html", "plain"), !x.html),
	}
	switch x.cmd {
	case "threads":
		parts = append(parts, spellBool(r, "local-vars", x.special))
	case "summary":
		parts = append(parts, spellBool(r, "all-props", x.special))
	case "objects":
		parts = append(parts, spellVal(r, "sort-by", pickVal(x.special, "size", "count"), !x.special))
	}
	for i := len(parts) - 1; i > 0; i-- {
		j := r.N(i + 1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	out := []string{x.cmd}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func (x combo) canonical(dump string) []string {
	out := []string{x.cmd, "--hprof", dump}
	if !x.colour {
		out = append(out, "--no-color")
	}
	if x.html {
		out = append(out, "--output", "html")
	}
	if x.special {
		out = append(out, map[string][]string{"threads": {"--local-vars"}, "summary": {"--all-props"}, "objects": {"--sort-by", "size"}}[x.cmd]...)
	}
	return append(out, "--non-interactive")
}

func (x combo) variant() []string {
	v := []string{x.cmd}
	if x.special {
		v = append(v, map[string][]string{"threads": {"--local-vars"}, "summary": {"--all-props"}, "objects": {"--sort-by", "size"}}[x.cmd]...)
	}
	return v
}

func checkFlags(c *Ctx) {
	c.One("grid", 0, func(k *Case) {
		for d := 0; d < c.Pick(1, 10); d++ {
			if d > 0 && c.Over() {
				return
			}
			k.grid(d)
		}
	})
	c.CasesFor("help", 40, c.Pick(160, 2000), 1, func(k *Case) { k.help() })
	c.CasesFor("reject", 60, c.Pick(1000000, 10000000), 1, func(k *Case) { k.rejects() })
}

// flagDump is a dump on which every option matters.
func (k *Case) flagDump(d int) ([]byte, map[combo]string) {
	for try := 0; ; try++ {
		o := hp.Opts{Classes: 6, Objects: 60, Threads: 4, MaxDepth: 6, Props: 10, Locals: 8, Names: 1}
		_, x, m := Gen(k.Seed, fmt.Sprint("C24", d, try), o, hp.RandomEnc(k.R, idSize(k.R)))
		nl := 0
		for _, t := range m.Threads() {
			for _, f := range t.Frames {
				nl += len(f.Locals)
			}
		}
		a, b := view.SortedRows(m, true), view.SortedRows(m, false)
		if nl < 2 || fmt.Sprint(a) == fmt.Sprint(b) {
			continue
		}
		k.files["d.hprof"] = x.Data
		dump := k.place(fmt.Sprint("g", d), x.Data)
		want := map[combo]string{}
		plain := map[combo]string{}
		for _, cmd := range []string{"threads", "summary", "objects"} {
			for bits := 0; bits < 8; bits++ {
				y := combo{cmd: cmd, colour: bits&1 != 0, html: bits&2 != 0, special: bits&4 != 0}
				r := k.Run(y.canonical(dump)...)
				if r.Exit != 0 || r.Crash() != "" {
					k.Fail("%q failed: %v", r.Args, r)
					return nil, nil
				}
				want[y] = r.Stdout
				p := combo{cmd: cmd, special: y.special}
				var err error
				switch {
				case y == p:
					plain[p] = r.Stdout
					err = Oracle(y.variant(), r.Stdout, m)
				case !y.html:
					if view.Normal(view.Strip(r.Stdout)) != view.Normal(plain[p]) {
						err = fmt.Errorf("not the plain report with colours: %s", firstDiff(view.Normal(view.Strip(r.Stdout)), view.Normal(plain[p])))
					} else if n, e := view.Spans(r.Stdout); e != nil || n == 0 {
						err = fmt.Errorf("%d coloured spans: %v", n, e)
					}
				default:
					var page *view.Page
					if page, err = view.ParsePage(r.Stdout); err == nil {
						switch cmd {
						case "threads":
							err = page.SameThreads(plain[p])
						case "objects":
							err = page.SameObjects(plain[p])
						case "summary":
							var secs []view.Section
							if secs, err = page.Summary(); err == nil {
								err = view.CheckPageSummary(plain[p], secs)
							}
						}
					}
				}
				if err != nil {
					k.Fail("%q: %v", r.Args, err)
					return nil, nil
				}
			}
		}
		return x.Data, want
	}
}

func (k *Case) grid(d int) {
	data, want := k.flagDump(d)
	if data == nil {
		return
	}
	var all []combo
	for y := range want {
		for _, q := range []bool{false, true} {
			y.quiet = q
			all = append(all, y)
		}
	}
	// a fixed order
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			if fmt.Sprint(all[j]) < fmt.Sprint(all[i]) {
				all[i], all[j] = all[j], all[i]
			}
		}
	}
	per := k.Pick(12, 60)
	k.CasesFor(fmt.Sprint("grid", d), per*len(all), per*len(all), 1, func(k *Case) {
		y := all[k.N%len(all)]
		k.files["d.hprof"] = data
		dump := k.place("d", data)
		args := y.spell(k.R, dump)
		if k.R.P(40) { // on an index that is there already
			z := all[k.R.N(len(all))]
			z.quiet = true
			k.Run(z.spell(k.R, dump)...)
		}
		// a build with the progress display takes a second
		if !y.quiet && k.N >= 2*len(all) {
			k.Run("objects", "--hprof", dump, "--non-interactive")
		}
		r := k.Run(args...)
		y.quiet = false
		if r.Exit != 0 || r.Crash() != "" {
			k.Fail("%q failed: %v", args, r)
			return
		}
		if w := want[y]; r.Stdout != w {
			others := []string{}
			for z, o := range want {
				if o == r.Stdout {
					others = append(others, fmt.Sprintf("%+v", z))
				}
			}
			k.Fail("%q does not print the report of its options %+v: %s (it is the one of %s)", args, y, firstDiff(r.Stdout, w), others)
			return
		}
		k.Seen("combinations of options", fmt.Sprintf("%+v", y))
		k.Eval(strings.Join(append(args, fmt.Sprint(d)), " "))
		if k.N < 3 {
			k.Sample(args)
		}
	})
	// --non-interactive is silent on a slow analysis, the default shows the progress
	for i, quiet := range []bool{true, false} {
		dump := k.place(fmt.Sprintf("slow%d-%d", d, i), data)
		args := []string{"summary", "--hprof", dump}
		if quiet {
			args = append(args, "--non-interactive")
		}
		_, r := k.traced(fault.Plan{Under: dump, Reads: true, Calls: []string{"read"}, At: 2, Action: "pause"}, k.Dir, func() { time.Sleep(1200 * time.Millisecond) }, args...)
		if r.Exit != 0 {
			k.Fail("%q failed: %v", args, r)
			return
		}
		if got := r.Stderr != ""; got == quiet {
			k.Fail("%q: progress display on standard error: %q", args, r.Stderr)
			return
		}
		k.Eval(fmt.Sprint("slow", d, quiet))
	}
}

// documented are the options of the README.
var documented = map[string][]string{
	"threads": {"hprof", "local-vars", "no-color", "non-interactive", "output"},
	"summary": {"all-props", "hprof", "no-color", "non-interactive", "output"},
	"objects": {"hprof", "no-color", "non-interactive", "output", "sort-by"},
}

// help asks for help, or forgets the dump.
func (k *Case) help() {
	r := k.R
	_, x, _ := Gen(k.Seed, fmt.Sprint("C24help", k.N%7), small(r), hp.DefaultEnc(8))
	dump := k.place("h", x.Data)
	home := filepath.Dir(dump)
	y := combo{cmd: hp.Pick(r, "threads", "summary", "objects"), colour: r.P(50), html: r.P(30), special: r.P(50), quiet: r.P(80)}
	args := y.spell(r, dump)
	of := []string{y.cmd}
	what := ""
	switch k.N % 5 {
	case 0:
		what, args, of = "no command", nil, []string{"threads", "summary", "objects"}
	case 1:
		what, args, of = "help", []string{hp.Pick(r, "--help", "-h", "-help", "--h", "help")}, []string{"threads", "summary", "objects"}
	case 2:
		what = "help of a command"
		at := 1 + r.N(len(args))
		for at < len(args) && !strings.HasPrefix(args[at], "-") {
			at++
		}
		args = append(args[:at:at], append([]string{hp.Pick(r, "--help", "-h", "-help", "--h")}, args[at:]...)...)
	default:
		what = "no dump"
		var rest []string
		for i := 0; i < len(args); i++ {
			if a := strings.TrimLeft(args[i], "-"); a == "hprof" {
				i++
			} else if !strings.HasPrefix(a, "hprof=") {
				rest = append(rest, args[i])
			}
		}
		args = rest
		if r.P(30) {
			args = append(args, hp.Pick(r, "--hprof=", "-hprof="))
		} else if r.P(20) {
			args = append(args, "--hprof", "")
		}
	}
	before := tree(k.Dir)
	res := k.RunOpt(cli.Opt{Dir: home, Env: []string{"TMPDIR=" + home, "HOME=" + home}}, args...)
	out := res.Stdout + res.Stderr
	if c := res.Crash(); c != "" {
		k.Fail("%s: %q: %s", what, args, c)
		return
	}
	if rep := cli.LooksLikeReport(out); rep != "" {
		k.Fail("%s: %q prints a report: %s", what, args, rep)
		return
	}
	if d := diffTree(before, tree(k.Dir)); d != "" {
		k.Fail("%s: %q changes files: %s", what, args, d)
		return
	}
	for _, cmd := range of {
		text := out
		if len(of) > 1 {
			// the part of the command
			_, t, ok := strings.Cut(out, "Usage of "+cmd)
			if ok {
				text, _, _ = strings.Cut(t, "Usage of ")
			}
			if !strings.Contains(out, cmd) {
				k.Fail("%s: %q does not mention the command %s: %q", what, args, cmd, out)
				return
			}
		}
		for _, o := range documented[cmd] {
			if !strings.Contains(text, "-"+o) {
				k.Fail("%s: %q does not explain the option -%s of %s: %q", what, args, o, cmd, text)
				return
			}
		}
	}
	k.Obs("usage printed", 1)
	k.Seen("occasions of usage", what)
	k.Eval(fmt.Sprint("help ", args))
}

func (k *Case) rejects() {
	r := k.R
	o := small(r)
	_, x, _ := Gen(k.Seed, fmt.Sprint("C24reject", k.N%7), o, hp.DefaultEnc(8))
	home := k.Path("h")
	dump := k.place("h", x.Data)
	os.MkdirAll(filepath.Join(home, "dir.hprof"), 0o755)
	os.Chmod(home, 0o777)
	os.Symlink("nowhere", filepath.Join(home, "dangling.hprof"))
	os.Symlink("loop.hprof", filepath.Join(home, "loop.hprof"))
	y := combo{cmd: hp.Pick(r, "threads", "summary", "objects"), colour: r.P(50), html: r.P(30), special: r.P(50), quiet: r.P(80)}
	indexed := r.P(40)
	if indexed {
		k.Run(combo{cmd: "objects", quiet: true}.spell(r, dump)...)
	}
	args := y.spell(r, dump)
	uid := 0
	what := ""
	put := func(s ...string) {
		// anywhere between options
		at := 1 + r.N(len(args))
		for at < len(args) && !strings.HasPrefix(args[at], "-") {
			at++
		}
		args = append(args[:at:at], append(s, args[at:]...)...)
	}
	kind := k.N % 4
	switch kind {
	case 0: // unknown options
		o := hp.Pick(r, "nocolor", "no-colors", "no-colour", "color", "local", "local-var", "local-vars2", "localvars", "allprops", "all", "props", "sort", "sort-By", "sortby", "out", "outputs", "html", "plain", "hprof2", "Hprof", "hprof-file", "v", "verbose", "version", "x", "non-Interactive", "interactive", "noninteractive", "NO-COLOR", "n", "o", "f", "file", "quiet", "all-Props", "size", "count")
		s := hp.Pick(r, "-", "--") + o + hp.Pick(r, "", "", "=1", "=html", "=true")
		put(s)
		what = "unknown option " + s
	case 1: // options of other commands
		o := map[string][]string{
			"threads": {"all-props", "sort-by=size", "all-props=true", "sort-by=count"},
			"summary": {"local-vars", "sort-by=size", "local-vars=true", "sort-by=count"},
			"objects": {"all-props", "local-vars", "local-vars=true", "all-props=false"},
		}[y.cmd]
		s := hp.Pick(r, "-", "--") + o[r.N(len(o))]
		put(s)
		what = "option of another command " + s
	case 2: // unknown values
		n := "output"
		v := hp.Pick(r, "HTML", "Html", "htm", "htmll", "xml", "json", "text", "txt", "Plain", "PLAIN", "plain ", " plain", "html,plain", "0", "1", "true", "size", "count", "html\n", "no", "-", "*", "plainhtml")
		if y.cmd == "objects" && r.P(60) {
			n = "sort-by"
			v = hp.Pick(r, "Size", "SIZE", "Count", "counts", "sizes", "name", "class", "none", "size ", " count", "0", "1", "true", "html", "plain", "size,count", "-size", "-count", "bytes", "instances", "total", "sizecount")
		}
		if r.P(15) { // a value for a boolean
			n = hp.Pick(r, "no-color", "non-interactive")
			v = hp.Pick(r, "yes", "no", "2", "on", "off", "maybe", "tRue")
			put("--" + n + "=" + v)
		} else if r.P(50) {
			put(hp.Pick(r, "-", "--") + n + "=" + v)
		} else {
			put(hp.Pick(r, "-", "--")+n, v)
		}
		what = fmt.Sprintf("value %q of --%s", v, n)
	case 3: // unreadable
		bad := hp.Pick(r, "missing.hprof", "dir.hprof", "dangling.hprof", "loop.hprof", "nodir/d.hprof", "d.hprof/d.hprof", "locked.hprof", "locked.hprof", ".", "..", "lockeddir/d.hprof", strings.Repeat("x", 300)+".hprof")
		what = "unreadable dump " + cut(bad, 30)
		if strings.HasPrefix(bad, "locked") && k.Nobody() == 0 {
			bad = "missing.hprof"
		}
		if strings.HasPrefix(bad, "locked") {
			uid = k.Nobody()
			if bad == "locked.hprof" {
				os.WriteFile(filepath.Join(home, bad), x.Data, 0o200)
			} else {
				os.Mkdir(filepath.Join(home, "lockeddir"), 0o700)
				os.WriteFile(filepath.Join(home, bad), x.Data, 0o644)
			}
		}
		p := filepath.Join(home, bad)
		if bad == "." || bad == ".." || bad == "nodir/d.hprof" && r.P(50) {
			p = bad
		}
		args = y.spell(r, p)
	}
	// what the tool sees is in k.Dir; home is watched
	before := tree(k.Dir)
	res := k.RunOpt(cli.Opt{Dir: home, Uid: uid, Env: []string{"TMPDIR=" + home, "HOME=" + home}}, args...)
	if err := res.Refused(); err != nil {
		k.Fail("%s: %q is not refused: %v", what, args, err)
		return
	}
	if d := diffTree(before, tree(k.Dir)); d != "" {
		k.Fail("%s: %q is refused, but files were changed: %s", what, args, d)
		return
	}
	k.Obs([]string{"unknown options refused", "options of other commands refused", "unknown values refused", "unreadable dumps refused"}[kind], 1)
	k.Seen("things refused", what)
	k.Eval(fmt.Sprint(what, y, indexed))
}
