package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"vh/cli"
	"vh/hp"
	"vh/ref"
	"vh/view"
)

// command variants with everything that is reported
var full = [][]string{
	{"threads", "--local-vars"}, {"threads"}, {"summary", "--all-props"}, {"summary"}, {"objects"}, {"objects", "--sort-by", "size"},
}

// commands without options, of each the one with most facts
var three = [][]string{{"threads", "--local-vars"}, {"summary", "--all-props"}, {"objects"}}

func vname(v []string) string { return strings.Join(v, " ") }

// vargs are the arguments of a variant, without colours.
func vargs(v []string, dump string) []string {
	return append(Args(v[0], dump, "--no-color"), v[1:]...)
}

// Oracle compares a report (without colours) with the model of the dump.
func Oracle(v []string, out string, m *ref.Model) error {
	has := func(o string) bool {
		for _, x := range v[1:] {
			if strings.TrimLeft(x, "-") == o {
				return true
			}
		}
		return false
	}
	switch v[0] {
	case "threads":
		return view.CheckThreads(out, m.Threads(), has("local-vars"))
	case "summary":
		return view.CheckSummary(out, view.SummarySections(m.Summary(), has("all-props")))
	}
	t, err := view.ParseObjects(out)
	if err == nil {
		err = view.CheckObjects(t, m)
	}
	if err == nil {
		err = view.CheckOrder(t, m, has("size"))
	}
	return err
}

// Truth is what a dump's reports are: taken from a fresh copy each and
// compared with the oracle.
type Truth struct {
	Data []byte
	M    *ref.Model
	Out  map[string]string // by name of the variant
	Args map[string][]string
}

// Truth takes the reports of vs from fresh copies; nil after a failure.
func (k *Case) Truth(label string, data []byte, m *ref.Model, vs [][]string) *Truth {
	t := &Truth{Data: data, M: m, Out: map[string]string{}, Args: map[string][]string{}}
	for i, v := range vs {
		d := k.Path(fmt.Sprintf("fresh-%s-%d", label, i))
		if err := os.Mkdir(d, 0o755); err != nil {
			fatal("%v", err)
		}
		p := filepath.Join(d, "d.hprof")
		if err := os.WriteFile(p, data, 0o644); err != nil {
			fatal("%v", err)
		}
		k.files[label+".hprof"] = data
		r := k.RunOpt(cli.Opt{Dir: d}, vargs(v, p)...)
		if r.Exit != 0 || r.Crash() != "" {
			k.Fail("%s failed on a well-formed dump (%s.hprof): %v", vname(v), label, r)
			return nil
		}
		if m != nil {
			if err := Oracle(v, r.Stdout, m); err != nil {
				k.Fail("%s of a fresh dump (%s.hprof) is wrong: %v", vname(v), label, err)
				return nil
			}
		}
		t.Out[vname(v)] = r.Stdout
		t.Args[vname(v)] = v
		os.RemoveAll(d)
	}
	return t
}

// Names of the variants in order.
func names(vs [][]string) (out []string) {
	for _, v := range vs {
		out = append(out, vname(v))
	}
	return
}

// Right checks that a run printed exactly the report.
func (t *Truth) Right(v []string, r *cli.Result) error {
	if c := r.Crash(); c != "" {
		return fmt.Errorf("%s: %s", vname(v), c)
	}
	if r.Exit != 0 {
		return fmt.Errorf("%s: exit status %d: %q %q", vname(v), r.Exit, cut(r.Stdout, 300), cut(r.Stderr, 300))
	}
	if w, ok := t.Out[vname(v)]; !ok {
		panic("unknown variant " + vname(v))
	} else if r.Stdout != w {
		return fmt.Errorf("%s: the report is wrong: %s", vname(v), firstDiff(r.Stdout, w))
	}
	return nil
}

// RightOrRefused also allows clean errors.
func (t *Truth) RightOrRefused(v []string, r *cli.Result) error {
	if r.Exit == 0 {
		return t.Right(v, r)
	}
	if err := r.Refused(); err != nil {
		return fmt.Errorf("%s: neither the right report nor a clean error: %v", vname(v), err)
	}
	return nil
}

// small is a world of a JVM that is small, but has something of everything.
func small(r *hp.Rng) hp.Opts {
	return hp.Opts{Names: r.N(2), Texts: r.N(2), Classes: 1 + r.N(3), Objects: 2 + r.N(15), Threads: 1 + r.N(3), MaxDepth: 3,
		Props: hp.Pick(r, 2, 4), Locals: 2, Shadow: r.P(30), OtherRoots: r.P(50), Chains: true}
}

// overReports runs all commands on one dump, the first without an index and
// the rest through it, and compares with the oracle.
func (c *Ctx) overReports(label string, min int, share float64, tune func(k *Case, o *hp.Opts)) {
	c.CasesFor(label, min, c.Pick(1000000, 10000000), share, func(k *Case) {
		o := hp.RandomOpts(k.R)
		if tune != nil {
			tune(k, &o)
		}
		_, x, m := Gen(k.Seed, fmt.Sprint(k.ID, label, k.N), o, hp.RandomEnc(k.R, idSize(k.R)))
		dump := k.Write("d.hprof", x.Data)
		n := len(full)
		off := k.R.N(n)
		for i := range full {
			v := full[(i+off)%n]
			r := k.Run(vargs(v, dump)...)
			if r.Exit != 0 || r.Crash() != "" {
				k.Fail("%s failed on a well-formed dump (command %d on it): %v", vname(v), i+1, r)
				return
			}
			if err := Oracle(v, r.Stdout, m); err != nil {
				k.Fail("%s (command %d on the dump): %v", vname(v), i+1, err)
				return
			}
			k.Obs("reports compared with the dump", 1)
		}
		k.Eval(label + optsKey(o, hp.Enc{}) + fmt.Sprint(len(x.Data)))
	})
}
