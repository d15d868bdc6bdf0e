package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"vh/cli"
	"vh/hp"
	"vh/ref"
	"vh/view"
)

func init() {
	register("C21", "exploration",
		"each heap is written in many encodings (segments of 1 to all sub-records, empty segments, top-level records shuffled and behind segments, sub-records grouped, interleaved or in turn, identifiers of objects, strings and frames over the whole range, permuted serials, time stamps, equal strings with several records, several gigabytes of other objects before, 4- and 8-byte identifiers); all reports, plain and HTML, must be equal to those of the first encoding, between identifier sizes except for sizes of reference arrays and the totals; also equal with the oracle; distinct by heap and encoding",
		checkEncodings)
}

// one dimension of an encoding changed.
var dims = []struct {
	name string
	f    func(r *hp.Rng, e *hp.Enc)
}{
	{"segments", func(r *hp.Rng, e *hp.Enc) { e.SegMax = hp.Pick(r, 1, 2, 5, 50) }},
	{"empty segments", func(r *hp.Rng, e *hp.Enc) { e.EmptySegs, e.SegMax = true, hp.Pick(r, 1, 5, 50) }},
	{"order of top-level records", func(r *hp.Rng, e *hp.Enc) { e.Shuffle = true }},
	{"top-level records behind segments", func(r *hp.Rng, e *hp.Enc) {
		e.AfterHeap, e.SegMax, e.Shuffle = hp.Pick(r, 10, 50, 100), hp.Pick(r, 0, 1, 10, 100), r.P(50)
	}},
	{"interleaving", func(r *hp.Rng, e *hp.Enc) { e.Interleave = 1 + r.N(3) }},
	{"object identifiers", func(r *hp.Rng, e *hp.Enc) {
		x := hp.RandomEnc(r, e.IDSize)
		e.ObjBase, e.ObjGap, e.ObjAlign = x.ObjBase, x.ObjGap, x.ObjAlign
	}},
	{"string identifiers", func(r *hp.Rng, e *hp.Enc) {
		x := hp.RandomEnc(r, e.IDSize)
		e.StrBase, e.StrStride, e.StrRandom = x.StrBase, x.StrStride, r.P(70)
	}},
	{"frame identifiers", func(r *hp.Rng, e *hp.Enc) {
		e.FrameBase, e.FrameStep = hp.Pick[uint64](r, 1, 0x1000, 0x7fffff00, 0xffff0000), hp.RandomEnc(r, e.IDSize).FrameStep
	}},
	{"serials", func(r *hp.Rng, e *hp.Enc) { e.Serials, e.Seed = true, int64(r.N(1<<30)) }},
	{"time stamps", func(r *hp.Rng, e *hp.Enc) { e.Times = true }},
	{"equal strings", func(r *hp.Rng, e *hp.Enc) { e.DupStr, e.Seed = true, int64(r.N(1<<30)) }},
	{"everything", func(r *hp.Rng, e *hp.Enc) { *e = hp.RandomEnc(r, e.IDSize) }},
}

// across makes a plain report comparable between identifier sizes.
func across(v []string, out string) (string, error) {
	switch v[0] {
	case "threads":
		return out, nil
	case "summary":
		// values may contain anything, the statistics come before them
		i := strings.Index(out, "Heap Size:")
		if i < 0 {
			return "", fmt.Errorf("no Heap Size")
		}
		j := i + strings.IndexByte(out[i:], '\n')
		return out[:i] + out[j:], nil
	}
	t, err := view.ParseObjects(out)
	if err != nil {
		return "", err
	}
	s := "Instances: " + t.Instances + "\n"
	for _, r := range t.Rows {
		size := r.Size
		if strings.HasSuffix(r.Name, "]") {
			name := strings.TrimRight(r.Name, "[]")
			_, isPrim := primWidth[name]
			if !isPrim || strings.Count(r.Name, "[") > 1 {
				size = "-"
			}
		}
		s += fmt.Sprintln(r.Name, r.Count, r.CountPct, size)
	}
	return s, nil
}

var primWidth = map[string]int{"boolean": 1, "byte": 1, "short": 2, "char": 2, "int": 4, "float": 4, "long": 8, "double": 8}

func checkEncodings(c *Ctx) {
	vs := [][]string{{"threads", "--local-vars"}, {"summary", "--all-props"}, {"objects"}, {"objects", "--sort-by", "size"}}
	c.CasesFor("heap", 24, c.Pick(1000000, 10000000), 0.75, func(k *Case) {
		r := k.R
		o := hp.RandomOpts(r)
		if r.P(40) {
			o = small(r)
		}
		o.NoJVM = false
		g := hp.Gen(k.Seed, fmt.Sprint("C21", k.N), o)
		type report struct{ out map[string]string }
		first := map[int]*report{}
		idSizes := []int{8, 4}
		if r.P(50) {
			idSizes = []int{4, 8}
		}
		var names []string
		for _, id := range idSizes {
			n := 3
			for j := 0; j < n; j++ {
				e := hp.DefaultEnc(id)
				what := "as HotSpot does"
				if j > 0 {
					d := dims[r.N(len(dims))]
					d.f(r, &e)
					what = d.name
					if r.P(30) {
						d := dims[r.N(len(dims))]
						d.f(r, &e)
						what += " and " + d.name
					}
				}
				names = append(names, what)
				_, x, m := encode(g, e)
				dump := k.place(fmt.Sprint("e", id, j), x.Data)
				k.files[fmt.Sprintf("%d-%d.hprof", id, j)] = x.Data
				rep := &report{map[string]string{}}
				for _, v := range vs {
					for _, out := range []string{"plain", "html"} {
						if out == "html" && v[0] == "objects" && len(v) > 1 {
							continue
						}
						res := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, append(vargs(v, dump), "--output", out)...)
						if res.Exit != 0 || res.Crash() != "" {
							k.Fail("%s fails on a heap with %d-byte identifiers, %s: %v", vname(v), id, what, res)
							return
						}
						if out == "plain" {
							if err := Oracle(v, res.Stdout, m); err != nil {
								k.Fail("%s on a heap with %d-byte identifiers, %s: %v", vname(v), id, what, err)
								return
							}
						}
						rep.out[vname(v)+" "+out] = res.Stdout
						k.Obs("reports", 1)
					}
				}
				os.RemoveAll(filepath.Dir(dump))
				f := first[id]
				if f == nil {
					first[id] = rep
					f = rep
				}
				for n, s := range rep.out {
					if s != f.out[n] {
						k.Fail("%s of one heap depends on its encoding (%d-byte identifiers; %s, file %d-%d): %s", n, id, what, id, j, firstDiff(s, f.out[n]))
						return
					}
					k.Obs("reports compared with another encoding", 1)
				}
				k.Seen("differences of the encoding", what)
				k.Eval(fmt.Sprint(k.N, id, e))
			}
		}
		for _, v := range vs {
			if len(v) > 1 && v[0] == "objects" {
				continue // the order depends on sizes
			}
			n := vname(v) + " plain"
			a, err1 := across(v, first[4].out[n])
			b, err2 := across(v, first[8].out[n])
			if err1 != nil || err2 != nil {
				k.Fail("%s cannot be understood: %v %v", n, err1, err2)
				return
			}
			if a != b {
				k.Fail("%s of one heap depends on the size of identifiers (files 4-0 and 8-0): %s", n, firstDiff(a, b))
				return
			}
			k.Obs("reports compared between sizes of identifiers", 1)
		}
		if k.N < 2 {
			k.Sample(names)
		}
	})
	c.bigShift()
}

// bigShift puts gigabytes between the records of a heap.
func (c *Ctx) bigShift() {
	c.CasesFor("far", c.Pick(3, 8), c.Pick(3, 60), 1, func(k *Case) {
		r := k.R
		id := hp.Pick(r, 4, 8)
		if k.N < 2 {
			id = 4 + 4*k.N
		}
		o := small(r)
		g := hp.Gen(k.Seed, fmt.Sprint("C21far", k.N), o)
		e := hp.RandomEnc(r, id)
		e.ObjBase = hp.Pick[uint64](r, 0x1000, 0x10000000)
		e.AfterHeap, e.SegMax = hp.Pick(r, 0, 30, 60), hp.Pick(r, 3, 20, 100)
		_, x, m := encode(g, e)
		b := &hp.Bulk{IDSize: id}
		n := 1 + r.N(4)
		var ps []hp.Piece
		for i := 0; i < n; i++ {
			size := hp.Pick[uint32](r, 1<<31-1000, 1<<31+5, 1<<30, 3<<30, 1<<32-1000)
			ps = append(ps, b.ZeroArray(uint64(16+i), size))
			m.More = append(m.More, ref.More{Kind: 'p', T: hp.TByte, Count: 1, Elems: int(size)})
		}
		// primitive arrays must not go backward: the large ones come first
		seg := m.FirstSeg()
		all := hp.SpliceAt(x.Data, seg, ps...)
		d := k.Path("d")
		os.Mkdir(d, 0o755)
		if err := all.WriteFile(filepath.Join(d, "d.hprof")); err != nil {
			fatal("%v", err)
		}
		for _, v := range vs3(r) {
			res := k.RunOpt(cli.Opt{Dir: d}, vargs(v, "d.hprof")...)
			if res.Exit != 0 || res.Crash() != "" {
				k.Fail("%s fails when there are %d bytes before the heap: %v", vname(v), all.Len()-int64(len(x.Data)), res)
				return
			}
			if err := Oracle(v, res.Stdout, m); err != nil {
				k.Fail("%s is wrong when there are %d bytes before the heap: %v", vname(v), all.Len()-int64(len(x.Data)), err)
				return
			}
		}
		k.Obs("heaps behind gigabytes of other objects", 1)
		k.Max("bytes before a heap", int(all.Len())-len(x.Data))
		k.Eval(fmt.Sprint("far", k.N, all.Len()))
	})
}

func vs3(r *hp.Rng) [][]string { return shuffled(r, three) }
