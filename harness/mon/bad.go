package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"vh/cli"
	"vh/hp"
	"vh/ref"
)

func init() {
	register("C16", "exploration",
		"every prefix of small dumps and, for larger ones, the prefixes around every record and sub-record boundary and random ones; first and later runs of all commands, with and without the progress display, after a complete analysis too; the complete dump must be accepted; non-trivial if the header is complete; distinct by dump and length",
		checkTruncated)
	register("C17", "exploration",
		"one anomaly inserted into a well-formed dump: every header byte, identifier sizes, every unknown record and sub-record kind at every kind of place (before the first, between, after the last; empty and with bodies), two objects of a kind out of order (neighbours, across segments, around the index batch, around 2^31, 2^32 and 2^63); each must be refused by all commands, on first and later runs; roots of all kinds the format defines must be accepted and counted; distinct by anomaly and dump",
		checkAnomalies)
}

// refusedTwice runs two commands on a bad dump.
func (k *Case) refusedTwice(dump, what string, vs ...[]string) bool {
	for i, v := range vs {
		args := vargs(v, dump)
		r := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump), Timeout: 60e9}, args...)
		if err := r.Refused(); err != nil {
			k.Fail("%s: run %d (%s) is not refused: %v", what, i+1, vname(v), err)
			return false
		}
		k.Obs("refusals seen", 1)
	}
	return true
}

func checkTruncated(c *Ctx) {
	// tiny dumps: every prefix
	c.One("tiny", 0, func(k *Case) {
		for d := 0; d < c.Pick(2, 40); d++ {
			if d > 0 && c.Over() {
				return
			}
			o := hp.Opts{NoJVM: true, Classes: 1 + d%3, Objects: 2 + d%5, Threads: -1}
			e := hp.RandomEnc(k.R, []int{8, 4}[d%2])
			if d%3 == 2 {
				e.Tail = []byte{1, 0, 0, 0, 0, 0, 0, 0, 9, 9, 9, 9, 9, 9, 9, 9, 9, 65}
			}
			_, x, m := Gen(k.Seed, fmt.Sprint("C16tiny", d), o, e)
			ok := k.place("whole", x.Data[:m.End])
			r := k.Run(vargs(three[2], ok)...)
			if err := Oracle(three[2], r.Stdout, m); err != nil || r.Exit != 0 {
				k.Fail("the complete dump is not analysed: %v %v", err, r)
				return
			}
			os.RemoveAll(filepath.Dir(ok))
			k.Max("bytes of a dump cut everywhere", m.End)
			c.CasesFor(fmt.Sprint("tiny", d), m.End, m.End, 1, func(k *Case) {
				dump := k.place("d", x.Data[:k.N])
				k.files["d.hprof"] = x.Data[:k.N]
				if k.refusedTwice(dump, fmt.Sprintf("dump of %d bytes cut to %d", m.End, k.N), three[2], three[k.R.N(3)]) {
					k.Eval(prefixKey(d, k.N))
				}
			})
		}
	})
	// dumps of JVMs
	c.CasesFor("jvm", 12, c.Pick(1000000, 10000000), 1, func(k *Case) {
		r := k.R
		o := small(r)
		if r.P(20) {
			o = hp.RandomOpts(r)
		}
		_, x, m := Gen(k.Seed, fmt.Sprint("C16jvm", k.N), o, hp.RandomEnc(r, idSize(r)))
		t := k.Truth("whole", x.Data, m, three)
		if t == nil {
			return
		}
		var cuts []int
		for i := 0; i < c.Pick(30, 100); i++ {
			cuts = append(cuts, m.Bounds[r.N(len(m.Bounds))]+r.Range(-1, 1), r.N(m.End))
		}
		// around the records of the end
		cuts = append(cuts, m.End-1, m.End-8, m.End-9, m.End-10, 31, 30, 19, 0)
		for i, n := range cuts {
			if n < 0 || n >= m.End {
				continue
			}
			data := x.Data[:n]
			k.files["d.hprof"] = data
			v, w := full[r.N(len(full))], full[r.N(len(full))]
			switch {
			case i%10 == 3: // after a complete analysis
				dump := k.place(fmt.Sprint("d", i), x.Data)
				if !k.follow(t, dump, "fresh", three[:1]) {
					return
				}
				fi, _ := os.Stat(dump)
				if r.P(50) {
					os.Truncate(dump, int64(n))
				} else {
					os.WriteFile(dump+"~", data, 0o644)
					os.Rename(dump+"~", dump)
				}
				os.Chtimes(dump, fi.ModTime(), fi.ModTime())
				if !k.refusedTwice(dump, fmt.Sprintf("dump of %d bytes cut to %d after it was analysed", m.End, n), v, w) {
					return
				}
				k.Obs("cut after an analysis", 1)
				os.RemoveAll(filepath.Dir(dump))
			case i%25 == 5: // with the progress display
				dump := k.place(fmt.Sprint("d", i), data)
				res := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, v[0], "--hprof", dump)
				if err := res.Refused(); err != nil {
					k.Fail("dump of %d bytes cut to %d, interactive %s: not refused: %v", m.End, n, v[0], err)
					return
				}
				os.RemoveAll(filepath.Dir(dump))
			default:
				dump := k.place(fmt.Sprint("d", i), data)
				if !k.refusedTwice(dump, fmt.Sprintf("dump of %d bytes cut to %d", m.End, n), v, w) {
					return
				}
				os.RemoveAll(filepath.Dir(dump))
			}
			k.Eval(prefixKey(1000+k.N, n))
		}
	})
	// big: cut behind the first index batch
	c.CasesFor("bulk", c.Pick(1, 6), c.Pick(1, 6), 1, func(k *Case) {
		t, n := k.bulk()
		if t == nil {
			return
		}
		for i := 0; i < 2; i++ {
			b := t.M.Bounds[len(t.M.Bounds)-1-k.R.N(1000)]
			k.files = map[string][]byte{}
			dump := k.place("d", t.Data[:b])
			if !k.refusedTwice(dump, fmt.Sprintf("dump of %d objects and %d bytes (C16 bulk case %d) cut to %d", n, t.M.End, k.N, b), three[k.R.N(3)], three[2]) {
				return
			}
			k.Eval(prefixKey(-1, b))
		}
	})
}

func prefixKey(d, n int) string {
	if n < 31 {
		return ""
	}
	return fmt.Sprint(d, n)
}

// rec is a top-level record.
func rec(tag byte, body []byte) []byte {
	b := []byte{tag, 0, 0, 0, 7}
	b = binary.BigEndian.AppendUint32(b, uint32(len(body)))
	return append(b, body...)
}

func insert(d []byte, at int, x []byte) []byte {
	out := append([]byte{}, d[:at]...)
	out = append(out, x...)
	return append(out, d[at:]...)
}

// insertSub puts bytes into a segment, at a position inside, and adjusts its length.
func insertSub(m *ref.Model, d []byte, at int, seg ref.Rec, x []byte) []byte {
	out := insert(d, at, x)
	binary.BigEndian.PutUint32(out[seg.Off+5:], uint32(seg.End-seg.Off-9+len(x)))
	return out
}

// segments of a dump that are not empty
func segs(m *ref.Model) (out []ref.Rec) {
	for _, t := range m.Top {
		if t.Tag == 0x1c && t.End > t.Off+9 {
			out = append(out, t)
		}
	}
	return
}

// places in a segment where a sub-record may start
func places(m *ref.Model, seg ref.Rec) (out []int) {
	for _, s := range m.Subs {
		if s.Off >= seg.Off && s.End <= seg.End {
			out = append(out, s.Off)
		}
	}
	return append(out, seg.End)
}

var knownTags = map[int]bool{1: true, 2: true, 4: true, 5: true, 0x1c: true, 0x2c: true}

var knownSubs = map[int]bool{0xff: true, 1: true, 2: true, 3: true, 4: true, 5: true, 6: true, 7: true, 8: true, 0x20: true, 0x21: true, 0x22: true, 0x23: true}

func checkAnomalies(c *Ctx) {
	c.overJVM(three)
	var systematic []func(k *Case, t *Truth) (string, []byte)
	add := func(f func(k *Case, t *Truth) (string, []byte)) { systematic = append(systematic, f) }
	for i := 0; i < 19; i++ {
		add(func(k *Case, t *Truth) (string, []byte) {
			d := append([]byte{}, t.Data...)
			d[i] ^= byte(1 + k.R.N(255))
			return fmt.Sprintf("header %q", d[:19]), d
		})
	}
	for _, h := range []string{"JAVA PROFILE 1.0.1\x00", "JAVA PROFILE 1.0\x00", "JAVA PROFILE 1.0.3\x00", "JAVA PROFILE 1.0.20\x00", "java profile 1.0.2\x00", "JAVA PROFILE 1.0.2 \x00", "JAVA PROFILE 1.0.2\n", " JAVA PROFILE 1.0.2\x00", "\x00", "", "JAVA PROFILE \x00", "JAVA PROFILE 1.0.2.1\x00", "JAVA PROFILE 1.0.2", "JAVA PROFILE 1.0.2\x00\x00", "JAVA PROFILE 1.0.2x\x00", "XJAVA PROFILE 1.0.2\x00"} {
		add(func(k *Case, t *Truth) (string, []byte) {
			return fmt.Sprintf("header %q", h), append([]byte(h), t.Data[19:]...)
		})
	}
	for _, n := range []uint32{0, 1, 2, 3, 5, 6, 7, 9, 10, 12, 16, 32, 64, 127, 128, 255, 256, 260, 264, 65536, 0x04000000, 0x08000000, 0x00080000, 0x40000004, 0x7fffffff, 0x80000000, 0x80000004, 0x80000008, 0xfffffff8, 0xfffffffc, 0xffffffff, 0x100000008 & 0xffffffff &^ 8} {
		add(func(k *Case, t *Truth) (string, []byte) {
			d := append([]byte{}, t.Data...)
			binary.BigEndian.PutUint32(d[19:], n)
			return fmt.Sprintf("identifier size %d", n), d
		})
	}
	for i := 0; i < 8; i++ {
		add(func(k *Case, t *Truth) (string, []byte) {
			n := k.R.Uint32()
			if k.R.P(60) { // right in some bits
				n = n&^hp.Pick[uint32](k.R, 0xff, 0xffff, 0xf, 0x1f) | hp.Pick[uint32](k.R, 4, 8)
			}
			if n == 4 || n == 8 {
				n++
			}
			d := append([]byte{}, t.Data...)
			binary.BigEndian.PutUint32(d[19:], n)
			return fmt.Sprintf("identifier size %d", n), d
		})
	}
	// the same of dumps that have next to nothing else
	for _, f := range systematic[:len(systematic):len(systematic)] {
		add(func(k *Case, t *Truth) (string, []byte) {
			d := append([]byte{}, t.Data[:31]...)
			what := "empty dump: "
			switch k.R.N(4) {
			case 0:
				d = append(d, rec(0x1c, nil)...)
				what = "dump of an empty segment: "
			case 1:
				s := "only a string"
				d = append(d, rec(1, append(make([]byte, t.M.IDSize), s...))...)
				what = "dump of one string: "
			}
			d = append(d, rec(0x2c, nil)...)
			w, d := f(k, &Truth{Data: d})
			return what + w, d
		})
	}
	for tag := 0; tag < 256; tag++ {
		if knownTags[tag] {
			continue
		}
		add(func(k *Case, t *Truth) (string, []byte) {
			d := append([]byte{}, t.Data[:31]...)
			d = append(d, rec(byte(tag), make([]byte, hp.Pick(k.R, 0, 0, 4, 9)))...)
			return fmt.Sprintf("empty dump with a record of kind %#x", tag), append(d, rec(0x2c, nil)...)
		})
		for mode := 0; mode < 3; mode++ {
			add(func(k *Case, t *Truth) (string, []byte) {
				switch mode {
				case 0: // a record of its own
					x := t.M.Top[k.R.N(len(t.M.Top))]
					body := make([]byte, hp.Pick(k.R, 0, 0, 4, 8, 12, 24, 9))
					return fmt.Sprintf("record of kind %#x with %d bytes before the one at %d", tag, len(body), x.Off), insert(t.Data, x.Off, rec(byte(tag), body))
				case 1: // just before the end record
					x := t.M.Top[len(t.M.Top)-1]
					return fmt.Sprintf("record of kind %#x before the end record", tag), insert(t.Data, x.Off, rec(byte(tag), nil))
				}
				x := t.M.Top[k.R.N(len(t.M.Top))]
				d := append([]byte{}, t.Data...)
				d[x.Off] = byte(tag)
				return fmt.Sprintf("record of kind %#x instead of %#x at %d", tag, x.Tag, x.Off), d
			})
		}
	}
	for tag := 0; tag < 256; tag++ {
		if knownSubs[tag] {
			continue
		}
		for mode := 0; mode < 3; mode++ {
			add(func(k *Case, t *Truth) (string, []byte) {
				s := segs(t.M)
				seg := s[k.R.N(len(s))]
				at := places(t.M, seg)
				p := at[k.R.N(len(at))]
				if mode == 1 {
					p = at[len(at)-1] // last of the segment
				}
				if mode == 2 {
					x := t.M.Subs[k.R.N(len(t.M.Subs))]
					d := append([]byte{}, t.Data...)
					d[x.Off] = byte(tag)
					return fmt.Sprintf("sub-record of kind %#x instead of %#x at %d", tag, x.Tag, x.Off), d
				}
				x := append([]byte{byte(tag)}, make([]byte, hp.Pick(k.R, 0, 0, t.M.IDSize, t.M.IDSize*2, t.M.IDSize+8))...)
				return fmt.Sprintf("sub-record of kind %#x with %d bytes at %d of the segment at %d to %d", tag, len(x)-1, p, seg.Off, seg.End), insertSub(t.M, t.Data, p, seg, x)
			})
		}
	}
	// segments that claim bytes of the record behind them: its kind is no kind of sub-record
	for _, n := range []int{1, 2, 8, 9, 1, 1, 1, 1} {
		for mode := 0; mode < 2; mode++ {
			add(func(k *Case, t *Truth) (string, []byte) {
				var next []ref.Rec
				for i, x := range t.M.Top {
					last := i == len(t.M.Top)-1
					if (x.Tag == 0x1c || x.Tag == 0x2c) && (mode == 0 || i > 0 && t.M.Top[i-1].Tag == 0x1c && t.M.Top[i-1].End > t.M.Top[i-1].Off+9) && (!last || n <= 9) {
						next = append(next, x)
					}
				}
				if len(next) == 0 { // the last segment has no length
					x := t.M.Top[len(t.M.Top)-1]
					return "segment of one byte, that of the end record", insert(t.Data, x.Off, append(rec(0x1c, nil)[:8], 1))
				}
				x := next[k.R.N(len(next))]
				if k.R.P(40) {
					x = next[len(next)-1]
				}
				if mode == 0 {
					d := insert(t.Data, x.Off, rec(0x1c, nil))
					binary.BigEndian.PutUint32(d[x.Off+5:], uint32(n))
					return fmt.Sprintf("segment of %d bytes, those of the record of kind %#x at %d", n, x.Tag, x.Off), d
				}
				d := append([]byte{}, t.Data...)
				for _, y := range t.M.Top {
					if y.End == x.Off {
						binary.BigEndian.PutUint32(d[y.Off+5:], uint32(y.End-y.Off-9+n))
					}
				}
				return fmt.Sprintf("segment that claims %d bytes of the record of kind %#x at %d", n, x.Tag, x.Off), d
			})
		}
	}
	c.CasesFor("kinds", len(systematic), c.Pick(len(systematic), 20*len(systematic)), 1, func(k *Case) {
		t := k.base()
		if t == nil {
			return
		}
		what, d := systematic[k.N%len(systematic)](k, t)
		k.Obs("anomalies of kinds, headers and sizes", 1)
		k.anomaly(t, what, d)
	})
	// order
	c.CasesFor("order", 150, c.Pick(1000000, 10000000), 0.6, func(k *Case) {
		r := k.R
		o := small(r)
		o.Objects = 5 + r.N(80)
		_, x, m := Gen(k.Seed, fmt.Sprint("C17order", k.N), o, hp.RandomEnc(r, idSize(r)))
		t := &Truth{Data: x.Data, M: m}
		kind := hp.Pick[byte](r, 0x21, 0x22, 0x23)
		var subs []ref.Rec
		for _, s := range m.Subs {
			if s.Tag == kind {
				subs = append(subs, s)
			}
		}
		if len(subs) < 2 {
			return
		}
		i := r.N(len(subs) - 1)
		j := i + 1
		switch r.N(4) {
		case 0:
			j = i + 1 + r.N(len(subs)-i-1)
		case 1:
			i, j = len(subs)-2, len(subs)-1
		case 2:
			i, j = 0, 1
		}
		d := x.Data
		what := ""
		if r.P(50) { // swap the identifiers only
			d = append([]byte{}, d...)
			a, b := d[subs[i].Off+1:], d[subs[j].Off+1:]
			for n := 0; n < m.IDSize; n++ {
				a[n], b[n] = b[n], a[n]
			}
			what = "identifiers of objects"
		} else { // swap the records
			d = swapSubs(m, d, subs[i], subs[j])
			what = "objects"
		}
		what = fmt.Sprintf("%s %d and %d (of %d of kind %#x) swapped, segments %d and %d", what, i, j, len(subs), kind, subs[i].In, subs[j].In)
		k.Obs("dumps with objects out of order", 1)
		k.Obs("out of order across segments", b2i(subs[i].In != subs[j].In))
		k.Seen("kinds out of order", fmt.Sprintf("%#x", kind))
		k.anomaly(t, what, d)
	})
	// order at the edges of the index batch and of the number ranges
	ranges := []uint64{1, 1<<31 - 500_000, 1<<32 - 500_000, 1<<63 - 500_000, 1<<64 - 1_500_000}
	c.CasesFor("bulk order", c.Pick(6, 8), c.Pick(6, 60), 1, func(k *Case) {
		r := k.R
		id := 8
		base := ranges[r.N(len(ranges))]
		kind := k.N % 3
		_, x, m := Gen(k.Seed, "C17bulk", hp.Opts{NoJVM: true, Classes: 2, Threads: -1}, hp.DefaultEnc(id))
		var class uint64
		for cid := range m.Class {
			class = cid
		}
		b := &hp.Bulk{IDSize: id}
		n := 1_000_006
		bad := hp.Pick(r, 1_000_000, 1_000_001, 1_000_002, 999_999, 1_000_003)
		if base > 1 && base != ranges[4] && r.P(50) {
			bad = 500_000 // at the edge of the range
		}
		var ps []hp.Piece
		for j := 0; j < n; j++ {
			i := base + 2*uint64(j)
			if bad == 500_000 {
				i = base + uint64(j)
			}
			if j == bad {
				i -= hp.Pick[uint64](r, 3, 5, 100, 1000)
			}
			switch kind {
			case 0:
				b.Inst(i, class)
			case 1:
				b.ObjArr(i, class, 0)
			case 2:
				b.Prim(i, nil)
			}
			if b.Len() > 16<<20 {
				ps = append(ps, b.Segment())
			}
		}
		ps = append(ps, b.Segment())
		all := hp.SpliceAt(x.Data, m.FirstSeg(), ps...)
		dump := filepath.Join(k.Path("d"), "d.hprof")
		os.Mkdir(k.Path("d"), 0o755)
		if err := all.WriteFile(dump); err != nil {
			fatal("%v", err)
		}
		if k.refusedTwice(dump, fmt.Sprintf("object %d of %d of kind %d (identifiers from %#x) out of order (C17 bulk order case %d)", bad, n, kind, base, k.N), three[2], three[0]) {
			k.Eval(fmt.Sprint("bulk", base, kind, bad))
			k.Obs("order broken around the index batch", 1)
		}
	})
	// roots of all kinds count
	c.CasesFor("roots", 60, c.Pick(1000000, 10000000), 1, func(k *Case) {
		r := k.R
		o := small(r)
		_, x, m := Gen(k.Seed, fmt.Sprint("C17roots", k.N), o, hp.RandomEnc(r, idSize(r)))
		d := x.Data
		n := 1 + r.N(12)
		for i := 0; i < n; i++ {
			m = model(d)
			s := segs(m)
			seg := s[r.N(len(s))]
			at := places(m, seg)
			kind := hp.Pick[byte](r, 0xff, 4, 5, 6, 7, 1, 0xff, 4, 6, 7)
			k.Seen("kinds of roots inserted", fmt.Sprintf("%#x", kind))
			body := append([]byte{kind}, make([]byte, m.IDSize)...)
			for j := range body[1:] {
				body[1+j] = byte(hp.Pick(r, 0, 0x21, 0x2c, 0x1c, 0xff, r.N(256)))
			}
			switch kind {
			case 1:
				body = append(body, make([]byte, m.IDSize)...)
			case 4, 6:
				body = append(body, byte(r.N(256)), 0x2c, 0x23, byte(r.N(256)))
			}
			d = insertSub(m, d, at[r.N(len(at))], seg, body)
		}
		m2 := model(d)
		t := k.Truth("roots", d, m2, [][]string{{"summary", "--all-props"}, {"objects"}, {"threads", "--local-vars"}})
		if t != nil {
			k.Obs("roots of all kinds counted", len(m2.Roots))
			k.Eval(fmt.Sprint("roots", n, len(d)))
		}
	})
}

// base is a well-formed dump for an anomaly.
func (k *Case) base() *Truth {
	o := small(k.R)
	_, x, m := Gen(k.Seed, fmt.Sprint("C17base", k.N), o, hp.RandomEnc(k.R, idSize(k.R)))
	return &Truth{Data: x.Data, M: m}
}

// anomaly expects all to be refused.
func (k *Case) anomaly(t *Truth, what string, d []byte) {
	k.files["d.hprof"] = d
	dump := k.place("d", d)
	v, w := full[k.R.N(len(full))], full[k.R.N(len(full))]
	if k.refusedTwice(dump, what, v, w) {
		k.Eval(strings.SplitN(what, " at ", 2)[0] + fmt.Sprint(len(d)))
		if k.N%400 == 7 {
			k.Sample(what)
		}
	}
}

// swapSubs swaps two sub-records a < b.
func swapSubs(m *ref.Model, d []byte, a, b ref.Rec) []byte {
	out := append([]byte{}, d[:a.Off]...)
	out = append(out, d[b.Off:b.End]...)
	out = append(out, d[a.End:b.Off]...)
	out = append(out, d[a.Off:a.End]...)
	out = append(out, d[b.End:]...)
	if a.In != b.In {
		la, lb := a.End-a.Off, b.End-b.Off
		sa, sb := m.Top[a.In], m.Top[b.In]
		binary.BigEndian.PutUint32(out[sa.Off+5:], uint32(sa.End-sa.Off-9+lb-la))
		binary.BigEndian.PutUint32(out[sb.Off+lb-la+5:], uint32(sb.End-sb.Off-9+la-lb))
	}
	return out
}
