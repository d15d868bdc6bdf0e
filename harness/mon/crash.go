package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"vh/cli"
	"vh/fault"
	"vh/hp"
	"vh/ref"
)

func init() {
	register("C15", "fault_enumeration",
		"a process killed (SIGKILL through ptrace) before and after every file-system call of an index build, exhaustively for small dumps; two to four interruptions in a row, by kill at a random call, at a random time, or by failing calls; millions of objects, so that the index is written in several batches; dumps that were truncated, garbled or of an unknown kind before, with the same size, time and header even; an analysis of other content interrupted over a complete index, and the first content restored; afterwards every command must print exactly the right report; distinct by dump and history of interruptions",
		checkCrash)
	register("C23", "exploration",
		"a command paused by ptrace at every file-system call of an analysis while others run to their end (nested up to three deep), and 2 to 8 commands running freely at once, with no index, a partial one or a complete one; each prints the right report or fails cleanly, and all later reports are right; distinct by interleaving",
		checkConcurrent)
	register("C25", "exploration",
		"histories of contents of one file name: rewritten in place, renamed over, relinked, restored, truncated, replaced during an analysis, with equal size, equal times or equal header, and commands in between; each report is compared with that of a fresh copy of the current content; distinct by history",
		checkReplace)
}

// smallDump is a small dump and its truth.
func (k *Case) smallDump(label string, vs [][]string) *Truth {
	_, x, m := Gen(k.Seed, fmt.Sprint(k.ID, label, k.N), small(k.R), hp.RandomEnc(k.R, idSize(k.R)))
	k.files[label+".hprof"] = x.Data
	return k.Truth(label, x.Data, m, vs)
}

// events counts the file-system calls under the index of a fresh dump.
func (k *Case) events(data []byte, v []string, reads bool) int {
	dump := k.place("count", data)
	lg, r := k.traced(fault.Plan{Under: dump + ".db", Reads: reads}, filepath.Dir(dump), nil, vargs(v, dump)...)
	os.RemoveAll(filepath.Dir(dump))
	if r.Exit != 0 {
		fatal("count: %v", r)
	}
	return lg.Matched
}

func checkCrash(c *Ctx) {
	// every call of a build, killed before and after
	c.One("every", 0, func(k *Case) {
		for d := 0; d < c.Pick(1, 12); d++ {
			if d > 0 && c.Over() {
				break
			}
			t := k.smallDump(fmt.Sprint("every", d), three)
			if t == nil {
				return
			}
			v := three[d%3]
			n := k.events(t.Data, v, false)
			k.Max("calls of a build", n)
			c.CasesFor(fmt.Sprint("kill", d), 2*n+4, 2*n+4, 1, func(k *Case) {
				k.files["d.hprof"] = t.Data
				p := fault.Plan{At: 1 + k.N/2, Action: []string{"kill", "killafter"}[k.N%2]}
				dump := k.place("d", t.Data)
				p.Under = dump + ".db"
				lg, r := k.traced(p, filepath.Dir(dump), nil, vargs(v, dump)...)
				if lg.Injured && r.Signal != syscall.SIGKILL && p.Action == "kill" {
					fatal("kill: %v", r)
				}
				what := "no call"
				if lg.Injured {
					e := lg.Events[len(lg.Events)-1]
					for _, x := range lg.Events {
						if x.Fault != "" {
							e = x
						}
					}
					what = fmt.Sprintf("%s of %s", e.Call, strings.TrimPrefix(e.Path, dump))
					k.Seen("interrupted calls", e.Call)
				}
				if k.follow(t, dump, fmt.Sprintf("%s killed (%s call %d: %s)", vname(v), p.Action, p.At, what), shuffled(k.R, three)) {
					k.Eval(fmt.Sprint("every", d, p.At, p.Action, lg.Injured))
				}
			})
		}
	})
	// an interrupted index of other content, and the first content is back
	c.One("restored", 0, func(k *Case) {
		for d := 0; d < c.Pick(1, 12); d++ {
			if d > 0 && c.Over() {
				break
			}
			t := k.smallDump(fmt.Sprint("first", d), three)
			u := k.smallDump(fmt.Sprint("second", d), three)
			if t == nil || u == nil {
				return
			}
			v := three[d%3]
			prepare := func(k *Case) (string, time.Time) {
				dump := k.place("d", t.Data)
				k.later(dump, v)
				st, err := os.Stat(dump)
				if err != nil {
					fatal("%v", err)
				}
				return dump, st.ModTime()
			}
			swap := func(dump string, data []byte, when time.Time) {
				if err := os.WriteFile(dump, data, 0o644); err != nil {
					fatal("%v", err)
				}
				os.Chtimes(dump, when, when)
			}
			dump, when := prepare(k)
			swap(dump, u.Data, when.Add(time.Second))
			lg, r := k.traced(fault.Plan{Under: dump + ".db"}, filepath.Dir(dump), nil, vargs(v, dump)...)
			if err := u.Right(v, r); err != nil {
				k.Fail("under the tracer: %v", err)
				return
			}
			os.RemoveAll(filepath.Dir(dump))
			n := lg.Matched
			k.Max("calls of a build over an older index", n)
			c.CasesFor(fmt.Sprint("swap", d), 2*n, 2*n, 1, func(k *Case) {
				k.files["d.hprof"] = t.Data
				k.files["other.hprof"] = u.Data
				dump, when := prepare(k)
				swap(dump, u.Data, when.Add(time.Second))
				p := fault.Plan{Under: dump + ".db", At: 1 + k.N/2, Action: "kill"}
				if k.N%2 == 1 {
					p.Action, p.Errno, p.Sticky = "error", int(hp.Pick(k.R, syscall.ENOSPC, syscall.EIO, syscall.EACCES)), k.R.P(50)
				}
				lg, r := k.traced(p, filepath.Dir(dump), nil, vargs(v, dump)...)
				if r.Signal == 0 {
					if err := u.RightOrRefused(v, r); err != nil {
						k.Fail("%s over the index of other content, call %d fails: %v", vname(v), p.At, err)
						return
					}
				}
				swap(dump, t.Data, when)
				if k.follow(t, dump, fmt.Sprintf("%s of other content interrupted (%s call %d), and the first content restored", vname(v), p.Action, p.At), shuffled(k.R, three)) {
					k.Eval(fmt.Sprint("swap", d, p.At, p.Action, lg.Injured))
					k.Obs("restored contents", 1)
				}
			})
		}
	})
	// several interruptions in a row, in several ways
	c.CasesFor("history", 60, c.Pick(1000000, 10000000), 0.5, func(k *Case) {
		t := k.smallDump("d", full)
		if t == nil {
			return
		}
		dump := k.place("d", t.Data)
		var hist []string
		for i := 1 + k.R.N(4); i > 0; i-- {
			v := full[k.R.N(len(full))]
			how := k.R.N(4)
			h := ""
			switch how {
			case 0, 1:
				p := fault.Plan{Under: dump + ".db", At: 1 + k.R.N(80), Action: hp.Pick(k.R, "kill", "killafter"), Reads: k.R.P(50)}
				lg, r := k.traced(p, filepath.Dir(dump), nil, vargs(v, dump)...)
				h = fmt.Sprintf("%s %s at %d (reads %v) %v", vname(v), p.Action, p.At, p.Reads, lg.Injured)
				if r.Signal == 0 {
					if err := t.Right(v, r); err != nil {
						k.Fail("after %q: %v", hist, err)
						return
					}
				}
				k.Obs("kills at calls", b2i(lg.Injured))
			case 2:
				d := time.Duration(k.R.N(12000)) * time.Microsecond
				r := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump), Timeout: d + 1}, vargs(v, dump)...)
				h = fmt.Sprintf("%s killed after %v", vname(v), d)
				if r.Signal == 0 && !r.TimedOut {
					if err := t.Right(v, r); err != nil {
						k.Fail("after %q: %v", hist, err)
						return
					}
				}
				k.Obs("kills at times", b2i(r.TimedOut))
			case 3:
				p := fault.Plan{Under: dump + ".db", At: 1 + k.R.N(80), Action: hp.Pick(k.R, "error", "short"), Errno: int(hp.Pick(k.R, syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EMFILE)), Sticky: k.R.P(60), Reads: k.R.P(30)}
				lg, r := k.traced(p, filepath.Dir(dump), nil, vargs(v, dump)...)
				h = fmt.Sprintf("%s %s %d at %d (sticky %v, reads %v) %v", vname(v), p.Action, p.Errno, p.At, p.Sticky, p.Reads, lg.Injured)
				if err := t.RightOrRefused(v, r); err != nil {
					k.Fail("after %q, now %s: %v", hist, h, err)
					return
				}
				k.Obs("failed calls", b2i(lg.Injured))
			}
			hist = append(hist, h)
		}
		if k.follow(t, dump, fmt.Sprintf("after %q", hist), shuffled(k.R, full)[:4]) {
			k.Eval(fmt.Sprint(hist))
			if k.N < 2 {
				k.Sample(hist)
			}
		}
	})
	// dumps that were no good before
	c.CasesFor("bad before", 60, c.Pick(1000000, 10000000), 0.5, func(k *Case) {
		t := k.smallDump("d", full)
		if t == nil {
			return
		}
		dump := k.place("d", t.Data)
		when := time.Now().Add(-time.Duration(1+k.R.N(100000)) * time.Millisecond)
		how, bad := spoil(k.R, t)
		hist := []string{}
		for i := 1 + k.R.N(2); i > 0; i-- {
			os.WriteFile(dump, bad, 0o644)
			k.files["bad.hprof"] = bad
			if k.R.P(50) {
				os.Chtimes(dump, when, when)
			}
			hist = append(hist, how)
			for j := 1 + k.R.N(2); j > 0; j-- {
				v := full[k.R.N(len(full))]
				r := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, vargs(v, dump)...)
				if err := r.Refused(); err != nil {
					k.Fail("%s on a dump that is %s: not refused: %v", vname(v), how, err)
					return
				}
			}
			how, bad = spoil(k.R, t)
		}
		if k.R.P(50) {
			os.WriteFile(dump, t.Data, 0o644)
		} else {
			os.WriteFile(dump+".new", t.Data, 0o644)
			os.Rename(dump+".new", dump)
		}
		if k.R.P(50) {
			os.Chtimes(dump, when, when)
		}
		if k.follow(t, dump, fmt.Sprintf("the dump was %q before", hist), shuffled(k.R, full)[:3]) {
			k.Eval(fmt.Sprint("bad", hist, len(t.Data)))
			k.Seen("kinds of bad dumps", strings.SplitN(how, ":", 2)[0])
		}
	})
	// index of several batches
	n := c.Pick(3, 40)
	c.CasesFor("bulk", min(n, 8), n, 1, func(k *Case) {
		t, objs := k.bulk()
		if t == nil {
			return
		}
		dump := k.place("d", t.Data)
		var hist []string
		for i := 1 + k.R.N(2); i > 0; i-- {
			if k.R.P(50) {
				p := fault.Plan{Under: dump + ".db", At: 1 + k.R.N(30), Action: hp.Pick(k.R, "kill", "killafter"), Calls: []string{"write", "rename", "close"}}
				lg, _ := k.traced(p, filepath.Dir(dump), nil, vargs(three[0], dump)...)
				hist = append(hist, fmt.Sprint(p.Action, " at write, rename or close ", p.At, lg.Injured))
			} else {
				d := time.Duration(k.R.N(1500)) * time.Millisecond
				k.RunOpt(cli.Opt{Dir: filepath.Dir(dump), Timeout: d + 1}, vargs(three[0], dump)...)
				hist = append(hist, fmt.Sprintf("killed after %v", d))
			}
		}
		if k.follow(t, dump, fmt.Sprintf("dump of %d objects, %q", objs, hist), three) {
			k.Eval(fmt.Sprint("bulk", objs, hist))
			k.Obs("dumps of more than a million objects", 1)
		}
	})
}

// bulk is a dump whose index takes several batches, and its truth.
func (k *Case) bulk() (*Truth, int) {
	r := k.R
	o := small(r)
	g := hp.Gen(k.Seed, fmt.Sprint(k.ID, "bulk", k.N), o)
	e := hp.RandomEnc(r, 8)
	e.ObjBase = 1 << 40
	_, x, m := encode(g, e)
	var object uint64
	for cid, d := range m.Class {
		if d.Super == 0 {
			object = cid
		}
	}
	b := &hp.Bulk{IDSize: 8}
	var ps []hp.Piece
	n := 1_000_001 + r.N(400_000)
	for j := 0; j < n; j++ {
		b.Inst(uint64(j+1), object)
		if b.Len() > 8<<20 {
			ps = append(ps, b.Segment())
		}
	}
	ps = append(ps, b.Segment())
	all := hp.SpliceAt(x.Data, m.FirstSeg(), ps...)
	var data []byte
	for _, p := range all {
		data = append(data, p.B...)
		data = append(data, make([]byte, p.Zero)...)
	}
	m = model(data)
	return k.Truth("bulk", data, m, three), n
}

// spoil makes an incomplete or invalid version of a dump.
func spoil(r *hp.Rng, t *Truth) (string, []byte) {
	d := append([]byte{}, t.Data...)
	m := t.M
	switch r.N(7) {
	case 0:
		n := r.N(m.End)
		return fmt.Sprintf("truncated:%d", n), d[:n]
	case 1:
		n := m.Bounds[r.N(len(m.Bounds))]
		return fmt.Sprintf("truncated at a record:%d", n), d[:n]
	case 2: // same size and header, the end is not there yet
		n := m.Bounds[1+r.N(len(m.Bounds)-1)]
		for i := n; i < len(d); i++ {
			d[i] = 0
		}
		return fmt.Sprintf("preallocated, zero from:%d", n), d
	case 3:
		x := m.Top[r.N(len(m.Top))]
		d[x.Off] = hp.Pick[byte](r, 3, 0x30, 0xff, 0x99, 0x08)
		return fmt.Sprintf("of an unknown record:%d", x.Off), d
	case 4:
		if len(m.Subs) == 0 {
			return "empty:", nil
		}
		x := m.Subs[r.N(len(m.Subs))]
		d[x.Off] = hp.Pick[byte](r, 0x00, 0x09, 0x1f, 0x24, 0xfe)
		return fmt.Sprintf("of an unknown sub-record:%d", x.Off), d
	case 5:
		d[r.N(18)] ^= 0x21
		return "of another header:", d
	}
	return "empty:", nil
}

func checkConcurrent(c *Ctx) {
	// one is paused at every call while another runs
	c.One("pauses", 0, func(k *Case) {
		for d := 0; d < c.Pick(1, 10); d++ {
			if d > 0 && c.Over() {
				break
			}
			t := k.smallDump(fmt.Sprint("pause", d), three)
			if t == nil {
				return
			}
			v := three[d%3]
			n := k.events(t.Data, v, true)
			k.Max("calls of an analysis", n)
			c.CasesFor(fmt.Sprint("pause", d), n, n+2, 1, func(k *Case) { k.pauses(t, v, 1+k.N, 0, k.R.P(25)) })
			// killed at every call, after another command ran
			c.CasesFor(fmt.Sprint("late", d), n, n, 1, func(k *Case) { k.pauses(t, v, 1+k.R.N(k.N+1), 2+k.N, false) })
		}
	})
	// random nesting
	c.CasesFor("nested", 40, c.Pick(1000000, 10000000), 0.5, func(k *Case) {
		t := k.smallDump("d", three)
		if t != nil {
			k.pauses(t, three[k.R.N(3)], 1+k.R.N(110), 0, true)
		}
	})
	// all at once
	c.CasesFor("free", 24, c.Pick(1000000, 10000000), 1, func(k *Case) {
		o := hp.RandomOpts(k.R)
		o.Objects = hp.Pick(k.R, 10, 300, 3000, 20000)
		o.Names = 0
		_, x, m := Gen(k.Seed, fmt.Sprint("C23free", k.N), o, hp.RandomEnc(k.R, idSize(k.R)))
		t := k.Truth("d", x.Data, m, three)
		if t == nil {
			return
		}
		dump := k.place("d", t.Data)
		state := k.R.N(3)
		k.start(t, dump, state)
		n := 2 + k.R.N(7)
		type one struct {
			v []string
			r *cli.Result
		}
		ch := make(chan one)
		for i := 0; i < n; i++ {
			v := three[k.R.N(3)]
			delay := time.Duration(k.R.N(4000)*k.R.N(2)) * time.Microsecond
			go func() {
				time.Sleep(delay)
				ch <- one{v, k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, vargs(v, dump)...)}
			}()
		}
		var bad error
		var order []string
		for i := 0; i < n; i++ {
			x := <-ch
			if err := t.RightOrRefused(x.v, x.r); err != nil {
				bad = err
			}
			order = append(order, fmt.Sprint(x.v[0], x.r.Exit))
			k.Obs("concurrent reports that were right", b2i(x.r.Exit == 0))
			k.Obs("concurrent commands that failed cleanly", b2i(x.r.Exit != 0))
		}
		if bad != nil {
			k.Fail("one of %d commands at once (index: %s): %v", n, states[state], bad)
			return
		}
		if k.follow(t, dump, fmt.Sprintf("after %d commands at once (index: %s)", n, states[state]), shuffled(k.R, three)) {
			k.Eval(fmt.Sprint("free", n, state, order, len(x.Data)))
			k.Max("commands at once", n)
		}
	})
}

var states = []string{"none", "complete", "left by a killed analysis"}

// start prepares the index of a placed dump.
func (k *Case) start(t *Truth, dump string, state int) {
	switch state {
	case 1:
		k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, vargs(three[1], dump)...)
	case 2:
		k.traced(fault.Plan{Under: dump + ".db", At: 1 + k.R.N(70), Action: "kill"}, filepath.Dir(dump), nil, vargs(three[0], dump)...)
	}
}

// pauses runs v, paused at a call while another command runs, which may be
// paused itself. It may be killed at a later call.
func (k *Case) pauses(t *Truth, v []string, at, killAt int, nest bool) {
	k.files["d.hprof"] = t.Data
	dump := k.place("p", t.Data)
	state := 0
	if nest {
		state = k.R.N(3)
	}
	k.start(t, dump, state)
	var hist []string
	var bad error
	var run func(v []string, at, depth int)
	run = func(v []string, at, depth int) {
		hit := false
		p := fault.Plan{Under: dump + ".db", Reads: true, At: at, Action: "pause"}
		switch {
		case depth == 1 && killAt > 0:
			p.KillAt = killAt
		case k.R.P(30): // and killed soon after
			p.KillAt = at + hp.Pick(k.R, 1, 2, 3, 5, 8, 1+k.R.N(40))
		}
		lg, r := k.traced(p, filepath.Dir(dump), func() {
			hit = true
			w := three[k.R.N(3)]
			if nest && depth < 3 && k.R.P(60) {
				run(w, 1+k.R.N(110), depth+1)
				return
			}
			r := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, vargs(w, dump)...)
			hist = append(hist, fmt.Sprintf("%s ran", vname(w)))
			if err := t.RightOrRefused(w, r); err != nil && bad == nil {
				bad = fmt.Errorf("ran while others were paused: %v", err)
			}
			k.Obs("commands that ran during a pause and were right", b2i(r.Exit == 0))
		}, vargs(v, dump)...)
		what := "nothing"
		killed := false
		for _, e := range lg.Events {
			killed = killed || e.Fault == "kill"
			if e.Fault == "pause" {
				what = e.Call + " " + strings.TrimPrefix(e.Path, dump)
				k.Seen("calls at which a command was paused", e.Call)
			}
		}
		hist = append(hist, fmt.Sprintf("%s was paused at %d (%s) %v", vname(v), at, what, hit))
		if killed {
			hist[len(hist)-1] += fmt.Sprintf(", killed at %d", p.KillAt)
			k.Obs("paused commands killed later", 1)
			return
		}
		if err := t.RightOrRefused(v, r); err != nil && bad == nil {
			bad = fmt.Errorf("was paused: %v", err)
		}
		k.Obs("paused commands", b2i(hit))
		k.Obs("paused commands that were right", b2i(hit && r.Exit == 0))
		k.Obs("paused commands that failed cleanly", b2i(hit && r.Exit != 0))
	}
	run(v, at, 1)
	if bad != nil {
		k.Fail("index at first: %s; %q: %v", states[state], hist, bad)
		return
	}
	if k.follow(t, dump, fmt.Sprintf("index at first: %s; %q", states[state], hist), shuffled(k.R, three)) {
		k.Eval(fmt.Sprint(state, hist))
		if k.N < 1 {
			k.Sample(hist)
		}
	}
}

func checkReplace(c *Ctx) {
	// other content for a moment, while an analysis runs
	c.CasesFor("moment", 40, c.Pick(1000000, 10000000), 0.2, func(k *Case) {
		r := k.R
		_, x, m := Gen(k.Seed, fmt.Sprint("C25moment", k.N), small(r), hp.RandomEnc(r, idSize(r)))
		a := k.Truth("content", x.Data, m, three)
		if a == nil {
			return
		}
		other := append([]byte{}, a.Data...)
		if !permute(r, a, other) {
			return
		}
		k.files["other.hprof"] = other
		base := time.Now().Add(-1000 * time.Second)
		dump := k.place("d", nil)
		var hist []string
		write := func(d []byte, when time.Time) {
			f, err := os.OpenFile(dump, os.O_WRONLY|os.O_CREATE, 0o644)
			if err != nil {
				fatal("%v", err)
			}
			f.Write(d)
			f.Close()
			os.Chtimes(dump, when, when)
		}
		for i := 1 + r.N(3); i > 0; i-- {
			base = base.Add(time.Second)
			write(a.Data, base)
			v, at := three[r.N(3)], 1+r.N(60)
			lg, _ := k.traced(fault.Plan{Under: dump, Reads: true, At: at, Action: "pause"}, filepath.Dir(dump), func() { write(other, base.Add(time.Millisecond)) }, vargs(v, dump)...)
			write(a.Data, base)
			hist = append(hist, fmt.Sprintf("other content from call %d to the end of %s", at, vname(v)))
			k.Obs("moments of other content", b2i(len(lg.Events) >= at))
			for _, v := range shuffled(r, three)[:2] {
				res := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, vargs(v, dump)...)
				if err := a.Right(v, res); err != nil {
					k.Fail("%q, now as at first: %v", hist, err)
					return
				}
			}
		}
		k.Eval(fmt.Sprint("moment", hist))
	})
	// sizes that differ by 2^32, header and time do not: two more arrays of zeros
	wait := c.Beside(func() {
		for i := 0; i < c.Pick(1, 6); i++ {
			c.One("apart", i, func(k *Case) { k.apart(8 - 4*(i%2)) })
		}
	})
	defer wait()
	c.CasesFor("history", 60, c.Pick(1000000, 10000000), 1, func(k *Case) {
		r := k.R
		n := 2 + r.N(2)
		var ts []*Truth
		seed := fmt.Sprint("C25", k.N)
		id := idSize(r)
		e := hp.RandomEnc(r, id)
		o := small(r)
		for i := 0; i < n; i++ {
			var x *hp.Encoded
			var m = model
			switch {
			case i > 0 && r.P(40): // same size and header, other text inside
				d := append([]byte{}, ts[0].Data...)
				if !permute(r, ts[0], d) {
					d = retime(r, d)
				}
				x = &hp.Encoded{Data: d}
			case i > 0 && r.P(40): // same heap at another time
				x = &hp.Encoded{Data: retime(r, append([]byte{}, ts[0].Data...))}
			default:
				g := hp.Gen(k.Seed, fmt.Sprint(seed, i), o)
				if r.P(30) {
					o = small(r)
				}
				x = g.Encode(e)
				if i > 0 && r.P(35) && !bytesEqual(x.Data, ts[0].Data) { // same header, other size
					copy(x.Data[:31], ts[0].Data[:31])
				}
			}
			t := k.Truth(fmt.Sprint("content", i), x.Data, m(x.Data), three)
			if t == nil {
				return
			}
			ts = append(ts, t)
		}
		base := time.Now().Add(-1000 * time.Second)
		var hist []string
		dump := k.place("d", nil)
		cur := -1
		var curTime time.Time
		back, backTime := -1, base // to go back to, as it was
		type placing struct {
			content int
			when    time.Time
		}
		var placed []placing
		for step := 3 + r.N(6); step > 0; step-- {
			next := r.N(n)
			goBack := back >= 0 && r.P(60)
			if goBack {
				next = back
			}
			t := ts[next]
			when := base
			if goBack {
				when = backTime
			} else if cur >= 0 && (bytesEqual(t.Data, ts[cur].Data) || sameFace(t.Data, ts[cur].Data)) && r.P(85) || r.P(30) {
				when = base.Add(time.Duration(hp.Pick(r, 1, 1000, 1000000, 1000000000)*(1+r.N(50))) * time.Nanosecond)
			}
			// something must differ from whatever may be indexed
			for again := true; again; {
				again = false
				for _, p := range placed {
					if !bytesEqual(t.Data, ts[p.content].Data) && sameFace(t.Data, ts[p.content].Data) && when.Equal(p.when) {
						when = when.Add(time.Nanosecond)
						again = true
					}
				}
			}
			placed = append(placed, placing{next, when})
			how := hp.Pick(r, "rewritten in place", "renamed over", "linked", "removed and created")
			put := func() {
				switch how {
				case "rewritten in place":
					f, err := os.OpenFile(dump, os.O_WRONLY|os.O_CREATE, 0o644)
					if err != nil {
						fatal("%v", err)
					}
					f.Write(t.Data)
					f.Truncate(int64(len(t.Data)))
					f.Close()
					os.Chtimes(dump, when, when)
				case "renamed over":
					os.WriteFile(dump+".new", t.Data, 0o644)
					os.Chtimes(dump+".new", when, when)
					os.Rename(dump+".new", dump)
				case "linked":
					p := fmt.Sprintf("%s.store%d", dump, step)
					os.WriteFile(p, t.Data, 0o644)
					os.Chtimes(p, when, when)
					os.Remove(dump)
					os.Symlink(filepath.Base(p), dump)
				default:
					os.Remove(dump)
					os.WriteFile(dump, t.Data, 0o644)
					os.Chtimes(dump, when, when)
				}
			}
			prev, prevTime, quiet := cur, curTime, false
			if cur >= 0 && r.P(20) {
				quiet = r.P(60)
				// during an analysis of the old content, whose own report is not judged
				at := 1 + r.N(110)
				done := false
				v := three[r.N(3)]
				k.traced(fault.Plan{Under: dump, Reads: true, At: at, Action: "pause"}, filepath.Dir(dump), func() { put(); done = true }, vargs(v, dump)...)
				if !done {
					put()
				}
				hist = append(hist, fmt.Sprintf("%s during call %d of %s %v: content %d", how, at, vname(v), done, next))
				k.Obs("replacements during an analysis", b2i(done))
			} else {
				put()
				hist = append(hist, fmt.Sprintf("%s: content %d, +%v", how, next, when.Sub(base)))
			}
			k.Obs("replacements", 1)
			if cur >= 0 && cur != next {
				k.Obs("replacements by content of equal size and header", b2i(sameFace(t.Data, ts[cur].Data)))
				k.Obs("replacements by content of equal size and time, other header", b2i(!sameFace(t.Data, ts[cur].Data) && len(t.Data) == len(ts[cur].Data) && when.Equal(curTime)))
				k.Obs("replacements by content of equal time, other size", b2i(len(t.Data) != len(ts[cur].Data) && when.Equal(curTime)))
				k.Obs("replacements by content of equal time and header, other size", b2i(len(t.Data) != len(ts[cur].Data) && when.Equal(curTime) && bytesEqual(t.Data[:31], ts[cur].Data[:31])))
			}
			cur, curTime = next, when
			if goBack {
				k.Obs("contents that came back as they were", 1)
			}
			back = -1
			if r.P(30) {
				p := fault.Plan{Under: dump + ".db", At: 1 + r.N(80), Action: hp.Pick(r, "kill", "killafter")}
				if r.P(50) {
					// in the end, where files get their names
					p.Calls, p.At = []string{"rename", "write", "openat", "creat", "unlink", "unlinkat"}, 1+r.N(30)
				}
				v := three[r.N(3)]
				lg, _ := k.traced(p, filepath.Dir(dump), nil, vargs(v, dump)...)
				hist = append(hist, fmt.Sprintf("%s %s at %d %v", vname(v), p.Action, p.At, lg.Injured))
				k.Obs("analyses killed", b2i(lg.Injured))
				quiet = quiet || r.P(60)
			}
			if quiet && step > 1 {
				back, backTime = prev, prevTime
				continue
			}
			if r.P(15) && len(t.Data) > 100 {
				// cut off for a while
				os.WriteFile(dump, t.Data[:r.N(t.M.End)], 0o644)
				res := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, vargs(three[r.N(3)], dump)...)
				if err := res.Refused(); err != nil {
					k.Fail("%q: then truncated: not refused: %v", hist, err)
					return
				}
				os.WriteFile(dump, t.Data, 0o644)
				os.Chtimes(dump, when, when)
				hist = append(hist, "truncated and restored")
			}
			for i := r.N(3); i >= 0; i-- {
				v := three[r.N(3)]
				res := k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, vargs(v, dump)...)
				if err := t.Right(v, res); err != nil {
					k.Fail("%q: %v", hist, err)
					return
				}
				k.Obs("reports of replaced dumps compared", 1)
			}
		}
		k.Eval(fmt.Sprint(hist))
		if k.N < 2 {
			k.Sample(hist)
		}
	})
}

// apart replaces a dump by one that is 4 GiB larger, and back.
func (k *Case) apart(id int) {
	_, x, m := Gen(k.Seed, fmt.Sprint("C25apart", k.N), small(k.R), hp.DefaultEnc(id))
	k.files["small.hprof"] = x.Data
	b := &hp.Bulk{IDSize: id}
	far := uint64(0xc0000000)
	if id == 8 {
		far = 1 << 40
	}
	head := b.ZeroArray(far, 0).Len()
	n := 1<<31 - head - int64(k.R.N(100000))
	rest := 1<<32 - 2*head - n
	big := hp.SpliceAt(x.Data, m.End-9, b.ZeroArray(far, uint32(n)), b.ZeroArray(far+8, uint32(rest)))
	if big.Len() != int64(len(x.Data))+1<<32 {
		fatal("%d and %d bytes", big.Len(), len(x.Data))
	}
	after := *m
	after.More = []ref.More{{Kind: 'p', T: hp.TByte, Count: 2, Elems: int(n + rest)}}
	when := time.Now().Add(-time.Duration(1+k.R.N(1e6)) * time.Second)
	dump := k.Path("d.hprof")
	put := func(large bool) {
		var err error
		if large {
			err = big.WriteFile(dump)
		} else {
			err = os.WriteFile(dump, x.Data, 0o644)
		}
		if err != nil {
			fatal("%v", err)
		}
		os.Chtimes(dump, when, when)
	}
	first := k.R.P(50)
	for i := 0; i < 3; i++ {
		large := first == (i%2 == 0)
		put(large)
		mo := m
		if large {
			mo = &after
		}
		for _, v := range shuffled(k.R, three)[:2] {
			if i < 2 || v[0] == "threads" {
				v = three[2]
			}
			r := k.RunOpt(cli.Opt{Timeout: 120 * time.Second}, vargs(v, dump)...)
			if r.Exit != 0 {
				k.Fail("%s, content %d, larger by 4 GiB than the other: %v: %v", vname(v), i+1, large, r)
				return
			}
			if err := Oracle(v, r.Stdout, mo); err != nil {
				k.Fail("content %d of the same header and time, larger by 2^32 bytes than the other: %v: %s: %v", i+1, large, vname(v), err)
				return
			}
			k.Obs("reports of contents whose sizes differ by 2^32", 1)
		}
	}
	k.Eval(fmt.Sprint("apart", id, n))
}

func bytesEqual(a, b []byte) bool { return string(a) == string(b) }

// sameFace tells that size and header are equal.
func sameFace(a, b []byte) bool { return len(a) == len(b) && string(a[:31]) == string(b[:31]) }

// retime changes the time of the dump.
func retime(r *hp.Rng, d []byte) []byte {
	for i := 27; i < 31; i++ {
		d[i] = byte(r.N(256))
	}
	return d
}

// permute changes method names in place, keeping the size.
func permute(r *hp.Rng, t *Truth, d []byte) bool {
	done := false
	for _, x := range t.M.Top {
		if x.Tag != 1 {
			continue
		}
		s := d[x.Off+9+t.M.IDSize : x.End]
		for _, w := range []string{"Main.java", "Foo.kt", "Thread.java"} {
			if string(s) == w {
				s[0] = byte('A' + r.N(26))
				done = true
			}
		}
	}
	return done
}
