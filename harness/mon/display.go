package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"vh/cli"
	"vh/fault"
	"vh/hp"
)

func init() {
	register("C19", "exploration",
		"pairs of runs with and without the display on the same file (well-formed, truncated, anomalous, mutated, empty; every command; with an index too) by a tool built with the race detector, at GOMAXPROCS 1 to 8, while the parser is held at reads of the dump so that the display ticks at chosen points, with a standard error that cannot be written, and on a sparse dump larger than 4 GiB; every percentage shown must be between 0 and 100; in process, the position is polled by another goroutine under the race detector; distinct by file, command and schedule",
		checkDisplay)
}

var shown = regexp.MustCompile(`(-?[0-9.]+|NaN|[+-]Inf)%`)

// percents checks everything the display shows.
func (k *Case) percents(stderr string) (int, error) {
	all := shown.FindAllStringSubmatch(stderr, -1)
	for _, m := range all {
		v, err := strconv.ParseFloat(m[1], 64)
		if err != nil || !(v >= 0 && v <= 100) || math.Signbit(v) {
			return 0, fmt.Errorf("the display shows %q", m[0])
		}
		k.Seen("percentages shown", m[1])
		switch {
		case v == 0:
			k.Obs("ticks at 0%", 1)
		case v == 100:
			k.Obs("ticks at 100%", 1)
		default:
			k.Obs("ticks between 0% and 100%", 1)
		}
	}
	return len(all), nil
}

// pairing is one comparison.
type pairing struct {
	data []byte
	v    []string
	args []string // more options
	env  []string
	wrap []string
	hold *fault.Plan
	what string
}

func (k *Case) pair(n int, p pairing) {
	dir := func(s string) string {
		d := k.Path(fmt.Sprint(s, n))
		os.MkdirAll(d, 0o755)
		if err := os.WriteFile(filepath.Join(d, "d.hprof"), p.data, 0o644); err != nil {
			fatal("%v", err)
		}
		return d
	}
	base := append(append([]string{p.v[0], "--hprof", "d.hprof"}, p.v[1:]...), p.args...)
	fail := func(f string, a ...any) {
		k.mu.Lock()
		k.files["d.hprof"] = p.data
		k.mu.Unlock()
		k.Fail("%s: %s", p.what, fmt.Sprintf(f, a...))
	}
	q := dir("q")
	quiet := k.RunOpt(cli.Opt{Dir: q}, append(base, "--non-interactive")...)
	if c := quiet.Crash(); c != "" {
		fail("%q: %s", quiet.Args, c)
		return
	}
	if quiet.Stderr != "" && quiet.Exit != 2 {
		fail("%q shows something on standard error: %q", quiet.Args, cut(quiet.Stderr, 200))
		return
	}
	bin := k.RaceBin
	if bin == "" {
		bin = k.Bin
	}
	d := dir("i")
	var loud *cli.Result
	if p.hold != nil {
		plan := *p.hold
		plan.Under = filepath.Join(d, "d.hprof")
		var lg *fault.Log
		lg, loud = k.tracedBin(bin, plan, d, nil, base...)
		if !lg.Injured {
			k.Obs("parser not held (fewer reads)", 1)
		} else {
			k.Obs("runs with the parser held", 1)
		}
	} else {
		loud = k.RunBin(bin, cli.Opt{Dir: d, Env: append([]string{"GORACE=exitcode=66"}, p.env...), Wrap: p.wrap}, base...)
	}
	if strings.Contains(loud.Stderr, "DATA RACE") {
		fail("%q: data race:\n%s", base, cut(loud.Stderr, 3000))
		return
	}
	if c := loud.Crash(); c != "" {
		fail("%q: %s", base, c)
		return
	}
	if loud.Exit != quiet.Exit || loud.Stdout != quiet.Stdout {
		fail("%q ends with status %d, with --non-interactive %d: %s", base, loud.Exit, quiet.Exit, firstDiff(loud.Stdout, quiet.Stdout))
		return
	}
	ticks, err := k.percents(loud.Stderr)
	if err != nil {
		fail("%q: %v", base, err)
		return
	}
	k.Obs("ticks of the display", ticks)
	k.Max("ticks of one run", ticks)
	k.Obs(fmt.Sprintf("pairs that end with status %d", quiet.Exit), 1)
	// with the index that is there now
	if quiet.Exit == 0 {
		again := k.RunBin(bin, cli.Opt{Dir: d, Env: []string{"GORACE=exitcode=66"}}, base...)
		if again.Exit != 0 || again.Stdout != quiet.Stdout {
			fail("%q with the index: status %d: %s %s", base, again.Exit, firstDiff(again.Stdout, quiet.Stdout), cut(again.Stderr, 500))
			return
		}
	}
	key := fmt.Sprint(len(p.data), base, p.env, p.wrap != nil, p.what)
	if p.hold != nil {
		key += fmt.Sprint(*p.hold)
	}
	k.Eval(key)
	os.RemoveAll(q)
	os.RemoveAll(d)
}

func checkDisplay(c *Ctx) {
	if c.RaceBin == "" {
		c.Note("the tool does not build with -race")
	}
	c.CasesFor("pairs", 3, c.Pick(1000000, 10000000), 0.55, func(k *Case) {
		r := k.R
		var ps []pairing
		for i := 0; i < 8; i++ {
			p := pairing{v: full[r.N(len(full))]}
			o := small(r)
			if r.P(40) {
				o = hp.RandomOpts(r)
				o.Objects = hp.Pick(r, 0, 100, 2000, 6000)
			}
			_, x, m := Gen(k.Seed, fmt.Sprint("C19", k.N, i), o, hp.RandomEnc(r, idSize(r)))
			p.data, p.what = x.Data, "well-formed dump"
			switch r.N(8) {
			case 0:
				n := hp.Pick(r, 0, 1, 19, 30, 31, r.N(m.End), m.Bounds[r.N(len(m.Bounds))], m.End-1)
				p.data, p.what = x.Data[:n], fmt.Sprintf("dump cut to %d", n)
			case 1:
				u := newMut(r, m, x.Data)
				u.inPlace()
				p.data, p.what = u.d, fmt.Sprint(u.what)
			case 2:
				p.data = append(append([]byte{}, x.Data...), make([]byte, r.N(100000))...)
				p.what = "dump with bytes behind its end"
			}
			if r.P(50) {
				p.args = append(p.args, "--no-color")
			}
			if r.P(25) {
				p.args = append(p.args, "--output=html")
			}
			p.env = []string{"GOMAXPROCS=" + hp.Pick(r, "1", "2", "3", "8")}
			switch i {
			case 0, 1, 2: // held once, or several times
				p.hold = &fault.Plan{Exact: true, Reads: true, Calls: []string{"read", "pread"}, Action: "hold", At: hp.Pick(r, 1, 2, 3, 4, 1+r.N(1+len(p.data)/4096)), HoldMs: hp.Pick(r, 1100, 1300, 2100)}
				if r.P(40) {
					p.hold.HoldMs, p.hold.Every = 400, hp.Pick(r, 1, 2)
					if len(p.data) > 40000 {
						p.hold.Every = len(p.data)/4096/6 + 1
					}
				}
			case 3:
				p.wrap = []string{"/bin/sh", "-c", hp.Pick(r, `exec "$@" 2>/dev/full`, `exec "$@" 2>&-`, `exec "$@" 2>/dev/null`), "sh"}
			}
			ps = append(ps, p)
		}
		var wg sync.WaitGroup
		for i, p := range ps {
			wg.Add(1)
			go func() {
				defer wg.Done()
				k.pair(i, p)
			}()
		}
		wg.Wait()
	})
	// a dump that takes a while: larger than 4 GiB, but sparse
	c.One("huge", 0, func(k *Case) {
		id := 8
		g, x, m := Gen(k.Seed, "C19huge", hp.Opts{NoJVM: true, Classes: 2, Objects: 5, Threads: -1}, hp.DefaultEnc(id))
		b := &hp.Bulk{IDSize: id}
		var ps []hp.Piece
		// objects far into the file too, where the position changes all the time
		next := uint64(1) << 40
		class := x.ObjID(g.Class("java/lang/Object").H)
		for i := 0; i < c.Pick(2, 6); i++ {
			ps = append(ps, b.ZeroArray(next, uint32(c.Pick(9<<28, 1<<32-1000))))
			next++
			for j := 0; j < c.Pick(700000, 6000000); j++ {
				b.Inst(next, class)
				next++
				if b.Len() > 16<<20 {
					ps = append(ps, b.Segment())
				}
			}
			ps = append(ps, b.Segment())
		}
		all := hp.SpliceAt(x.Data, m.End-9, ps...)
		os.Mkdir(k.Path("q"), 0o755)
		os.Mkdir(k.Path("i"), 0o755)
		for _, d := range []string{"q", "i"} {
			if err := all.WriteFile(k.Path(d + "/d.hprof")); err != nil {
				fatal("%v", err)
			}
		}
		ch := make(chan *cli.Result)
		go func() {
			ch <- k.RunOpt(cli.Opt{Dir: k.Path("q"), Timeout: 280 * time.Second}, "objects", "--hprof", "d.hprof", "--non-interactive")
		}()
		l := k.RunOpt(cli.Opt{Dir: k.Path("i"), Timeout: 280 * time.Second}, "objects", "--hprof", "d.hprof")
		q := <-ch
		if q.Exit != 0 || l.Exit != 0 || q.Stdout != l.Stdout {
			k.Fail("dump of %d bytes: status %d and %d: %s %q", all.Len(), q.Exit, l.Exit, firstDiff(l.Stdout, q.Stdout), cut(l.Stderr, 300))
			return
		}
		n, err := k.percents(l.Stderr)
		if err != nil {
			k.Fail("dump of %d bytes: %v", all.Len(), err)
			return
		}
		k.Obs("ticks on a dump larger than 4 GiB", n)
		k.Max("bytes of a dump", int(all.Len()))
		k.Eval("huge")
	})
	c.InProcess(c.RaceProb, c.Pick(40, 400), c.left())
}
