// Command mon runs the monitors, one check per property:
//
//	mon -id C01 -tier quick -bin neojhat ...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vh/cli"
	"vh/fault"
	"vh/hp"
	"vh/ref"
)

// Ctx of a check.
type Ctx struct {
	ID       string
	Tier     string
	Thorough bool
	Seed     int64
	Bin      string // the tool
	RaceBin  string
	Probe    string // in-process probe
	RaceProb string
	Serve    string // in-process server
	Scratch  string
	Replays  string
	Root     string // /verif

	mu       sync.Mutex
	evals    int
	distinct map[uint64]bool
	samples  []any
	obs      map[string]int
	minmax   map[string]int
	sets     map[string]map[string]bool
	notes    []string
	viol     []string
	start    time.Time
	deadline time.Time
	runs     atomic.Int64
	rule     string
	nobody   int
	assume   []string
	pool     *serverPool
	served   atomic.Int64
}

// Case is one generated case.
type Case struct {
	*Ctx
	N      int
	R      *hp.Rng
	Dir    string
	runs   []*cli.Result
	files  map[string][]byte
	failed bool
	used   int
	fast   bool // runs in process, failures are only suspicions
}

var checks = map[string]func(*Ctx){}
var levels = map[string]string{}

func register(id, level, rule string, f func(*Ctx)) {
	checks[id] = func(c *Ctx) { c.rule = rule; f(c) }
	levels[id] = level
}

// Eval counts an execution; key identifies what was distinct about it, empty
// keys are trivial cases.
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	c.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.distinct[h.Sum64()] = true
	}
	c.mu.Unlock()
}

// Obs counts what monitors saw.
func (c *Ctx) Obs(name string, n int) {
	c.mu.Lock()
	c.obs[name] += n
	c.mu.Unlock()
}

// Max keeps the maximum.
func (c *Ctx) Max(name string, n int) {
	c.mu.Lock()
	if n > c.minmax[name] {
		c.minmax[name] = n
	}
	c.mu.Unlock()
}

// Seen adds a value to a set, evidence shows its size.
func (c *Ctx) Seen(set, v string) {
	c.mu.Lock()
	if c.sets[set] == nil {
		c.sets[set] = map[string]bool{}
	}
	if len(c.sets[set]) < 200000 {
		c.sets[set][v] = true
	}
	c.mu.Unlock()
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 5 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) Note(f string, a ...any) {
	c.mu.Lock()
	if len(c.notes) < 20 {
		c.notes = append(c.notes, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// Over tells that the time for the check is up.
func (c *Ctx) Over() bool {
	c.mu.Lock()
	n := len(c.viol)
	c.mu.Unlock()
	return n >= 3 || time.Now().After(c.deadline)
}

// Nobody is an unprivileged user that can run the tool, 0 if there is none.
func (c *Ctx) Nobody() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.nobody == 0 {
		c.nobody = 65534
		if r := cli.Run(c.Bin, cli.Opt{Dir: "/", Uid: 65534}, "objects"); r.StartErr != nil || os.Geteuid() != 0 {
			c.nobody = -1
			c.notes = append(c.notes, "no unprivileged user can run the tool here, permissions are not tested")
		}
	}
	return max(c.nobody, 0)
}

// Size of something by tier.
func (c *Ctx) Pick(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Cases runs f for cases 0..n-1 on all cores until the time is up (but at
// least min of them).
func (c *Ctx) Cases(label string, min, n int, f func(k *Case)) {
	c.CasesFor(label, min, n, 1, f)
}

// CasesFor is Cases for a share of the time that is left.
func (c *Ctx) CasesFor(label string, min, n int, share float64, f func(k *Case)) {
	until := time.Now().Add(time.Duration(float64(time.Until(c.deadline)) * share))
	var next atomic.Int64
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	if s := os.Getenv("VH_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	if workers < 2 {
		workers = 2
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || (i >= min && (c.Over() || time.Now().After(until))) {
					return
				}
				c.One(label, i, f)
			}
		}()
	}
	wg.Wait()
}

// Beside runs f at the same time as what follows, until the returned function
// is called.
func (c *Ctx) Beside(f func()) (wait func()) {
	done := make(chan bool)
	go func() {
		defer close(done)
		f()
	}()
	return func() { <-done }
}

// One runs a single case.
func (c *Ctx) One(label string, i int, f func(k *Case)) {
	dir, err := os.MkdirTemp(c.Scratch, fmt.Sprintf("%s-%d-", label, i))
	if err != nil {
		fatal("scratch: %v", err)
	}
	os.Chmod(dir, 0o755)
	defer func() { os.RemoveAll(dir) }()
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			fatal("harness bug in %s case %s/%d: %v\n%s", c.ID, label, i, x, buf)
		}
	}()
	new := func(fast bool) *Case {
		return &Case{Ctx: c, N: i, R: hp.NewRng(c.Seed, c.ID, label, strconv.Itoa(i)), Dir: dir, files: map[string][]byte{}, fast: fast}
	}
	// some cases only use the tool
	if c.pool != nil && i%16 != 15 {
		k := new(true)
		f(k)
		if !k.failed {
			return
		}
		c.Obs("cases repeated with the tool itself, since they failed in process", 1)
		os.RemoveAll(dir)
		if err := os.Mkdir(dir, 0o755); err != nil {
			fatal("scratch: %v", err)
		}
	}
	f(new(false))
}

var current *Ctx

// fatal ends a check that could not be completed; violations that were found
// before stay violations.
func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: "+f+"\n", a...)
	if current != nil {
		current.mu.TryLock()
		if len(current.viol) > 0 {
			os.Exit(1)
		}
	}
	os.Exit(3)
}

// Path in the directory of the case.
func (k *Case) Path(n string) string { return filepath.Join(k.Dir, n) }

// Write a file of the case.
func (k *Case) Write(n string, data []byte) string {
	p := k.Path(n)
	if err := os.WriteFile(p, data, 0o644); err != nil {
		fatal("write: %v", err)
	}
	k.files[n] = data
	return p
}

// Run the tool.
func (k *Case) Run(args ...string) *cli.Result { return k.RunOpt(cli.Opt{}, args...) }

func (k *Case) RunOpt(o cli.Opt, args ...string) *cli.Result { return k.RunBin(k.Bin, o, args...) }

func (k *Case) RunBin(bin string, o cli.Opt, args ...string) *cli.Result {
	if o.Dir == "" {
		o.Dir = k.Dir
	}
	var r *cli.Result
	if k.fast && bin == k.Bin && servable(o, args) {
		if r = k.pool.run(o, args); r != nil {
			k.served.Add(1)
		}
	}
	if r == nil {
		r = cli.Run(bin, o, args...)
		if r.StartErr != nil {
			fatal("the tool could not be started: %v", r.StartErr)
		}
		k.Ctx.runs.Add(1)
	}
	k.mu.Lock()
	k.runs = append(k.runs, r)
	k.mu.Unlock()
	return r
}

// Args of a report.
func Args(cmd, dump string, more ...string) []string {
	return append([]string{cmd, "--hprof", dump, "--non-interactive"}, more...)
}

// Fail records a violation with everything needed to repeat it.
func (k *Case) Fail(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.fast {
		k.failed = true
		return
	}
	if k.failed || len(k.viol) >= 20 {
		return
	}
	k.failed = true
	dir := filepath.Join(k.Replays, k.ID, fmt.Sprintf("%d", len(k.viol)+1))
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	for n, b := range k.files {
		if len(b) < 64<<20 {
			os.WriteFile(filepath.Join(dir, filepath.Base(n)), b, 0o644)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "property %s, seed %d, tier %s, case %d\n\n%s\n\nruns:\n", k.ID, k.Seed, k.Tier, k.N, msg)
	rs := k.runs
	if len(rs) > 40 {
		rs = rs[len(rs)-40:]
	}
	for _, r := range rs {
		fmt.Fprintf(&b, "\n%q\nexit %d signal %d wall %v rss %d\n--- stdout\n%s\n--- stderr\n%s\n", r.Args, r.Exit, r.Signal, r.Wall, r.MaxRSS, cli.First(r.Stdout, 20000), cli.First(r.Stderr, 5000))
	}
	p := filepath.Join(dir, "report.txt")
	os.WriteFile(p, []byte(b.String()), 0o644)
	k.viol = append(k.viol, p)
	fmt.Printf("%s: %s\n", k.ID, cli.First(msg, 1500))
	fmt.Printf("VIOLATION property=%s replay=%s\n", k.ID, p)
}

// Gen makes a world and its dump, and the model read back independently.
func Gen(seed int64, label string, o hp.Opts, e hp.Enc) (*hp.G, *hp.Encoded, *ref.Model) {
	g := hp.Gen(seed, label, o)
	return encode(g, e)
}

func encode(g *hp.G, e hp.Enc) (*hp.G, *hp.Encoded, *ref.Model) {
	x := g.Encode(e)
	return g, x, model(x.Data)
}

func model(data []byte) *ref.Model {
	m, err := ref.Read(data)
	if err != nil {
		panic(fmt.Sprintf("generated dump: %v", err))
	}
	return m
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "tracer" {
		fault.Main(os.Args[2:])
	}
	if len(os.Args) > 3 && os.Args[1] == "limit" {
		limitMain(os.Args[2:])
	}
	c := &Ctx{distinct: map[uint64]bool{}, obs: map[string]int{}, minmax: map[string]int{}, sets: map[string]map[string]bool{}, start: time.Now()}
	var budget float64
	flag.StringVar(&c.ID, "id", "", "property")
	flag.StringVar(&c.Tier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&c.Seed, "seed", 1, "seed")
	flag.StringVar(&c.Bin, "bin", "", "tool")
	flag.StringVar(&c.RaceBin, "race-bin", "", "tool built with -race")
	flag.StringVar(&c.Probe, "probe", "", "in-process probe")
	flag.StringVar(&c.RaceProb, "race-probe", "", "in-process probe built with -race")
	flag.StringVar(&c.Serve, "serve", "", "in-process server")
	flag.StringVar(&c.Root, "root", "/verif", "")
	flag.StringVar(&c.Scratch, "scratch", "", "scratch directory")
	flag.Float64Var(&budget, "budget", 0, "seconds")
	flag.Parse()
	f := checks[c.ID]
	if f == nil {
		fatal("no check %q", c.ID)
	}
	c.Thorough = c.Tier == "thorough"
	if budget == 0 {
		budget = 12
		if c.Thorough {
			budget = 420
		}
	}
	c.deadline = c.start.Add(time.Duration(budget * float64(time.Second)))
	c.Replays = filepath.Join(c.Root, "replays")
	if c.Scratch == "" {
		d, err := os.MkdirTemp("", "vh")
		if err != nil {
			fatal("%v", err)
		}
		os.Chmod(d, 0o755)
		c.Scratch = d
		defer os.RemoveAll(d)
	}
	current = c
	if f := os.Getenv("VH_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if c.Serve != "" {
		c.pool = &serverPool{bin: c.Serve, dir: c.Scratch}
		if s := c.pool.get(); s == nil {
			c.pool = nil
			c.Note("the in-process server does not work, only the tool itself was run")
		} else {
			c.pool.free = append(c.pool.free, s)
			defer c.pool.close()
		}
	}
	f(c)
	if c.pool != nil {
		c.pool.close()
	}
	c.report()
	if len(c.viol) > 0 {
		os.RemoveAll(c.Scratch)
		os.Exit(1)
	}
}

func (c *Ctx) report() {
	obs := map[string]any{}
	for k, v := range c.obs {
		obs[k] = v
	}
	for k, v := range c.minmax {
		obs["max "+k] = v
	}
	for k, v := range c.sets {
		obs["distinct "+k] = len(v)
		if len(v) <= 40 {
			var l []string
			for x := range v {
				l = append(l, x)
			}
			sort.Strings(l)
			obs[k] = l
		}
	}
	if c.samples == nil {
		c.samples = []any{}
	}
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.rule,
		"samples":             c.samples,
		"observed":            obs,
		"tool_runs":           c.runs.Load(),
	}
	if n := c.served.Load(); n > 0 {
		cov["in_process_runs"] = n
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": levels[c.ID], "coverage": cov,
		"wall_s": float64(int(time.Since(c.start).Seconds()*100)) / 100, "violations": len(c.viol),
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(c.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.Root, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("evidence: %v", err)
	}
	fmt.Printf("%s: %d evaluations, %d distinct, %d runs of the tool (and %d in process), %d violations, %.1f s\n", c.ID, c.evals, len(c.distinct), c.runs.Load(), c.served.Load(), len(c.viol), time.Since(c.start).Seconds())
}
