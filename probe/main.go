// The probe runs inside the module of the tool: it drives the parser, the index
// storages and the heap reader directly and compares everything they return
// with an independent reading of the same dump.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/java"
	"github.com/danielleontiev/neojhat/internal/storage"
	"github.com/danielleontiev/neojhat/internal/vhprobe/hp"
	"github.com/danielleontiev/neojhat/internal/vhprobe/ref"
)

// Out is what the monitor reads.
type Out struct {
	Evals   int
	Keys    []uint64
	Obs     map[string]int
	Max     map[string]int
	Sets    map[string]map[string]bool
	Samples []any
	Fail    string
	File    string // dump that fails
	Case    string
}

type probe struct {
	Out
	seed     int64
	dir      string
	thorough bool
	deadline time.Time
	data     []byte
	keys     map[uint64]bool
}

func (p *probe) eval(key string) {
	p.Evals++
	if key != "" {
		h := fnv.New64a()
		io.WriteString(h, key)
		if k := h.Sum64(); !p.keys[k] {
			p.keys[k] = true
			p.Keys = append(p.Keys, k)
		}
	}
}
func (p *probe) obs(n string, k int) { p.Obs[n] += k }
func (p *probe) max(n string, k int) {
	if k > p.Max[n] {
		p.Max[n] = k
	}
}
func (p *probe) seen(set, v string) {
	if p.Sets[set] == nil {
		p.Sets[set] = map[string]bool{}
	}
	if len(p.Sets[set]) < 500 {
		p.Sets[set][v] = true
	}
}
func (p *probe) sample(v any) {
	if len(p.Samples) < 3 {
		p.Samples = append(p.Samples, v)
	}
}

type failure struct{ msg string }

func fail(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

// watch ends the probe with a report when a single call of the tool's code
// does not return: no call made here takes more than a moment.
type watch struct {
	mu    sync.Mutex
	what  string
	since time.Time
	limit time.Duration
	sum   time.Duration // in calls that take a moment
	n     int           // of them
}

var watched watch

// begin notes that a call begins; the next begin or idle ends it.
func begin(limit time.Duration, what string) {
	now := time.Now()
	watched.mu.Lock()
	if watched.limit == atOnce {
		watched.sum += now.Sub(watched.since)
		watched.n++
	}
	watched.what, watched.since, watched.limit = what, now, limit
	watched.mu.Unlock()
}

func idle() { begin(0, "") }

const (
	atOnce = 100 * time.Second
	slowly = 250 * time.Second
	// what many of them may take in all, when each takes far more than the
	// usual 20 microseconds
	inAll   = 150 * time.Second
	onePart = 2 * time.Millisecond
)

func (w *watch) run(stuck func(msg string)) {
	for range time.Tick(time.Second) {
		w.mu.Lock()
		d := time.Since(w.since)
		if w.limit > 0 && d > w.limit {
			stuck(fmt.Sprintf("%s does not end: %v so far", w.what, d.Round(time.Second)))
		}
		if w.sum > inAll && w.sum > time.Duration(w.n)*onePart {
			stuck(fmt.Sprintf("%d lookups take %v, the last is %s", w.n, w.sum.Round(time.Second), w.what))
		}
		w.mu.Unlock()
	}
}

// loaded is an indexed dump.
type loaded struct {
	acc   *dump.ParsedAccessor
	small *storage.SmallRecordsReadStorage
	heap  *java.Heap
	pos   int
	used  int64
	close func()
}

// index parses a dump, saves the index and opens it as the tool does, in
// memory or in files.
func (p *probe) index(open func() *hp.Reader, files bool) *loaded {
	begin(slowly, "the analysis of a well-formed dump")
	defer idle()
	l := &loaded{close: func() {}}
	src := open()
	sw, mw := storage.NewSmallRecordsWriteStorage(), storage.NewMetaWriteStorage()
	var parser *dump.Parser
	var big *storage.BigRecordsReadStorage
	var err error
	if files {
		dir, e := os.MkdirTemp(p.dir, "idx")
		if e != nil {
			panic(e)
		}
		var fs [3]*os.File
		for i := range fs {
			if fs[i], e = os.Create(filepath.Join(dir, fmt.Sprint(i))); e != nil {
				panic(e)
			}
		}
		parser = dump.NewParser(src, sw, storage.NewBigRecordsWriteStorage(fs[0], fs[1], fs[2]), mw)
		if err := parser.ParseHeapDump(); err != nil {
			fail("ParseHeapDump of a well-formed dump: %v", err)
		}
		var n [3]int
		for i := range fs {
			if fs[i], e = os.Open(filepath.Join(dir, fmt.Sprint(i))); e != nil {
				panic(e)
			}
			st, _ := fs[i].Stat()
			n[i] = int(st.Size())
		}
		big, err = storage.NewBigRecordsReadStorage(fs[0], n[0], fs[1], n[1], fs[2], n[2])
		l.close = func() {
			for _, f := range fs {
				f.Close()
			}
			os.RemoveAll(dir)
		}
	} else {
		a, b, c := storage.NewRamWriteVolume(), storage.NewRamWriteVolume(), storage.NewRamWriteVolume()
		parser = dump.NewParser(src, sw, storage.NewBigRecordsWriteStorage(a, b, c), mw)
		if err := parser.ParseHeapDump(); err != nil {
			fail("ParseHeapDump of a well-formed dump: %v", err)
		}
		big, err = storage.NewBigRecordsReadStorage(storage.NewRamReadVolume(a.Bytes()), a.Len(), storage.NewRamReadVolume(b.Bytes()), b.Len(), storage.NewRamReadVolume(c.Bytes()), c.Len())
	}
	if err != nil {
		fail("cannot read the index just written: %v", err)
	}
	var sb, mb bytes.Buffer
	if err := sw.SerializeTo(&sb); err != nil {
		fail("SerializeTo of small records: %v", err)
	}
	if err := mw.SerializeTo(&mb); err != nil {
		fail("SerializeTo of counters: %v", err)
	}
	l.small = storage.NewSmallRecordsReadStorage()
	mr := storage.NewMetaReadStorage()
	if err := l.small.RestoreFrom(&sb); err != nil {
		fail("RestoreFrom of small records: %v", err)
	}
	if err := mr.RestoreFrom(&mb); err != nil {
		fail("RestoreFrom of counters: %v", err)
	}
	l.pos = parser.GetPosition()
	l.used = src.Max
	l.acc = dump.NewParsedAccessor(open(), big, l.small, mr)
	l.heap = java.NewHeap(l.acc)
	return l
}

func one(data []byte) func() *hp.Reader {
	return func() *hp.Reader { return hp.NewReader(hp.Pieces{{B: data}}) }
}

// bits of a value the tool returned.
func bits(v core.JavaValue) (uint64, bool) {
	switch x := v.Value.(type) {
	case core.Identifier:
		return uint64(x), v.Type == core.Object
	case bool:
		n := uint64(0)
		if x {
			n = 1
		}
		return n, v.Type == core.Boolean
	case int8:
		return uint64(uint8(x)), v.Type == core.Byte
	case int16:
		return uint64(uint16(x)), v.Type == core.Short
	case string: // a char is kept as its two bytes
		if len(x) != 2 {
			return 0, false
		}
		return uint64(x[0])<<8 | uint64(x[1]), v.Type == core.Char
	case uint16:
		return uint64(x), v.Type == core.Char
	case int32:
		return uint64(uint32(x)), v.Type == core.Int
	case int64:
		return uint64(x), v.Type == core.Long
	case float32:
		return uint64(f32(x)), v.Type == core.Float
	case float64:
		return f64(x), v.Type == core.Double
	}
	return 0, false
}

func sameVal(got core.JavaValue, want ref.Val) bool {
	b, ok := bits(got)
	if !ok || byte(got.Type) != want.T {
		return false
	}
	w := want.Bits
	if want.T == hp.TBool && w != 0 {
		w = 1
	}
	return b == w
}

func main() {
	p := &probe{keys: map[uint64]bool{}}
	p.Obs, p.Max, p.Sets = map[string]int{}, map[string]int{}, map[string]map[string]bool{}
	var id, tier, only string
	var worker, of, minCases int
	var budget float64
	flag.StringVar(&id, "id", "", "")
	flag.StringVar(&tier, "tier", "quick", "")
	flag.StringVar(&only, "only", "", "")
	flag.Int64Var(&p.seed, "seed", 1, "")
	flag.IntVar(&worker, "worker", 0, "")
	flag.IntVar(&of, "of", 1, "")
	flag.IntVar(&minCases, "min", 10, "")
	flag.Float64Var(&budget, "budget", 10, "")
	flag.StringVar(&p.dir, "dir", "", "")
	flag.Parse()
	p.thorough = tier == "thorough"
	p.deadline = time.Now().Add(time.Duration(budget * float64(time.Second)))
	label := ""
	var labelMu sync.Mutex
	go watched.run(func(msg string) {
		labelMu.Lock()
		o := Out{Evals: 1, Fail: msg, Case: label}
		labelMu.Unlock()
		json.NewEncoder(os.Stdout).Encode(o)
		os.Exit(0)
	})
	run := func(name string, f func()) {
		if p.Fail != "" || (only != "" && only != name) {
			return
		}
		labelMu.Lock()
		label = name
		labelMu.Unlock()
		defer idle()
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			p.Case = label
			if f, ok := x.(failure); ok {
				p.Fail = f.msg
			} else {
				st := string(debug.Stack())
				if !fromTool(st) {
					fmt.Fprintf(os.Stderr, "probe bug: %v\n%s", x, st)
					os.Exit(3)
				}
				p.Fail = fmt.Sprintf("panic: %v\n%s", x, st)
			}
			if p.data != nil {
				p.File = filepath.Join(p.dir, fmt.Sprintf("fail%d.hprof", worker))
				os.WriteFile(p.File, p.data, 0o644)
			}
		}()
		f()
	}
	switch id {
	case "C02":
		big := p.bigCases()
		for i, c := range big {
			if i%of == worker {
				run(c.name, c.f)
			}
		}
		for i := worker; p.Fail == "" && (i < minCases || time.Now().Before(p.deadline)); i += of {
			run(fmt.Sprint(i), func() { p.lookups(i) })
		}
	case "C03":
		for i := worker; p.Fail == "" && (i < minCases || time.Now().Before(p.deadline)); i += of {
			run(fmt.Sprint(i), func() { p.records(i) })
		}
	case "C08":
		for i := worker; p.Fail == "" && (i < minCases || time.Now().Before(p.deadline)); i += of {
			run(fmt.Sprint(i), func() { p.fields(i) })
		}
	case "C19":
		for i := worker; p.Fail == "" && (i < minCases || time.Now().Before(p.deadline)); i += of {
			run(fmt.Sprint(i), func() { p.position(i) })
		}
	case "C22":
		for i := worker; p.Fail == "" && (i < minCases || time.Now().Before(p.deadline)); i += of {
			run(fmt.Sprint(i), func() { p.failingWriters(i) })
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown id")
		os.Exit(3)
	}
	json.NewEncoder(os.Stdout).Encode(p.Out)
}

// fromTool tells whether the innermost frame of our module belongs to the tool.
func fromTool(stack string) bool {
	_, rest, _ := strings.Cut(stack, "panic(")
	for _, l := range strings.Split(rest, "\n") {
		if strings.HasPrefix(l, "github.com/danielleontiev/neojhat/") {
			return !strings.Contains(l, "/vhprobe")
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}
