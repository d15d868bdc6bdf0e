package main

import (
	"bufio"
	"bytes"
	"context"
	_ "embed"
	"encoding/base64"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"vh/ref"
)

// Dumps of a real JVM, if there is one: what the JVM says about itself is
// compared with the oracle, and the tool's reports with both.

var jvmFlags = [][]string{
	{}, {"-XX:+UseSerialGC"}, {"-XX:+UseParallelGC"}, {"-XX:-CompactStrings"}, {"-Xint"}, {"-Xcomp", "-XX:TieredStopAtLevel=1"}, {"-XX:-UseCompressedOops", "-XX:+UseSerialGC"},
	{"-XX:+UseG1GC", "-XX:-UseCompressedClassPointers"}, {"-XX:+UseSerialGC", "-Xshare:off"}, {"-XX:+UseShenandoahGC"}, {"-XX:+UseZGC"},
}

type jvmTruth struct {
	Start  int64
	Counts [][2]string // class, n
	Least  map[string]bool
	Props  map[string]string
	Thr    []jvmThread
}

type jvmThread struct {
	ref.Thread
	depth  int
	frames [][3]string
}

//go:embed Heap.java.txt
var heapJava []byte

func readTruth(p string) (*jvmTruth, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	t := &jvmTruth{Props: map[string]string{}, Least: map[string]bool{}}
	ended := false
	s := bufio.NewScanner(bytes.NewReader(b))
	s.Buffer(nil, 64<<20)
	for s.Scan() {
		var f []string
		for _, x := range strings.Split(s.Text(), "\t") {
			d, err := base64.StdEncoding.DecodeString(x)
			if err != nil {
				return nil, err
			}
			f = append(f, string(d))
		}
		num := func(i int) int64 { n, _ := strconv.ParseInt(f[i], 10, 64); return n }
		switch f[0] {
		case "start":
			t.Start = num(1)
		case "count", "atleast":
			t.Counts = append(t.Counts, [2]string{f[1], f[2]})
			t.Least[f[1]] = f[0] == "atleast"
		case "property":
			t.Props[f[1]] = f[2]
		case "thread":
			t.Thr = append(t.Thr, jvmThread{Thread: ref.Thread{Name: f[1], ID: num(2), Prio: int32(num(3)), Daemon: f[4] == "true", Status: f[5]}, depth: int(num(6))})
		case "frame":
			x := &t.Thr[len(t.Thr)-1]
			x.frames = append(x.frames, [3]string{f[1], f[2], f[3]})
		case "end":
			ended = true
		}
	}
	if !ended {
		return nil, fmt.Errorf("the description of the heap is not complete")
	}
	return t, s.Err()
}

// agree tells whether the oracle says what the JVM says.
func (t *jvmTruth) agree(m *ref.Model) error {
	rows, _, _ := m.Objects()
	count := map[string]int{}
	for _, r := range rows {
		count[r.Name] += r.Count
	}
	for _, c := range t.Counts {
		n, _ := strconv.Atoi(c[1])
		if got := count[c[0]]; got != n && !(t.Least[c[0]] && got > n) {
			return fmt.Errorf("%d of %s, not %d", got, c[0], n)
		}
	}
	s := m.Summary()
	if len(s.Props) != len(t.Props) {
		return fmt.Errorf("%d properties, not %d", len(s.Props), len(t.Props))
	}
	for _, kv := range s.Props {
		if v, ok := t.Props[kv.K]; !ok || v != kv.V {
			return fmt.Errorf("property %q is %q, not %q", kv.K, kv.V, v)
		}
	}
	if up := (time.Duration(m.TS-t.Start) * time.Millisecond).String(); up != s.Uptime {
		return fmt.Errorf("uptime %s, not %s", s.Uptime, up)
	}
	byID := map[int64]ref.Thread{}
	for _, x := range m.Threads() {
		byID[x.ID] = x
	}
	for _, x := range t.Thr {
		y, ok := byID[x.ID]
		if !ok || y.Head() != x.Head() {
			return fmt.Errorf("thread %s, not %s", y.Head(), x.Head())
		}
		if x.Status != "RUNNABLE" && len(x.frames) != len(y.Frames) {
			return fmt.Errorf("%d frames of %s, not %d", len(y.Frames), x.Head(), len(x.frames))
		}
		for i := range min(len(x.frames), len(y.Frames)) { // from below
			f, g := x.frames[len(x.frames)-1-i], y.Frames[len(y.Frames)-1-i]
			loc := f[1] + ":" + f[2]
			if f[2] == "-2" {
				loc = f[1] + ":NativeMethod"
			}
			running := x.Status == "RUNNABLE" && i > x.depth+1
			if running {
				break
			}
			if f[0] != g.Class+"."+g.Method || loc != g.Loc {
				return fmt.Errorf("frame %d of %s is %s, not %v", i, x.Head(), g.Line(), f)
			}
			if strings.HasSuffix(f[0], ".größe漢") {
				if w := []string{"Heap$Named", "Heap$Marker", "int[][]", "class Heap"}; !slices.Equal(g.Locals, w) {
					return fmt.Errorf("locals of %s are %q", g.Line(), g.Locals)
				}
			}
		}
	}
	return nil
}

// ascending tells whether the objects of each kind are in ascending order.
func ascending(m *ref.Model) bool {
	last := map[byte]uint64{}
	for _, o := range m.Objs {
		if o.ID <= last[o.Kind] {
			return false
		}
		last[o.Kind] = o.ID
	}
	return true
}

var jvmOnce sync.Once
var jvmDir string

// jvm compiles the program that makes the heaps; "" if there is no JDK.
func (c *Ctx) jvm() string {
	jvmOnce.Do(func() {
		d := filepath.Join(c.Scratch, "jvm")
		os.MkdirAll(d, 0o755)
		src := filepath.Join(d, "Heap.java")
		os.WriteFile(src, heapJava, 0o644)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		if out, err := exec.CommandContext(ctx, "javac", "-encoding", "UTF-8", "-d", d, src).CombinedOutput(); err != nil {
			c.Note("no JDK works here, no dumps of a real JVM: %v %s", err, cut(string(out), 300))
			return
		}
		jvmDir = d
	})
	return jvmDir
}

// overJVM compares reports of real dumps with the oracle and the JVM.
func (c *Ctx) overJVM(vs [][]string) {
	dir := c.jvm()
	if dir == "" {
		return
	}
	n := c.Pick(3, 24)
	var wg sync.WaitGroup
	for i := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.One("jvm", i, func(k *Case) {
				flags := jvmFlags[(i*5+int(k.Seed)+len(c.ID)*int(c.ID[len(c.ID)-1]))%len(jvmFlags)]
				if c.ID == "C17" {
					flags = jvmFlags[len(jvmFlags)-2+i%2] // objects that lie out of order
				}
				live := k.R.P(70)
				args := append(append([]string{"-Xmx256m", "-XX:+IgnoreUnrecognizedVMOptions"}, flags...), "-cp", dir, "Heap", k.Path("d.hprof"), k.Path("truth"), fmt.Sprint(k.R.N(1<<30)), fmt.Sprint(live))
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				defer cancel()
				out, err := exec.CommandContext(ctx, "java", args...).CombinedOutput()
				var t *jvmTruth
				if err == nil {
					t, err = readTruth(k.Path("truth"))
				}
				if err != nil {
					c.Note("no dump of java %v: %v %s", flags, err, cut(string(out), 200))
					return
				}
				data, err := os.ReadFile(k.Path("d.hprof"))
				if err != nil {
					fatal("%v", err)
				}
				var m *ref.Model
				agree := func() (err error) {
					defer func() {
						if x := recover(); x != nil {
							err = fmt.Errorf("the oracle cannot read it: %v", x)
						}
					}()
					m = model(data)
					return t.agree(m)
				}
				if err := agree(); err != nil {
					if os.Getenv("VH_DEBUG") != "" {
						fmt.Println(flags, live, err)
					}
					c.Note("the JVM (%v) and the oracle disagree, dump not used: %v", flags, err)
					return
				}
				if !ascending(m) {
					if c.ID != "C17" {
						return
					}
					dump := k.Write("j.hprof", data)
					for _, v := range vs {
						r := k.Run(vargs(v, dump)...)
						if err := r.Refused(); err != nil {
							k.Fail("%s of a dump of a JVM (%v) with objects out of order: %v", vname(v), flags, err)
							return
						}
					}
					c.Obs("dumps of a real JVM with objects out of order", 1)
					c.Eval(fmt.Sprint("jvm", flags, len(data), vs))
					return
				}
				dump := k.Write("j.hprof", data)
				for _, v := range vs {
					r := k.Run(vargs(v, dump)...)
					if r.Exit != 0 || r.Crash() != "" {
						k.Fail("%s failed on a dump of a JVM (%v): %v", vname(v), flags, r)
						return
					}
					if err := Oracle(v, r.Stdout, m); err != nil {
						k.Fail("%s of a dump of a JVM (%v): %v", vname(v), flags, err)
						return
					}
				}
				c.Obs("dumps of a real JVM", 1)
				c.Obs("threads, properties and classes that the JVM described", len(t.Thr)+len(t.Props)+len(t.Counts))
				c.Seen("flags of the JVM", strings.Join(flags, " "))
				c.Eval(fmt.Sprint("jvm", flags, len(data), vs))
			})
		}()
	}
	wg.Wait()
}
