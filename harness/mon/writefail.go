package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vh/cli"
	"vh/fault"
	"vh/hp"
	"vh/ref"
)

func init() {
	register("C22", "fault_enumeration",
		"every file-system call that creates, writes, closes or renames something in the index directory fails in turn (by ptrace: ENOSPC, EIO, EDQUOT, EFBIG; once, or all later ones too, or a short write first), for dumps of one to several index batches, without an index, over one of another dump and over the rest of a killed analysis; real file systems of every size up to that of the index, with too few inodes, directories without permission, files and directories in the way; in process, every write and close of every index file fails; the command must fail with a message and no report, and when the obstacle is gone every report must be right; distinct by dump, place and kind of fault",
		checkWriteFail)
}

// mustFail tells which failing calls make a complete index impossible.
func mustFail(e fault.Event) bool {
	switch e.Call {
	case "write", "pwrite", "writev", "pwritev", "close", "rename", "link", "mkdir", "ftruncate", "fallocate", "fsync", "fdatasync", "copy_file_range":
		return e.Write
	case "openat":
		return e.Create
	}
	return false
}

// earlier puts something where the index will be.
func (k *Case) earlier(t *Truth, dump string, state int) string {
	switch state {
	case 1: // the index of another dump
		_, x, _ := Gen(k.Seed, fmt.Sprint(k.ID, "other", k.N), small(k.R), hp.RandomEnc(k.R, idSize(k.R)))
		os.WriteFile(dump, x.Data, 0o644)
		k.RunOpt(cli.Opt{Dir: filepath.Dir(dump)}, vargs(three[k.R.N(3)], dump)...)
		os.WriteFile(dump, t.Data, 0o644)
		future := time.Now().Add(time.Duration(k.R.N(100000)) * time.Millisecond)
		os.Chtimes(dump, future, future)
		return "index of another dump"
	case 2:
		k.traced(fault.Plan{Under: dump + ".db", At: 1 + k.R.N(70), Action: hp.Pick(k.R, "kill", "killafter")}, filepath.Dir(dump), nil, vargs(three[0], dump)...)
		return "rest of a killed analysis"
	}
	return "no index"
}

// failing runs one command with a fault and checks the ending.
func (k *Case) failing(t *Truth, dump string, v []string, p fault.Plan, state string) bool {
	p.Under = dump + ".db"
	args := vargs(v, dump)
	html := k.R.P(20)
	if html {
		args = append(args, "--output", "html")
	}
	lg, r := k.traced(p, filepath.Dir(dump), nil, args...)
	if !lg.Injured {
		k.Obs("faults that were not reached", 1)
		return true
	}
	var hit *fault.Event
	for i := range lg.Events {
		if e := &lg.Events[i]; e.Fault == "error" || e.Fault == "short" {
			if hit == nil {
				hit = e
			}
			if mustFail(*e) {
				hit = e
				break
			}
		}
	}
	what := fmt.Sprintf("%s (%s, first fault in %s of %s, errno %d, then all: %v)", vname(v), state, hit.Call, strings.TrimPrefix(hit.Path, dump), p.Errno, p.Sticky || p.Action == "short")
	k.Seen("calls that failed", hit.Call)
	k.Seen("errors", syscall.Errno(p.Errno).Error())
	if mustFail(*hit) {
		if err := r.Refused(); err != nil {
			k.Fail("%s: the failure is not reported: %v", what, err)
			return false
		}
		k.Obs("failures that were reported", 1)
	} else if r.Exit != 0 || !html {
		if err := t.RightOrRefused(v, r); err != nil {
			k.Fail("%s: %v", what, err)
			return false
		}
		k.Obs("failures of calls that are not needed", 1)
	}
	return true
}

func checkWriteFail(c *Ctx) {
	errnos := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG}
	// every call of a build
	c.One("every", 0, func(k *Case) {
		for d := 0; d < c.Pick(1, 12); d++ {
			if d > 0 && c.Over() {
				break
			}
			t := k.smallDump(fmt.Sprint("every", d), three)
			if t == nil {
				return
			}
			v := three[d%3]
			n := k.events(t.Data, v, false)
			k.Max("calls of a build", n)
			kinds := []fault.Plan{{Action: "error"}, {Action: "error", Sticky: true}, {Action: "short"}}
			c.CasesFor(fmt.Sprint("fail", d), (len(kinds)+1)*n, (len(kinds)+1)*n, 1, func(k *Case) {
				p := kinds[k.N%len(kinds)]
				p.At = 1 + k.N/len(kinds)
				before := 0
				if p.At > n {
					p.At = 1 + (k.N*3+k.N/n)%n
					before = 1 + k.R.N(2)
				}
				p.Errno = int(errnos[(k.N/len(kinds)+k.N%len(kinds))%len(errnos)])
				k.files["d.hprof"] = t.Data
				dump := k.place("d", t.Data)
				state := k.earlier(t, dump, before)
				if !k.failing(t, dump, v, p, state) {
					return
				}
				if k.follow(t, dump, fmt.Sprintf("%s with a failing call (%s, %s of call %d)", vname(v), state, p.Action, p.At), append([][]string{v}, shuffled(k.R, three)...)) {
					k.Eval(fmt.Sprint("every", d, p, state))
				}
			})
		}
	})
	// files systems that are full, for real
	c.full()
	c.CasesFor("obstacles", 30, c.Pick(100000, 1000000), 0.3, func(k *Case) { k.obstacle() })
	// several failures in a row
	c.CasesFor("history", 30, c.Pick(1000000, 10000000), 0.4, func(k *Case) {
		t := k.smallDump("d", full)
		if t == nil {
			return
		}
		dump := k.place("d", t.Data)
		state := k.earlier(t, dump, k.R.N(3))
		var hist []string
		for i := 1 + k.R.N(4); i > 0; i-- {
			v := full[k.R.N(len(full))]
			p := fault.Plan{At: 1 + k.R.N(75), Action: hp.Pick(k.R, "error", "error", "short"), Errno: int(errnos[k.R.N(len(errnos))]), Sticky: k.R.P(50)}
			if !k.failing(t, dump, v, p, state) {
				return
			}
			hist = append(hist, fmt.Sprint(v, p))
			state = fmt.Sprintf("after %d failures (%s)", len(hist), hist)
		}
		if k.follow(t, dump, "after "+state, shuffled(k.R, full)[:3]) {
			k.Eval(fmt.Sprint("history", hist))
			if k.N < 2 {
				k.Sample(hist)
			}
		}
	})
	// an index of several batches: writes fail in the middle of the parse
	n := c.Pick(3, 60)
	c.CasesFor("bulk", 3, n, 0.8, func(k *Case) {
		t, objs := k.bulkOf(k.N % 3)
		if t == nil {
			return
		}
		dump := k.place("d", t.Data)
		v := three[k.R.N(3)]
		at := 1 + k.R.N(30)
		if k.N < 3 { // the first write, which is the one of the full batch
			at = 1
		}
		p := fault.Plan{At: at, Action: hp.Pick(k.R, "error", "short"), Errno: int(errnos[k.R.N(len(errnos))]), Calls: []string{"write", "pwrite", "close", "rename"}, Sticky: k.R.P(30)}
		if !k.failing(t, dump, v, p, "no index") {
			return
		}
		if k.follow(t, dump, fmt.Sprintf("dump of %d objects, %s failed at %v", objs, vname(v), p), three[:2]) {
			k.Eval(fmt.Sprint("bulk", objs, p))
			k.Obs("dumps of more than a million objects", 1)
		}
	})
	c.InProcess(c.Probe, c.Pick(40, 2000), max(c.left(), 4))
}

// bulkOf is a dump with very many objects of one kind.
func (k *Case) bulkOf(kind int) (*Truth, int) {
	g := hp.Gen(k.Seed, fmt.Sprint(k.ID, "bulkof", k.N), small(k.R))
	e := hp.RandomEnc(k.R, 8)
	e.ObjBase = 1 << 40
	_, x, m := encode(g, e)
	var object, arr uint64
	for cid, d := range m.Class {
		if d.Super == 0 {
			object = cid
		}
		if n := m.ClassName(cid); strings.HasPrefix(n, "[L") && (arr == 0 || cid < arr) {
			arr = cid
		}
	}
	b := &hp.Bulk{IDSize: 8}
	var ps []hp.Piece
	n := 1_000_001 + k.R.N(400_000)
	for j := 0; j < n; j++ {
		switch kind {
		case 0:
			b.Inst(uint64(j+1), object)
		case 1:
			b.ObjArr(uint64(j+1), arr, 0)
		default:
			b.Prim(uint64(j+1), nil)
		}
		if b.Len() > 8<<20 {
			ps = append(ps, b.Segment())
		}
	}
	ps = append(ps, b.Segment())
	more := ref.More{Kind: "iop"[kind], Class: []ref.ID{object, arr, 0}[kind], Count: n}
	if kind == 2 {
		more.T = hp.TByte
	}
	m.More = append(m.More, more)
	all := hp.SpliceAt(x.Data, m.FirstSeg(), ps...)
	var data []byte
	for _, p := range all {
		data = append(data, p.B...)
		data = append(data, make([]byte, p.Zero)...)
	}
	return k.Truth("bulk", data, m, three), n
}

// obstacle makes the index impossible in other ways.
func (k *Case) obstacle() {
	r := k.R
	t := k.smallDump("d", three)
	if t == nil {
		return
	}
	dump := k.place("d", t.Data)
	dir := filepath.Dir(dump)
	v := three[r.N(3)]
	o := cli.Opt{Dir: dir}
	var remove func()
	must := true
	what := ""
	switch kind := r.N(4); {
	case kind == 0: // a file where the directory should be
		os.WriteFile(dump+".db", []byte("in the way"), 0o644)
		what, remove = "a file in the way of the index directory", func() { os.Remove(dump + ".db") }
	case kind == 1 && k.Nobody() > 0: // no permission
		os.Chmod(dir, 0o755)
		o.Uid = k.Nobody()
		what, remove = "no permission to create the directory", func() { os.Chmod(dir, 0o777) }
	case kind == 2 && k.Nobody() > 0: // no permission in an existing directory
		os.Mkdir(dump+".db", 0o755)
		if r.P(50) {
			k.RunOpt(cli.Opt{Dir: dir}, vargs(v, dump)...) // of an older version
			f := time.Now().Add(time.Hour)
			os.Chtimes(dump, f, f)
		}
		o.Uid = k.Nobody()
		what, remove = "no permission in the index directory", func() {
			os.Chmod(dump+".db", 0o777)
			es, _ := os.ReadDir(dump + ".db")
			for _, e := range es {
				os.Chmod(filepath.Join(dump+".db", e.Name()), 0o666)
			}
		}
	default: // directories where files should be
		other := k.place("names", t.Data)
		k.RunOpt(cli.Opt{Dir: filepath.Dir(other)}, vargs(v, other)...)
		es, _ := os.ReadDir(other + ".db")
		if len(es) == 0 {
			return
		}
		name := es[r.N(len(es))].Name()
		os.MkdirAll(filepath.Join(dump+".db", name, "x"), 0o755)
		must = false // the name may be one that is not needed
		what, remove = "a directory in the way of "+name, func() { os.RemoveAll(filepath.Join(dump+".db", name)) }
	}
	for i := 0; i < 1+r.N(2); i++ {
		res := k.RunOpt(o, vargs(v, dump)...)
		var err error
		if must {
			err = res.Refused()
		} else {
			err = t.RightOrRefused(v, res)
		}
		if err != nil {
			k.Fail("%s: %s: %v", what, vname(v), err)
			return
		}
		k.Obs("commands with obstacles refused", b2i(res.Exit != 0))
	}
	remove()
	for i, v := range append([][]string{v}, shuffled(r, three)...) {
		res := k.RunOpt(o, vargs(v, dump)...)
		if err := t.Right(v, res); err != nil {
			k.Fail("command %d after %s was removed: %v", i+1, what, err)
			return
		}
	}
	k.Seen("obstacles", what)
	k.Eval(fmt.Sprint(what, v, k.N))
}

const fullScript = `
# root, dir, first limit, then commands: run once on a small file system, enlarge it, run again
set -u
d=$1; opt=$2; bin=$3; dump=$4; out=$5; shift 5
mount -t tmpfs -o "$opt" none "$d" || { echo mount > "$out/nomount"; exit 0; }
ln -s "$dump" "$d/d.hprof" || { echo link > "$out/nomount"; exit 0; }
"$bin" "$@" --hprof "$d/d.hprof" > "$out/o1" 2> "$out/e1"; echo $? > "$out/s1"
du -a "$d/d.hprof.db" 2>/dev/null | sort > "$out/left"
mount -o remount,size=1g,nr_inodes=1000 "$d" || { echo remount > "$out/nomount"; exit 0; }
i=2
for c in "$1" threads summary objects; do
 case $c in threads) set -- threads --local-vars;; summary) set -- summary --all-props;; objects) set -- objects;; esac
 "$bin" "$@" --non-interactive --no-color --hprof "$d/d.hprof" > "$out/o$i" 2> "$out/e$i"; echo $? > "$out/s$i"
 echo "$c" > "$out/c$i"
 i=$((i+1))
done
du -sk "$d/d.hprof.db" | cut -f1 > "$out/need"
find "$d" | wc -l > "$out/inodes"
umount "$d"
exit 0
`

// onSmall runs a command on a tmpfs with options, false if there is none here.
func (k *Case) onSmall(t *Truth, v []string, opt string) (first *cli.Result, later [][]string, res []*cli.Result, need, inodes int) {
	d, out := k.Path("tmpfs"), k.Path("out")
	os.MkdirAll(d, 0o755)
	os.RemoveAll(out)
	os.MkdirAll(out, 0o755)
	dump := k.Path("d.hprof")
	if _, err := os.Stat(dump); err != nil {
		os.WriteFile(dump, t.Data, 0o644)
	}
	args := append([]string{"-Urm", "/bin/sh", "-c", fullScript, "sh", d, opt, k.Bin, dump, out}, append(append([]string{}, v...), "--non-interactive", "--no-color")...)
	cmd := exec.Command("unshare", args...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return
	}
	tm := time.AfterFunc(120*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	cmd.Wait()
	tm.Stop()
	rd := func(n string) string { b, _ := os.ReadFile(filepath.Join(out, n)); return string(b) }
	num := func(n string) int { i, _ := strconv.Atoi(strings.TrimSpace(rd(n))); return i }
	if rd("s1") == "" || rd("nomount") != "" || rd("s5") == "" {
		return
	}
	get := func(i int, v []string) *cli.Result {
		r := &cli.Result{Args: append([]string{fmt.Sprintf("[file system with %s]", opt)}, v...), Stdout: rd(fmt.Sprint("o", i)), Stderr: rd(fmt.Sprint("e", i)), Exit: num(fmt.Sprint("s", i))}
		k.mu.Lock()
		k.runs = append(k.runs, r)
		k.mu.Unlock()
		k.Ctx.runs.Add(1)
		return r
	}
	first = get(1, v)
	for i := 2; i <= 5; i++ {
		for _, w := range three {
			if w[0] == strings.TrimSpace(rd(fmt.Sprint("c", i))) {
				later = append(later, w)
				res = append(res, get(i, w))
			}
		}
	}
	return first, later, res, num("need"), num("inodes")
}

// full uses small file systems.
func (c *Ctx) full() {
	type plan struct {
		t    *Truth
		v    []string
		opts []string
		need int
	}
	var plans []plan
	ok := true
	c.One("sizes", 0, func(k *Case) {
		for d := 0; d < c.Pick(2, 10) && ok; d++ {
			o := small(k.R)
			if d%2 == 1 {
				o.Objects = hp.Pick(k.R, 3000, 9000)
			}
			_, x, m := Gen(k.Seed, fmt.Sprint("C22full", d), o, hp.RandomEnc(k.R, idSize(k.R)))
			t := k.Truth(fmt.Sprint("full", d), x.Data, m, three)
			if t == nil {
				ok = false
				return
			}
			os.Remove(k.Path("d.hprof"))
			v := three[d%3]
			r, _, _, need, inodes := k.onSmall(t, v, "size=1g,nr_inodes=1000")
			if r == nil {
				c.Note("no file system can be mounted here, full ones are only simulated")
				ok = false
				return
			}
			if err := t.Right(v, r); err != nil {
				k.Fail("on tmpfs: %v", err)
				ok = false
				return
			}
			p := plan{t: t, v: v, need: need}
			steps := map[int]bool{}
			for kb := 4; kb < need; kb += 4 {
				if need/4 < c.Pick(30, 300) || kb < 40 || kb > need-40 || k.R.N(need/4) < c.Pick(20, 300) {
					steps[kb] = true
				}
			}
			var l []int
			for kb := range steps {
				l = append(l, kb)
			}
			sort.Ints(l)
			for _, kb := range l {
				p.opts = append(p.opts, fmt.Sprintf("size=%dk,nr_inodes=1000", kb))
			}
			for n := 3; n < inodes; n++ { // the root, the link to the dump and something
				p.opts = append(p.opts, fmt.Sprintf("size=1g,nr_inodes=%d", n+1))
			}
			plans = append(plans, p)
		}
	})
	if !ok {
		return
	}
	type job struct {
		p   plan
		opt string
	}
	var jobs []job
	for _, p := range plans {
		for _, o := range p.opts {
			jobs = append(jobs, job{p, o})
		}
	}
	c.CasesFor("full", min(len(jobs), 40), len(jobs), 0.6, func(k *Case) {
		j := jobs[(k.N*37)%len(jobs)]
		if len(jobs)%37 == 0 {
			j = jobs[k.N]
		}
		t := j.p.t
		k.files["d.hprof"] = t.Data
		r, later, res, _, _ := k.onSmall(t, j.p.v, j.opt)
		if r == nil {
			k.Obs("file systems that could not be made", 1)
			return
		}
		var kb int
		if !strings.HasPrefix(j.opt, "size=1g") {
			fmt.Sscanf(j.opt, "size=%dk", &kb)
		}
		var err error
		if kb > 0 && kb < j.p.need*9/10-4 {
			err = r.Refused() // there is no room for the index
		} else {
			err = t.RightOrRefused(j.p.v, r)
		}
		if err != nil {
			k.Fail("%s on a file system with %s (the index takes %d KiB): %v", vname(j.p.v), j.opt, j.p.need, err)
			return
		}
		k.Obs("commands on full file systems refused", b2i(r.Exit != 0))
		for i, v := range later {
			if err := t.Right(v, res[i]); err != nil {
				k.Fail("command %d after %s on a file system with %s, which was enlarged then: %v", i+1, vname(j.p.v), j.opt, err)
				return
			}
		}
		k.Obs("full file systems", 1)
		k.Eval(fmt.Sprint("full", len(t.Data), j.opt))
	})
}
