package main

import (
	"fmt"
	"os"
	"path/filepath"

	"vh/cli"
	"vh/hp"
	"vh/ref"
)

// wanted are the reports of one dump by arguments, each taken from a fresh
// copy in the plainest surroundings.
type wanted struct {
	k    *Case
	data []byte
	m    *ref.Model
	out  map[string]string
}

func (k *Case) wanted(data []byte, m *ref.Model) *wanted {
	k.files["d.hprof"] = data
	return &wanted{k: k, data: data, m: m, out: map[string]string{}}
}

// of is what the command v (without the dump) prints; false after a failure.
func (w *wanted) of(v []string) (string, bool) {
	if s, ok := w.out[vname(v)]; ok {
		return s, true
	}
	d, err := os.MkdirTemp(w.k.Dir, "fresh")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(d)
	p := filepath.Join(d, "d.hprof")
	if err := os.WriteFile(p, w.data, 0o644); err != nil {
		fatal("%v", err)
	}
	r := w.k.RunOpt(cli.Opt{Dir: d}, withDump(v, p)...)
	if r.Exit != 0 || r.Crash() != "" {
		w.k.Fail("%s failed on a well-formed dump: %v", vname(v), r)
		return "", false
	}
	w.out[vname(v)] = r.Stdout
	return r.Stdout, true
}

// withDump puts the dump into arguments.
func withDump(v []string, dump string) []string {
	return append([]string{v[0], "--hprof", dump}, v[1:]...)
}

// sure compares one plain report of the dump with the oracle.
func (w *wanted) sure(v []string) bool {
	a := append([]string{v[0], "--non-interactive", "--no-color"}, v[1:]...)
	s, ok := w.of(a)
	if !ok {
		return false
	}
	if err := Oracle(v, s, w.m); err != nil {
		w.k.Fail("%s of a fresh dump is wrong: %v", vname(v), err)
		return false
	}
	return true
}

// talkative is a world whose reports are long.
func talkative(r *hp.Rng) hp.Opts {
	o := hp.RandomOpts(r)
	o.Classes = max(o.Classes, 5+r.N(300))
	o.Threads = 3 + r.N(60)
	o.Props = 5 + r.N(100)
	return o
}

var _ = fmt.Sprint
