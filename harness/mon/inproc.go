package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"time"
)

// probeOut is what a worker of the probe reports.
type probeOut struct {
	Evals   int
	Keys    []uint64
	Obs     map[string]int
	Max     map[string]int
	Sets    map[string]map[string]bool
	Samples []any
	Fail    string
	File    string
	Case    string
}

// InProcess runs the probe on all cores.
func (c *Ctx) InProcess(bin string, min int, seconds float64) {
	if bin == "" {
		// the packages were reorganised: only the reports can be observed
		c.Note("the in-process probe does not build against this tree, only the tool itself was observed")
		return
	}
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.One(fmt.Sprint("probe", w), w, func(k *Case) {
				limit := time.Duration(seconds*1.5+300) * time.Second
				cmd := exec.Command(bin, "-id", c.ID, "-tier", c.Tier, "-seed", fmt.Sprint(c.Seed), "-worker", fmt.Sprint(w), "-of", fmt.Sprint(n),
					"-min", fmt.Sprint(min), "-budget", fmt.Sprint(seconds), "-dir", k.Dir)
				var out, errb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &errb
				cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66")
				if err := cmd.Start(); err != nil {
					fatal("probe: %v", err)
				}
				t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
				err := cmd.Wait()
				t.Stop()
				var o probeOut
				if err == nil {
					err = json.Unmarshal(out.Bytes(), &o)
				}
				if err != nil {
					s := errb.String()
					switch {
					case bytes.Contains(errb.Bytes(), []byte("DATA RACE")):
						k.Fail("data race in the tool's parser:\n%s", s)
					case bytes.HasPrefix(errb.Bytes(), []byte("probe bug")) || cmd.ProcessState.ExitCode() == 3:
						fatal("probe: %v\n%s", err, s)
					case bytes.Contains(errb.Bytes(), []byte("fatal error:")) || bytes.Contains(errb.Bytes(), []byte("panic:")):
						k.Fail("the tool's code crashes in process: %v\n%s", err, s)
					default:
						fatal("probe: %v\n%s", err, s)
					}
					return
				}
				c.merge(&o)
				if o.Fail != "" {
					if o.File != "" {
						if b, err := os.ReadFile(o.File); err == nil {
							k.files[filepath.Base(o.File)] = b
						}
					}
					k.Fail("in process, case %s: %s\n(repeat: probe -id %s -tier %s -seed %d -only %q)", o.Case, o.Fail, c.ID, c.Tier, c.Seed, o.Case)
				}
			})
		}()
	}
	wg.Wait()
}

func (c *Ctx) merge(o *probeOut) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals += o.Evals
	for _, k := range o.Keys {
		c.distinct[k] = true
	}
	for n, v := range o.Obs {
		c.obs[n] += v
	}
	for n, v := range o.Max {
		c.minmax[n] = max(c.minmax[n], v)
	}
	for n, s := range o.Sets {
		if c.sets[n] == nil {
			c.sets[n] = map[string]bool{}
		}
		for v := range s {
			c.sets[n][v] = true
		}
	}
	for _, s := range o.Samples {
		if len(c.samples) < 5 {
			c.samples = append(c.samples, s)
		}
	}
}

func (c *Ctx) left() float64 { return max(time.Until(c.deadline).Seconds(), 1) }
