// Serve runs the commands of the tool one after another in one process, which
// is much faster than a process for each. What looks wrong here is repeated
// with the tool itself before it counts.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"

	"github.com/danielleontiev/neojhat/internal/cmd"
)

type reply struct {
	Exit  int
	Err   string
	Alloc uint64
}

func parse(fs *flag.FlagSet, args []string) {
	fs.VisitAll(func(f *flag.Flag) {
		if err := f.Value.Set(f.DefValue); err != nil {
			fmt.Fprintln(os.Stderr, "serve: default of", f.Name, err)
			os.Exit(3)
		}
	})
	fs.Parse(args)
}

// run does what main of the tool does.
func run(args []string) (r reply) {
	defer func() {
		if x := recover(); x != nil {
			r = reply{Exit: 2, Err: fmt.Sprintf("panic: %v\n\n%s", x, debug.Stack())}
		}
	}()
	var err error
	switch args[0] {
	case cmd.Threads:
		parse(cmd.ThreadsCommand, args[1:])
		f := cmd.ThreadFlags
		if err = cmd.ParseHprof(f.Hprof, f.NonInteractive); err == nil {
			err = cmd.GetThreads(f.Hprof, f.NoColor, f.LocalVars, f.Output)
		}
	case cmd.Summary:
		parse(cmd.SummaryCommand, args[1:])
		f := cmd.SummaryFlags
		if err = cmd.ParseHprof(f.Hprof, f.NonInteractive); err == nil {
			err = cmd.GetSummary(f.Hprof, f.NoColor, f.AllProps, f.Output)
		}
	case cmd.Objects:
		parse(cmd.ObjectsCommand, args[1:])
		f := cmd.ObjectsFlags
		if err = cmd.ParseHprof(f.Hprof, f.NonInteractive); err == nil {
			err = cmd.GetObjects(f.Hprof, f.NoColor, f.SortBy, f.Output)
		}
	default:
		os.Exit(3)
	}
	if err != nil {
		fmt.Printf("Error occurred: %v", err)
		return reply{Exit: 1}
	}
	return reply{}
}

func main() {
	in, out := bufio.NewScanner(os.NewFile(3, "jobs")), json.NewEncoder(os.NewFile(4, "replies"))
	in.Buffer(make([]byte, 1<<16), 1<<20)
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	out.Encode(reply{})
	for n := 1; in.Scan(); n++ {
		var args []string
		if err := json.Unmarshal(in.Bytes(), &args); err != nil {
			os.Exit(3)
		}
		metrics.Read(s)
		before := s[0].Value.Uint64()
		r := run(args)
		metrics.Read(s)
		r.Alloc = s[0].Value.Uint64() - before
		if n%64 == 0 {
			runtime.GC() // closes files that were left open
		}
		out.Encode(r)
	}
}
