// Command ramlverif binds the TLA+ specifications under /verif/spec to the real
// library: it replays behaviours printed by TLC into the public API and records
// behaviours of the public API for TLC to validate.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"sync"
)

// Mismatch is one observed difference between the code and the specification.
type Mismatch struct {
	Aspect string      `json:"aspect"` // which part of the behaviour differs
	Where  string      `json:"where"`  // object and operation
	What   string      `json:"what"`   // expected and actual
	Case   interface{} `json:"case"`   // everything needed to run it again
}

// Result is what a subcommand reports.
type Result struct {
	mu         sync.Mutex
	Mismatches []Mismatch             `json:"mismatches"`
	Total      map[string]int         `json:"total"` // mismatches per aspect
	Stats      map[string]int         `json:"stats"`
	Samples    []interface{}          `json:"samples"`
	Info       map[string]interface{} `json:"info,omitempty"`
}

func newResult() *Result {
	return &Result{Mismatches: []Mismatch{}, Total: map[string]int{}, Stats: map[string]int{}, Samples: []interface{}{}}
}

const maxPerAspect = 40

func (r *Result) fail(m Mismatch) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Total[m.Aspect]++
	if r.Total[m.Aspect] <= maxPerAspect {
		r.Mismatches = append(r.Mismatches, m)
	}
}

func (r *Result) add(stat string, n int) {
	r.mu.Lock()
	r.Stats[stat] += n
	r.mu.Unlock()
}

func (r *Result) sample(max int, s interface{}) {
	r.mu.Lock()
	if len(r.Samples) < max {
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}

func (r *Result) write(path string) {
	sort.SliceStable(r.Mismatches, func(i, j int) bool { return r.Mismatches[i].Aspect < r.Mismatches[j].Aspect })
	b, err := json.Marshal(r)
	check(err)
	check(os.WriteFile(path, b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "ramlverif:", err)
		os.Exit(3)
	}
}

type options struct {
	in, out, trace string
	seed           int64
	n              int
	size           int
	mode           string
	only           string
}

var commands = map[string]func(options, *Result){}

func main() {
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: ramlverif <command> [flags]")
		os.Exit(3)
	}
	var o options
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	fs.StringVar(&o.in, "in", "", "input file (ndjson)")
	fs.StringVar(&o.out, "out", "", "result file")
	fs.StringVar(&o.trace, "trace", "", "trace file to write (ndjson)")
	fs.Int64Var(&o.seed, "seed", 1, "seed of all random choices")
	fs.IntVar(&o.n, "n", 100, "number of cases")
	fs.IntVar(&o.size, "size", 10, "size of each case")
	fs.StringVar(&o.mode, "mode", "", "variant")
	fs.StringVar(&o.only, "only", "", "restrict to one kind")
	check(fs.Parse(os.Args[2:]))
	r := newResult()
	commands[os.Args[1]](o, r)
	r.write(o.out)
}
