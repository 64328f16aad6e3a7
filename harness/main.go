// vh is the runtime-monitoring harness: it runs the real textwire code under
// generated workloads and compares every execution with an oracle.
//
//	vh check  <PROP>                      run the check (parent process)
//	vh worker <PROP> <shard> <n> <dir>    run one shard of the workload
//	vh one    <PROP> <index>              run a single case, verbosely
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
)

// Prop is a monitor of one property.
type Prop struct {
	ID    string
	Level string
	Rule  string
	// Cases is the number of cases per tier.
	Quick, Thorough int
	Shards          int // default 8
	Setup           func(w *W)
	Run             func(w *W, i int)
	// Finish may add cross-process verdicts in the parent.
	Finish func(p *Parent)
	// Rounds is how many separate processes run every case; digests of all
	// rounds must be equal (C14).
	Rounds      int
	Assumptions []string
	// Race runs the workers from the -race binary.
	Race bool
	// Fresh handlers for sub-processes (vh fresh <PROP> <file>)
	Fresh func(arg string) string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh check|worker|one|fresh PROP ...")
		os.Exit(2)
	}
	p := props[os.Args[2]]
	if p == nil {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[2], "have", ids)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runParent(p))
	case "worker":
		shard, _ := strconv.Atoi(os.Args[3])
		n, _ := strconv.Atoi(os.Args[4])
		start, _ := strconv.Atoi(os.Args[6])
		runWorker(p, shard, n, os.Args[5], start)
	case "one":
		i, _ := strconv.Atoi(os.Args[3])
		runOne(p, i)
	case "fresh":
		fmt.Print(p.Fresh(os.Args[3]))
	default:
		os.Exit(2)
	}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, _ := os.Executable()
	return filepath.Dir(filepath.Dir(exe))
}
