package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"

	textwire "github.com/textwire/textwire/v2"
)

func init() {
	register(&Prop{
		ID: "C16", Quick: 280, Thorough: 8000,
		Rule: "a generated tree of layouts, components, loops and failing templates, plus strings and files; of about 600 possible calls (String, Response, EvaluateString, EvaluateFile x name or source x data, also of one file rewritten before every call) 26 are drawn; every call is made first in a process of its own (the fresh-state answer), then on one loaded Template in histories that contain every ordered pair of the 26 calls, every ordered triple of 7 of them, every pair of one template with all data variants (one with unsupported values), and random sequences; data maps are reused along half of the histories; in 2 of 3 cases custom functions make calls of their own inside a render; debug mode and a working, failing or missing custom error page vary; " +
			"monitors: every call in every history returns what it returned in its fresh process; the caller's data and configuration are deeply equal to an untouched copy after every call; distinct = (call, preceding call) with their outcomes",
		Assumptions: []string{"processes of even shards never set ErrorPagePath, because the setting cannot be taken back"},
		Setup:       func(w *W) { worldSetup() },
		Run:         c16,
		Fresh:       c16Fresh,
	})
}

type c16Req struct {
	Dir         string
	Case, Shard int
	Ops         []int
	Load        int // how many times the templates are loaded
}

func c16World(i, shard int) (*world, []wop, *rand.Rand) {
	r := caseRand("C16", i)
	wd := newWorld(nil, r, fmt.Sprintf("c16-%d/t", i), i)
	if shard%2 == 1 {
		wd.Cfg.ErrorPagePath = []string{"err/ok", "err/fails", "nosuch-error-page"}[r.IntN(3)]
	}
	var ops []wop
	seen := map[string]bool{}
	// one file that has another content in every call
	for _, s := range []string{"rewritten {{ v }}A", "rewritten {{ v }}B", "{{ 1 /\nzero }}"}[:2+r.IntN(2)] {
		ops = append(ops, wop{"rewrite and EvaluateFile", s, r.IntN(worldVars)})
	}
	for len(ops) < 26 {
		o := wd.Ops[r.IntN(len(wd.Ops))]
		if k := fmt.Sprint(o.Kind, o.Name, o.Var); !seen[k] {
			seen[k] = true
			ops = append(ops, o)
		}
	}
	// all data variants of one template of the tree
	o := ops[len(ops)-1]
	for o.Kind != "String" && o.Kind != "Response" {
		o = wd.Ops[r.IntN(len(wd.Ops))]
	}
	for v := 0; v < worldVars; v++ {
		o.Var = v
		if k := fmt.Sprint(o.Kind, o.Name, o.Var); !seen[k] {
			seen[k] = true
			ops = append(ops, o)
		}
	}
	return wd, ops, r
}

func c16Fresh(arg string) string {
	var q c16Req
	if err := json.Unmarshal([]byte(arg), &q); err != nil {
		panic(err)
	}
	must(os.Chdir(q.Dir))
	worldSetup()
	wd, ops, _ := c16World(q.Case, q.Shard)
	wd.Rewritten = fmt.Sprintf("rewritten-%d.txt", os.Getpid())
	tpl, err := textwire.NewTemplate(&wd.Cfg)
	if err != nil {
		return "load " + err.Error()
	}
	s := ""
	for _, o := range q.Ops {
		s += wd.do(q.Dir, tpl, ops[o])
	}
	return s
}

// deBruijn returns a cyclic sequence over k letters that contains every word of
// length n.
func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(seq, seq[:min(n-1, len(seq))]...)
}

func c16(w *W, i int) {
	wd, ops, r := c16World(i, i%8)
	wd.write(w)
	defer wd.remove(w)
	base := make([]string, len(ops))
	exe, _ := os.Executable()
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for k := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := c16Req{Dir: w.Dir, Case: i, Shard: i % 8, Ops: []int{k}}
			cmd := exec.Command(exe, "fresh", "C16", string(mustJSON(q)))
			out, err := cmd.Output()
			if err != nil {
				mu.Lock()
				bad = fmt.Sprint(err, string(out))
				mu.Unlock()
			}
			base[k] = string(out)
		}()
		if k%4 == 3 {
			wg.Wait()
		}
	}
	wg.Wait()
	if bad != "" {
		w.Fail("a call in a fresh process crashed", "error", bad, "template", wd.T.dump())
		return
	}
	w.Feats["fresh processes"] += int64(len(ops))
	cfg := wd.Cfg
	var tpl *textwire.Template
	load := func() bool {
		var err error
		if tpl, err = textwire.NewTemplate(&wd.Cfg); err != nil {
			w.Fail("the templates do not load", "template", wd.T.dump(), "error", err.Error())
			return false
		}
		return true
	}
	if !load() {
		return
	}
	worldNested.Store(i%3 > 0)
	defer worldNested.Store(false)
	kept := map[int]map[string]any{}
	var hist []string
	out := func(s string) string {
		return map[bool]string{true: "ok", false: "error"}[strings.HasSuffix(s, "\nerr ")]
	}
	run := func(what string, seq []int, keep bool) bool {
		hist = nil
		for n, k := range seq {
			o := ops[k]
			d := wd.data(o.Var)
			if keep && o.Var >= 0 {
				if kept[o.Var] == nil {
					kept[o.Var] = d
				}
				d = kept[o.Var]
			}
			w.Evals++
			got := wd.doData(w.Dir, tpl, o, d)
			hist = append(hist, o.String())
			info := func(kv ...string) []string {
				h := hist
				if len(h) > 40 {
					h = h[len(h)-40:]
				}
				return append([]string{"template", wd.T.dump(), "call", o.String(), "source", o.Name, "history", what + ": " + strings.Join(h, "\n"), "config", fmt.Sprintf("%+v", wd.Cfg)}, kv...)
			}
			if got != base[k] {
				w.Fail("a call returned something else than in a fresh process", info("fresh", base[k], "got", got)...)
				return false
			}
			if want := wd.data(o.Var); !reflect.DeepEqual(d, want) {
				w.Fail("the caller's data changed", info("before", fmt.Sprintf("%#v", want), "after", fmt.Sprintf("%#v", d))...)
				return false
			}
			if wd.Cfg != cfg {
				w.Fail("the caller's configuration changed", info()...)
				return false
			}
			if n > 0 {
				p := ops[seq[n-1]]
				w.Feat(fmt.Sprintf("%s %s after %s %s", o.Kind, out(base[k]), p.Kind, out(base[seq[n-1]])))
				w.Key(fmt.Sprint(o, got, p, base[seq[n-1]]))
			}
		}
		return true
	}
	w.Sample(fmt.Sprintf("calls %v, debug %v, error page %q", ops, wd.Cfg.DebugMode, wd.Cfg.ErrorPagePath))
	perm := r.Perm(len(ops))
	pairs := deBruijn(26, 2)
	for k := range pairs {
		pairs[k] = perm[pairs[k]]
	}
	if !run("pairs", pairs, i%2 == 0) {
		return
	}
	if r.IntN(2) == 0 && !load() { // a history that starts on fresh templates
		return
	}
	sub := r.Perm(len(ops))[:7]
	trip := deBruijn(7, 3)
	for k := range trip {
		trip[k] = sub[trip[k]]
	}
	if !run("triples", trip, i%2 == 1) {
		return
	}
	var last []int
	for k := 26; k < len(ops); k++ {
		last = append(last, k)
	}
	if len(last) > 1 {
		vars := deBruijn(len(last), 2)
		for k := range vars {
			vars[k] = last[vars[k]]
		}
		if !run("data variants", vars, true) {
			return
		}
	}
	var rnd []int
	for n := 0; n < 200; n++ {
		k := r.IntN(len(ops))
		rnd = append(rnd, k)
		for r.IntN(4) == 0 { // the same call many times
			rnd = append(rnd, k)
		}
	}
	run("random", rnd, r.IntN(2) == 0)
}
