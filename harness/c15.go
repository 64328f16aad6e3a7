package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	textwire "github.com/textwire/textwire/v2"
)

func init() {
	register(&Prop{
		ID: "C15", Quick: 1200, Thorough: 40000, Race: true,
		Rule: "a generated tree of layouts, components, loops and failing templates is loaded; 4 to 24 goroutines leave a barrier and make 6 to 20 calls each (String, Response, EvaluateString, EvaluateFile; renders that succeed, fail at run time, fail to parse, name nothing; same and different data of different types, also data with unsupported values), with GOMAXPROCS 1 to 16 and scheduler noise inside the renders (custom functions and the response writer yield; in half of the cases the functions call EvaluateString and EvaluateFile themselves); custom error pages in half of the processes; the storm comes first in the life of the loaded templates in half of the cases, so that lazily built state is built under contention; " +
			"monitors: the Go race detector, and equality of every result with the same call made alone on freshly loaded templates; distinct = order of call starts and ends",
		Assumptions: []string{"interleavings are those the Go scheduler produced; the number of overlapping call pairs is under observed"},
		Setup:       func(w *W) { worldSetup() },
		Run:         c15,
	})
}

type c15Call struct {
	op         int
	start, end time.Time
	got        string
}

func c15(w *W, i int) {
	wd := newWorld(w, w.R, fmt.Sprintf("c15-%d/t", i), i)
	if w.Shard%2 == 1 {
		wd.Cfg.ErrorPagePath = []string{"err/ok", "err/fails", "nosuch-error-page"}[w.R.IntN(3)]
	}
	wd.write(w)
	defer wd.remove(w)
	// a case uses few of the calls, so that goroutines meet on them
	var ops []wop
	for k := 0; k < 6+w.R.IntN(14); k++ {
		ops = append(ops, wd.Ops[w.R.IntN(len(wd.Ops))])
	}
	if w.R.IntN(3) == 0 { // same page, different data
		o := ops[0]
		ops = ops[:1]
		for v := 0; v < worldVars; v++ {
			o.Var = v
			ops = append(ops, o)
		}
	}
	base := make([]string, len(ops))
	alone := func() bool {
		for k, o := range ops {
			tpl, err := textwire.NewTemplate(&wd.Cfg)
			if err != nil {
				w.Fail("the templates do not load", "template", wd.T.dump(), "error", err.Error())
				return false
			}
			w.Evals++
			base[k] = wd.do(w.Dir, tpl, o)
		}
		return true
	}
	before := w.R.IntN(2) == 0
	if before && !alone() {
		return
	}
	tpl, err := textwire.NewTemplate(&wd.Cfg)
	if err != nil {
		w.Fail("the templates do not load", "template", wd.T.dump(), "error", err.Error())
		return
	}
	G := 4 + w.R.IntN(21)
	K := 6 + w.R.IntN(15)
	procs := []int{1, 2, 4, 8, 8, 16}[w.R.IntN(6)]
	old := runtime.GOMAXPROCS(procs)
	logs := make([][]c15Call, G)
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		r := rand.New(rand.NewPCG(w.R.Uint64(), w.R.Uint64()))
		stagger := w.R.IntN(4) == 0
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			log := make([]c15Call, 0, K)
			<-gate
			for k := 0; k < K; k++ {
				if stagger && r.IntN(3) == 0 {
					time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
				}
				o := r.IntN(len(ops))
				c := c15Call{op: o, start: time.Now()}
				c.got = wd.do(w.Dir, tpl, ops[o])
				c.end = time.Now()
				log = append(log, c)
			}
			logs[g] = log
		}(g)
	}
	worldNested.Store(w.R.IntN(2) == 0)
	close(gate)
	wg.Wait()
	worldNested.Store(false)
	runtime.GOMAXPROCS(old)
	if !before && !alone() {
		return
	}
	w.Evals += int64(G * K)
	// observed interleaving
	type ev struct {
		t    time.Time
		what string
		d    int
	}
	var evs []ev
	for g, l := range logs {
		for _, c := range l {
			evs = append(evs, ev{c.start, fmt.Sprintf("%d<%d", g, c.op), 1}, ev{c.end, fmt.Sprintf("%d>%d", g, c.op), -1})
		}
	}
	sort.Slice(evs, func(a, b int) bool { return evs[a].t.Before(evs[b].t) })
	var b strings.Builder
	in, overl, maxIn := 0, 0, 0
	for _, e := range evs {
		if e.d > 0 {
			overl += in
		}
		in += e.d
		maxIn = max(maxIn, in)
		b.WriteString(e.what)
	}
	w.Key(b.String())
	w.Feats["overlapping pairs of calls"] += int64(overl)
	w.Feat(fmt.Sprintf("most calls at the same time: %d", maxIn/4*4))
	w.Feat(fmt.Sprintf("GOMAXPROCS %d", procs))
	w.Sample(fmt.Sprintf("%d goroutines x %d calls of %v, GOMAXPROCS %d, debug %v, error page %q", G, K, ops, procs, wd.Cfg.DebugMode, wd.Cfg.ErrorPagePath))
	for _, l := range logs {
		for _, c := range l {
			o := ops[c.op]
			w.Feat(o.Kind + map[bool]string{true: " without error", false: " with error"}[strings.HasSuffix(c.got, "\nerr ")])
			if c.got != base[c.op] {
				w.Fail("a concurrent call returned something else than alone", "template", wd.T.dump(), "call", o.String(), "source", o.Name, "alone", base[c.op], "got", c.got, "config", fmt.Sprintf("%+v", wd.Cfg))
				return
			}
		}
	}
}
