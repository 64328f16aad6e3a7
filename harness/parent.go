package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Parent collects the results of the worker processes of one check.
type Parent struct {
	P       *Prop
	Dir     string
	Exe     string
	mu      sync.Mutex
	Res     Result
	keys    map[uint64]struct{}
	viol    []Violation
	digests []map[uint64]string // per round
	infra   []string
	procs   int
	races   int
}

type procOut struct {
	code int
	out  string
}

func (p *Parent) exec(args ...string) procOut { return p.execRound(0, args...) }

// execRound runs a worker; the environment of later rounds differs.
func (p *Parent) execRound(round int, args ...string) procOut {
	cmd := exec.Command(p.Exe, args...)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66", "VERIF_DIR="+verifDir(), fmt.Sprintf("VH_ROUND=%d", round))
	if round%2 == 1 {
		cmd.Env = append(cmd.Env, "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "GOMAXPROCS=3", "USER=other", "PWD=/")
	}
	if failFast {
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	}
	err := cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	s := buf.String()
	if len(s) > 200000 {
		s = s[:100000] + "\n...cut...\n" + s[len(s)-50000:]
	}
	return procOut{code, s}
}

func why(code int) string {
	switch code {
	case 41:
		return "hang (CPU budget of one case exceeded)"
	case 42:
		return "hang (no progress)"
	case 44:
		return "deadlock (no CPU time used in a case for 45 s)"
	case 43:
		return "memory (resident set exceeded the budget)"
	case 66:
		return "data race"
	}
	return fmt.Sprintf("process crash (exit %d)", code)
}

func runParent(prop *Prop) int {
	t0 := time.Now()
	exe, _ := os.Executable()
	if prop.Race {
		exe = filepath.Join(filepath.Dir(exe), "vh-race")
	}
	p := &Parent{P: prop, Exe: exe, keys: map[uint64]struct{}{}}
	p.Res.Skips, p.Res.Feats = map[string]int64{}, map[string]int64{}
	base, err := os.MkdirTemp("", "vhp-"+prop.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p.Dir = base
	defer os.RemoveAll(base)

	rounds := prop.Rounds
	if rounds == 0 {
		rounds = 1
	}
	shards := prop.Shards
	if shards == 0 {
		shards = 8
	}
	for r := 0; r < rounds; r++ {
		p.digests = append(p.digests, map[uint64]string{})
		var wg sync.WaitGroup
		for s := 0; s < shards; s++ {
			wg.Add(1)
			go func(r, s int) {
				defer wg.Done()
				p.shard(r, s, shards)
			}(r, s)
		}
		wg.Wait()
	}
	if rounds > 1 {
		p.compareRounds()
	}
	if prop.Finish != nil {
		prop.Finish(p)
	}
	return p.report(t0)
}

func (p *Parent) shard(round, s, n int) {
	start := s
	crashes := 0
	for {
		dir := filepath.Join(p.Dir, fmt.Sprintf("r%d-s%d-%d", round, s, crashes))
		os.MkdirAll(dir, 0o755)
		o := p.execRound(round, "worker", p.P.ID, fmt.Sprint(s), fmt.Sprint(n), dir, fmt.Sprint(start))
		p.mu.Lock()
		p.procs++
		p.mu.Unlock()
		var res Result
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("result-%d", s)))
		if err == nil {
			err = json.Unmarshal(b, &res)
		}
		if err == nil {
			p.merge(round, &res)
		}
		if sd, e := os.ReadFile(filepath.Join(dir, fmt.Sprintf("scratch-%d", s))); e == nil {
			if strings.HasPrefix(filepath.Base(string(sd)), "vh-") {
				os.RemoveAll(string(sd))
			}
		}
		if failFast && len(p.viol) > 0 {
			p.mu.Lock()
			v := p.viol[0]
			fmt.Printf("VIOLATION property=%s replay=none\n  kind: %s (case %d)\n", p.P.ID, v.Kind, v.Case)
			os.RemoveAll(p.Dir)
			os.Exit(1)
		}
		if o.code == 0 && err == nil && res.Done {
			return
		}
		idx := -1
		if jb, e := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal-%d", s))); e == nil && len(jb) == 8 {
			idx = int(binary.LittleEndian.Uint64(jb)) - 1
		}
		if o.code == 66 && p.P.Race {
			p.mu.Lock()
			p.viol = append(p.viol, Violation{Case: idx, Kind: "data race", Info: map[string]string{"report": o.out}})
			p.mu.Unlock()
			if res.Done {
				return
			}
		} else if idx < 0 {
			p.mu.Lock()
			p.infra = append(p.infra, fmt.Sprintf("shard %d: exit %d without journal: %s", s, o.code, tail(o.out)))
			p.mu.Unlock()
			return
		} else {
			// confirm alone
			c := p.exec("one", p.P.ID, fmt.Sprint(idx))
			p.mu.Lock()
			if c.code != 0 {
				p.viol = append(p.viol, Violation{Case: idx, Kind: why(o.code), Info: map[string]string{
					"worker": tail(o.out), "alone": why(c.code), "alone_output": c.out}})
			} else if o.code == 44 && p.P.Race {
				p.viol = append(p.viol, Violation{Case: idx, Kind: why(o.code), Info: map[string]string{
					"worker": tail(o.out), "alone": "not reproduced alone: depends on the schedule"}})
			} else if o.code == 44 || o.code == 41 || o.code == 42 || o.code == 43 || o.code == -1 {
				p.infra = append(p.infra, fmt.Sprintf("case %d: %s, not reproduced alone", idx, why(o.code)))
			} else {
				p.viol = append(p.viol, Violation{Case: idx, Kind: why(o.code), Info: map[string]string{
					"worker": tail(o.out), "alone": "not reproduced alone: depends on the earlier cases of the shard"}})
			}
			p.mu.Unlock()
			if c.code >= 41 && c.code <= 44 {
				return // every further case may take as long
			}
		}
		crashes++
		if crashes >= 3 {
			return
		}
		start = idx + n
	}
}

func tail(s string) string {
	if len(s) > 12000 {
		return s[:6000] + "\n...\n" + s[len(s)-6000:]
	}
	return s
}

func (p *Parent) merge(round int, r *Result) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Res.Evals += r.Evals
	p.Res.Cases += r.Cases
	for k, v := range r.Skips {
		p.Res.Skips[k] += v
	}
	for k, v := range r.Feats {
		p.Res.Feats[k] += v
	}
	for _, k := range r.Keys {
		p.keys[k] = struct{}{}
	}
	if len(p.Res.Samples) < 6 {
		p.Res.Samples = append(p.Res.Samples, r.Samples...)
	}
	p.viol = append(p.viol, r.Viol...)
	byCase := map[uint64]string{}
	for i := 0; i+1 < len(r.Digests); i += 2 {
		byCase[r.Digests[i]] += fmt.Sprintf("%x,", r.Digests[i+1])
	}
	for k, v := range byCase {
		p.digests[round][k] = v
	}
}

func (p *Parent) compareRounds() {
	for r := 1; r < len(p.digests); r++ {
		for k, v := range p.digests[0] {
			if v2, ok := p.digests[r][k]; ok && v2 != v {
				p.viol = append(p.viol, Violation{Case: int(k), Kind: "two processes disagree", Info: map[string]string{"digests": v + " vs " + v2}})
			}
		}
	}
}

func (p *Parent) report(t0 time.Time) int {
	vd := verifDir()
	known, fixed := knownFindings(vd, p.P.ID)
	sort.Slice(p.viol, func(i, j int) bool { return p.viol[i].Case < p.viol[j].Case })
	exit := 0
	nviol := 0
	knownHit := map[string]bool{}
	rdir := filepath.Join(vd, ".build", "replay")
	if old, err := filepath.Glob(filepath.Join(rdir, p.P.ID+"-*.txt")); err == nil {
		for _, f := range old {
			os.Remove(f)
		}
	}
	os.MkdirAll(rdir, 0o755)
	for _, v := range p.viol {
		if k := matchKnown(known, v); k != "" {
			knownHit[k] = true
			continue
		}
		nviol++
		exit = 1
		if nviol > 5 {
			continue
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.txt", p.P.ID, v.Case, nviol))
		var b strings.Builder
		fmt.Fprintf(&b, "property %s case %d seed %d tier %s\nkind: %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s %s/run.sh one %s %d\n\n",
			p.P.ID, v.Case, seed(), tier(), v.Kind, seed(), tier(), vd, p.P.ID, v.Case)
		keys := []string{}
		for k := range v.Info {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(&b, "--- %s ---\n%s\n", k, v.Info[k])
		}
		os.WriteFile(path, []byte(b.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.P.ID, path)
		fmt.Printf("  kind: %s\n", v.Kind)
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.P.ID, k)
	}
	_ = fixed
	if nviol == 0 && len(p.infra) > 0 {
		for _, s := range p.infra {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", s)
		}
		exit = 2
	}
	samples := []any{}
	for _, s := range p.Res.Samples {
		if len(samples) < 6 {
			samples = append(samples, s)
		}
	}
	wall := time.Since(t0).Seconds()
	level := p.P.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": p.P.ID, "tier": tier(), "seed": seed(), "level": level,
		"wall_s": wall, "violations": nviol,
		"assumptions": append([]string{}, p.P.Assumptions...),
		"coverage": map[string]any{
			"evaluations":         p.Res.Evals,
			"distinct_nontrivial": len(p.keys),
			"rule":                p.P.Rule,
			"samples":             samples,
			"cases":               p.Res.Cases,
			"discarded_ambiguous": p.Res.Skips,
			"observed":            p.Res.Feats,
			"worker_processes":    p.procs,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(vd, "evidence"), 0o755)
	os.WriteFile(filepath.Join(vd, "evidence", p.P.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d cases, %d evaluations, %d distinct non-trivial, %d violations, skips %v, %.1fs\n",
		p.P.ID, p.Res.Cases, p.Res.Evals, len(p.keys), nviol, p.Res.Skips, wall)
	return exit
}

// knownFindings reads /verif/known-findings.txt: lines
//
//	known: property=<id> match=<substring of the replay> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
func knownFindings(vd, id string) (known [][2]string, fixed []string) {
	b, err := os.ReadFile(filepath.Join(vd, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "fixed: property="+id+" ") {
			fixed = append(fixed, l)
		}
		if pre := "known: property=" + id + " match="; strings.HasPrefix(l, pre) {
			rest := strings.SplitN(l[len(pre):], " :: ", 2)
			if len(rest) == 2 {
				known = append(known, [2]string{rest[0], rest[1]})
			}
		}
	}
	return
}

func matchKnown(known [][2]string, v Violation) string {
	for _, k := range known {
		if v.Info["template"] == k[0] || v.Kind+"|"+v.Info["sig"] == k[0] {
			return k[1]
		}
	}
	return ""
}
