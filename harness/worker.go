package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	textwire "github.com/textwire/textwire/v2"
)

// W is the state of one worker process.
type W struct {
	P     *Prop
	Tier  string
	Shard int
	NSh   int
	Round int
	Dir   string // private scratch directory, also the working directory
	R     *rand.Rand
	I     int
	One   bool

	Evals   int64
	Cases   int64
	Skips   map[string]int64
	Feats   map[string]int64
	keys    map[uint64]struct{}
	Samples []string
	viol    []Violation
	digests []uint64 // (index, digest) pairs
	rnd     uint64
	journal *os.File
	data    map[string]any // per-property state
}

// Violation is what a monitor reports.
type Violation struct {
	Case int               `json:"case"`
	Kind string            `json:"kind"`
	Info map[string]string `json:"info"`
}

// Result is what a worker reports at its end.
type Result struct {
	Evals, Cases int64
	Skips, Feats map[string]int64
	Keys         []uint64
	Samples      []string
	Viol         []Violation
	Digests      []uint64
	Next         int // first index not run (when stopped early)
	Done         bool
}

func caseRand(prop string, i int) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return rand.New(rand.NewPCG(seed()*0x9E3779B97F4A7C15^h.Sum64(), uint64(i)*0xD1B54A32D192ED03+7))
}

func (w *W) Key(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	w.keys[h.Sum64()] = struct{}{}
}

func (w *W) Feat(s string) { w.Feats[s]++ }
func (w *W) Skip(s string) { w.Skips[s]++ }
func (w *W) Fail(kind string, kv ...string) {
	if len(w.viol) > 50 {
		return
	}
	info := map[string]string{}
	for i := 0; i+1 < len(kv); i += 2 {
		v := kv[i+1]
		if len(v) > 20000 {
			v = v[:20000] + "...(cut)"
		}
		info[kv[i]] = v
	}
	w.viol = append(w.viol, Violation{Case: w.I, Kind: kind, Info: info})
	if w.One {
		fmt.Printf("VIOLATION kind=%s\n", kind)
		for i := 0; i+1 < len(kv); i += 2 {
			fmt.Printf("--- %s ---\n%s\n", kv[i], kv[i+1])
		}
	}
}

func (w *W) Sample(s string) {
	if w.One {
		fmt.Printf("=== case ===\n%s\n", s)
	}
	if len(w.Samples) < 3 && len(s) < 3000 {
		w.Samples = append(w.Samples, s)
	}
}

// Digest adds an observation that has to be the same in every round (process).
func (w *W) Digest(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	w.digests = append(w.digests, uint64(w.I), h.Sum64())
}

// Eval calls EvaluateString; a panic is reported as a violation of kind "panic".
func (w *W) Eval(src string, data map[string]any) (out string, err error, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			w.Fail("panic", "panic", fmt.Sprint(r), "stack", string(debug.Stack()), "template", src)
			ok = false
		}
	}()
	w.Evals++
	out, err = textwire.EvaluateString(src, data)
	return out, err, true
}

// Guard runs fn and reports a panic in it as a violation.
func (w *W) Guard(what string, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			w.Fail("panic", "panic", fmt.Sprint(r), "stack", string(debug.Stack()), "input", what)
			ok = false
		}
	}()
	fn()
	return true
}

func newWorker(p *Prop, shard, n int) *W {
	dir, err := os.MkdirTemp("/dev/shm", "vh-"+p.ID+"-") // fast file operations
	if err != nil {
		if dir, err = os.MkdirTemp("", "vh-"+p.ID+"-"); err != nil {
			panic(err)
		}
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	dir, _ = os.Getwd()
	round, _ := strconv.Atoi(os.Getenv("VH_ROUND"))
	w := &W{P: p, Round: round, Tier: tier(), Shard: shard, NSh: n, Dir: dir,
		Skips: map[string]int64{}, Feats: map[string]int64{}, keys: map[uint64]struct{}{}, data: map[string]any{}}
	return w
}

func (w *W) cleanup() {
	os.Chdir("/")
	if strings.HasPrefix(filepath.Base(w.Dir), "vh-") {
		os.RemoveAll(w.Dir)
	}
}

var caseStartCPU atomic.Int64
var caseStartWall atomic.Int64

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	hangCPU  = 25 * time.Second
	hangWall = 120 * time.Second
	// a case in which the process does next to nothing for so long is stuck
	hangIdle    = 45 * time.Second
	hangIdleCPU = 500 * time.Millisecond
	maxRSS      = 3 << 30
)

// watchdog ends the process when one case runs away. The exit code names why.
func (w *W) watchdog() {
	// A step of the clocks counts for no more than 300 ms, so that a machine
	// that stands still for a while is no hang.
	var idle, wall time.Duration
	last, idleCPU, start := time.Now(), cpuNow(), caseStartWall.Load()
	for {
		time.Sleep(100 * time.Millisecond)
		step := min(time.Since(last), 300*time.Millisecond)
		last = time.Now()
		if s := caseStartWall.Load(); s != start {
			start, idle, wall, idleCPU = s, 0, 0, cpuNow()
			continue
		}
		idle += step
		wall += step
		if c := cpuNow(); c-idleCPU > hangIdleCPU {
			idle, idleCPU = 0, c
		} else if idle > hangIdle {
			os.Exit(44)
		}
		limit := hangCPU
		if w.P.Race {
			limit *= 20
		}
		if cpuNow()-time.Duration(caseStartCPU.Load()) > limit {
			os.Exit(41)
		}
		if wall > hangWall*time.Duration(map[bool]int{false: 1, true: 5}[w.P.Race]) {
			os.Exit(42)
		}
		b, err := os.ReadFile("/proc/self/statm")
		if err == nil {
			var a, rss int64
			fmt.Sscan(string(b), &a, &rss)
			if rss*int64(os.Getpagesize()) > maxRSS {
				os.Exit(43)
			}
		}
	}
}

func (w *W) begin(i int) {
	w.I = i
	w.R = caseRand(w.P.ID, i)
	w.rnd = 0
	caseStartCPU.Store(int64(cpuNow()))
	caseStartWall.Store(time.Now().UnixNano())
	if w.journal != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
		w.journal.WriteAt(b[:], 0)
	}
}

// Development aids (mutation runs): stop at the first violation, run every
// stride-th case. Registered commands use neither.
var (
	failFast  = os.Getenv("VERIF_FAILFAST") != ""
	stride, _ = strconv.Atoi(os.Getenv("VERIF_STRIDE"))
)

func total(p *Prop) int {
	n := p.Quick
	if tier() == "thorough" {
		n = p.Thorough
	}
	return n
}

func runWorker(p *Prop, shard, n int, dir string, start int) {
	w := newWorker(p, shard, n)
	defer w.cleanup()
	j, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("journal-%d", shard)), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		panic(err)
	}
	w.journal = j
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("scratch-%d", shard)), []byte(w.Dir), 0o644)
	w.begin(start)
	go w.watchdog()
	if p.Setup != nil {
		p.Setup(w)
	}
	N := total(p)
	next := N
	lastSave := time.Now()
	for i := start; i < N; i += n {
		if i%n != shard {
			i += ((shard-i%n)+n)%n - n
			continue
		}
		if stride > 1 && (i/n)%stride != 0 {
			continue
		}
		w.begin(i)
		p.Run(w, i)
		w.Cases++
		if failFast && len(w.viol) > 0 {
			next = i + n
			break
		}
		if len(w.viol) >= 5 {
			next = i + n
			break
		}
		if time.Since(lastSave) > 10*time.Second {
			lastSave = time.Now()
			w.save(dir, i+n, false)
		}
	}
	w.save(dir, next, true)
}

func (w *W) save(dir string, next int, done bool) {
	r := Result{Evals: w.Evals, Cases: w.Cases, Skips: w.Skips, Feats: w.Feats, Samples: w.Samples, Viol: w.viol, Next: next, Done: done, Digests: w.digests}
	for k := range w.keys {
		r.Keys = append(r.Keys, k)
	}
	b, _ := json.Marshal(r)
	tmp := filepath.Join(dir, fmt.Sprintf("result-%d.tmp", w.Shard))
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, filepath.Join(dir, fmt.Sprintf("result-%d", w.Shard)))
}

func runOne(p *Prop, i int) {
	shards := p.Shards
	if shards == 0 {
		shards = 8
	}
	w := newWorker(p, i%shards, shards)
	w.One = true
	w.begin(i)
	go w.watchdog()
	if p.Setup != nil {
		p.Setup(w)
	}
	w.begin(i)
	p.Run(w, i)
	w.cleanup()
	fmt.Println("evals", w.Evals, "skips", w.Skips, "feats", w.Feats)
	if len(w.viol) > 0 {
		os.Exit(1)
	}
	fmt.Println("case ok")
}
