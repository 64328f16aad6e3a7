package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/textwire/textwire/v2/object"
)

func init() {
	register(&Prop{
		ID: "C09", Quick: c09Enum + 120000, Thorough: c09Enum + 2500000,
		Rule: "enumeration: every receiver kind x every built-in name x every tuple of up to 2 (thorough 3) arguments of every kind incl. boundary counts; then untyped random programs (any expression in any operator, index, property, loop header, directive argument and call), absent loop clauses, parseable token mutations, over data with every value kind, nil pointers, cycles and nested unsupported values; also as pages with components and inserts; " +
			"monitors: no panic/crash, CPU and memory watchdog, an evaluation error carries a line of the source, data with unsupported values is rejected, faults that the reference interpreter reaches are reported; non-trivial = the render reached evaluation; distinct = program skeleton + outcome",
		Assumptions: []string{"loops are bounded by construction (a template may loop forever legitimately)", "one case may use 6 GB and 25 s CPU"},
		Run:         c09,
	})
}

// values of every kind, as reference values
var c09Vals = []Val{vNil(), vBool(true), vBool(false), vInt(0), vInt(1), vInt(-1), vInt(3), vInt(math.MaxInt64), vInt(math.MinInt64), vInt(1 << 40), vFloat(0), vFloat(1.5), vFloat(-0.5), vFloat(math.Inf(1)), vFloat(math.NaN()), vFloat(1e300),
	vStr(""), vStr("a"), vStr("añ日😀"), vStr("\xff\xc3"), vStr("12"), vStr("-7"), vStr("{{ x }}"), vStr("é"),
	vArr(), vArr(vInt(1), vInt(2), vInt(3)), vArr(vStr("x"), vNil(), vBool(true)), vArr(vArr(vInt(1)), vArr()), vArr(vObj(map[string]Val{"a": vInt(1)})),
	vObj(map[string]Val{}), vObj(map[string]Val{"a": vInt(1), "é": vStr("e"), "": vInt(3), "loop": vNil()})}

var c09Args = []Val{vNil(), vBool(true), vInt(0), vInt(-1), vInt(2), vInt(math.MaxInt64), vInt(math.MinInt64), vFloat(2.5), vStr(""), vStr("a"), vStr("日"), vArr(), vArr(vInt(1)), vObj(map[string]Val{"a": vInt(1)})}

func allBuiltins() []string {
	seen := map[string]bool{}
	for _, l := range builtins {
		for _, n := range l {
			seen[n] = true
		}
	}
	seen["nosuch"] = true
	return sortedKeys(seen)
}

const c09Enum = 31 * 33

var errLine = regexp.MustCompile(`^\[Textwire ERROR(?: in (.*))?:(\d+)\]:`)

// lineOf extracts path and line of an error of the string API.
func lineOf(err error) (path string, line int, ok bool) {
	m := errLine.FindStringSubmatch(err.Error())
	if m == nil {
		return "", 0, false
	}
	n, e := strconv.Atoi(m[2])
	return m[1], n, e == nil
}

func c09(w *W, i int) {
	if i < c09Enum {
		c09Builtin(w, i)
		return
	}
	switch i % 8 {
	case 0:
		c09Mutant(w)
	case 1:
		c09Page(w, i)
	case 2:
		c09Data(w, i)
	default:
		c09Program(w)
	}
}

// noCrash evaluates and checks the form of the error.
func (w *W) noCrash(src string, data map[string]any, badData bool) (string, error, bool) {
	out, err, fine := w.Eval(src, data)
	if !fine {
		return out, err, false
	}
	if err == nil {
		w.Feat("rendered")
		return out, err, true
	}
	w.Feat("error")
	if out != "" {
		w.Fail("output together with an error", "template", src, "got", out, "error", err.Error())
	}
	_, line, ok := lineOf(err)
	if !badData && (!ok || line < 1 || line > strings.Count(src, "\n")+1) {
		w.Fail("an evaluation error without the line of a construct", "template", src, "error", err.Error())
	}
	return out, err, true
}

func c09Builtin(w *W, i int) {
	bs := allBuiltins()
	if len(bs) != 33 || len(c09Vals) != 31 {
		panic(fmt.Sprint("builtins ", len(bs), " values ", len(c09Vals)))
	}
	r, name := c09Vals[i/33], bs[i%33]
	data := map[string]any{"r": r.Go()}
	max := 2
	if w.Tier == "thorough" {
		max = 3
	}
	w.Feat("enumerated built-in calls")
	for k, a := range c09Args {
		data[fmt.Sprintf("a%s", letters(k))] = a.Go()
	}
	var rec func(args []string, vs []Val)
	rec = func(args []string, vs []Val) {
		src := "{{ r." + name + "(" + strings.Join(args, ", ") + ") }}"
		_, err, fine := w.noCrash(src, data, false)
		if fine && !isBuiltin(r.K, name) && err == nil {
			w.Fail("an unknown function does not fail", "template", src, "receiver", r.GoString())
		}
		w.Key(fmt.Sprint(r.K, name, args, err != nil))
		if len(args) == max {
			return
		}
		for k, a := range c09Args {
			rec(append(append([]string{}, args...), "a"+letters(k)), append(append([]Val{}, vs...), a))
		}
	}
	rec(nil, nil)
	// the same call on a literal, and chained
	if r.K != KFloat && r.K != KObj {
		for _, a := range c09Args[:9] {
			w.noCrash("{{ r."+name+"(v)."+bs[(i*7)%33]+"(v, r) }}", map[string]any{"r": r.Go(), "v": a.Go()}, false)
		}
	}
}

// uGen generates untyped expressions.
type uGen struct {
	r    *rand.Rand
	vars []string
}

func (g *uGen) leaf() *X {
	switch g.r.IntN(12) {
	case 0, 1, 2, 3:
		if len(g.vars) > 0 && g.r.IntN(8) > 0 {
			return xVar(g.vars[g.r.IntN(len(g.vars))], KNil)
		}
		return xVar("undefinedX", KNil)
	case 4:
		return xNil()
	case 5:
		return xBool(g.r.IntN(2) == 0)
	case 6:
		return xStrQ([]string{"", "a", "é", "日本", "name", "12", " ", "Ünicode"}[g.r.IntN(8)], '\'')
	case 7:
		return xFloat([]float64{0, 1, 0.5, 1e15, 123456.75}[g.r.IntN(5)])
	case 8:
		return xArr()
	case 9:
		return &X{Op: "obj", T: KObj}
	default:
		return xInt([]int64{0, 1, 2, 3, 10, 255, math.MaxInt64, math.MaxInt64 - 1, 1 << 32}[g.r.IntN(9)])
	}
}

func (g *uGen) x(d int) *X {
	if d <= 0 {
		return g.leaf()
	}
	switch g.r.IntN(16) {
	case 0, 1:
		return g.leaf()
	case 2:
		return xUn([]string{"-", "!"}[g.r.IntN(2)], g.x(d-1))
	case 3:
		return &X{Op: "post", Name: []string{"++", "--"}[g.r.IntN(2)], A: []*X{g.x(d - 1)}}
	case 4, 5, 6, 7:
		return xBin([]string{"+", "-", "*", "/", "%", "%", "/", "==", "!=", "<", ">", "<=", ">="}[g.r.IntN(13)], g.x(d-1), g.x(d-1))
	case 8:
		return xTern(g.x(d-1), g.x(d-1), g.x(d-1))
	case 9, 10:
		return xIdx(g.x(d-1), g.x(d-1), KNil)
	case 11:
		return xDot(g.x(d-1), []string{"name", "a", "x", "Loop", "index", "_", "len"}[g.r.IntN(7)], KNil)
	case 12, 13:
		c := xCall(g.x(d-1), allBuiltins()[g.r.IntN(33)], KNil)
		for n := g.r.IntN(4); n > 0; n-- {
			c.A = append(c.A, g.x(d-2))
		}
		return c
	case 14:
		a := xArr()
		for n := g.r.IntN(4); n > 0; n-- {
			a.A = append(a.A, g.x(d-1))
		}
		return a
	default:
		o := &X{Op: "obj", T: KObj}
		for _, k := range []string{"a", "name", "B_", "index"}[:g.r.IntN(5)] {
			o.Keys = append(o.Keys, k)
			o.A = append(o.A, g.x(d-1))
		}
		return o
	}
}

func (g *uGen) stmts(d, n int) []*St {
	var ss []*St
	for ; n > 0; n-- {
		ss = append(ss, g.st(d))
	}
	return ss
}

func (g *uGen) name() string {
	return []string{"a", "b", "s", "n", "arr", "obj", "fresh", "i", "loop"}[g.r.IntN(9)]
}

func (g *uGen) st(d int) *St {
	k := g.r.IntN(14)
	if d <= 0 {
		k = g.r.IntN(6)
	}
	switch k {
	case 0, 1, 2:
		return tPrint(g.x(3))
	case 3:
		return tAssign(g.name(), g.x(2))
	case 4:
		return tText([]string{"\n", "t\n", "é", " "}[g.r.IntN(4)])
	case 5:
		return &St{K: "dump", Args: &X{Op: "arr", A: []*X{g.x(2), g.x(1)}[:g.r.IntN(3)]}}
	case 6, 7:
		s := &St{K: "if"}
		for n := 1 + g.r.IntN(3); n > 0; n-- {
			s.Conds = append(s.Conds, g.x(2))
			s.Blocks = append(s.Blocks, g.stmts(d-1, g.r.IntN(3)))
		}
		if g.r.IntN(2) == 0 {
			s.HasEl = true
			s.Else = g.stmts(d-1, g.r.IntN(3))
		}
		return s
	case 8, 9, 10:
		s := &St{K: "each", Name: g.name(), X: g.x(2), HasEl: g.r.IntN(3) == 0}
		g.vars = append(g.vars, s.Name, "loop")
		s.Blocks = [][]*St{g.stmts(d-1, g.r.IntN(4))}
		if s.HasEl {
			s.Else = g.stmts(d-1, g.r.IntN(2))
		}
		return s
	case 11:
		// any header; the body ends the loop
		s := &St{K: "for9", HasEl: g.r.IntN(3) == 0}
		c := func() *X {
			if g.r.IntN(3) == 0 {
				return nil
			}
			return g.x(1)
		}
		if g.r.IntN(2) == 0 {
			s.Init = tAssign(g.name(), g.x(1))
			g.vars = append(g.vars, s.Init.Name)
		} else if x := c(); x != nil {
			s.Init = tPrint(x)
		}
		s.X = c()
		if g.r.IntN(3) == 0 {
			s.Post = tAssign(g.name(), g.x(1))
		} else if x := c(); x != nil {
			s.Post = tPrint(x)
		}
		s.Blocks = [][]*St{append(noContinue(g.stmts(d-1, g.r.IntN(3))), &St{K: "break"})}
		if s.HasEl {
			s.Else = g.stmts(d-1, g.r.IntN(2))
		}
		return s
	case 12:
		v := xVar("q", KInt)
		g.vars = append(g.vars, "q")
		return &St{K: "for", Init: tAssign("q", xInt(int64(g.r.IntN(3)))), X: xBin("<", v, xInt(3)), Post: tPrint(&X{Op: "post", Name: "++", A: []*X{v}}),
			Blocks: [][]*St{g.stmts(d-1, g.r.IntN(4))}}
	default:
		return &St{K: []string{"break", "continue", "breakif", "contif"}[g.r.IntN(4)], X: g.x(2)}
	}
}

// hostile Go values
type c09Struct struct {
	Name   string
	Kids   []*c09Struct
	Up     *c09Struct
	Any    any
	Any2   interface{ Foo() }
	M      map[string]*int
	hidden chan int
	Bytes  []byte
	U      uint8
	F      float32
}

// hostileVal returns a value and whether it must be rejected.
func hostileVal(r *rand.Rand, d int) (any, bool) {
	if d > 0 && r.IntN(3) == 0 {
		v, bad := hostileVal(r, d-1)
		switch r.IntN(6) {
		case 0:
			return []any{1, v}, bad
		case 1:
			return map[string]any{"k": v, "name": "n"}, bad
		case 2:
			return &v, bad
		case 3:
			return c09Struct{Name: "s", Any: v}, bad
		case 4:
			return struct{ A, B any }{nil, v}, bad
		default:
			return [][]any{{}, {v}}, bad
		}
	}
	var np *int
	var nps *c09Struct
	var npp **int
	var nm map[string]any
	var ns []int
	var ni any
	one := 1
	pone := &one
	switch r.IntN(32) {
	case 28:
		return [3]string{}, true
	case 29:
		return [0]int{}, true
	case 0:
		return nil, false
	case 1:
		return np, false
	case 2:
		return nps, false
	case 3:
		return npp, false
	case 4:
		return nm, false
	case 5:
		return ns, false
	case 6:
		return &ni, false
	case 7:
		return make(chan int), true
	case 8:
		return func() {}, true
	case 9:
		return complex(1, 2), true
	case 10:
		return map[int]string{1: "a"}, true
	case 11:
		return []chan int{nil}, true
	case 12:
		return &pone, false
	case 13:
		return c09Struct{Name: "x", M: map[string]*int{"a": nil, "b": pone}, Kids: []*c09Struct{nil, {Name: "k"}}, hidden: make(chan int)}, false
	case 14:
		return []*c09Struct{nil, {}}, false
	case 15:
		return math.NaN(), false
	case 16:
		return math.Inf(-1), false
	case 17:
		return uint64(math.MaxInt64), false
	case 18:
		return strings.Repeat("é", 5000), false
	case 19:
		return "\xff\xfe\x00", false
	case 20:
		return map[string]func(){"f": nil}, true
	case 21:
		return int8(-128), false
	case 22:
		return []any{}, false
	case 23:
		return map[string]any{"": 1, "é": 2, "a b": 3, "Éa": 4, "loop": 5}, false
	case 24:
		return struct{ X chan int }{}, true
	case 25:
		return struct{}{}, false
	case 26:
		return []any{1, "a", nil, 2.5, []any{}}, false
	default:
		return int64(r.Uint64()), false
	}
}

func c09Program(w *W) {
	data := map[string]any{}
	ref := map[string]Val{}
	hostile := w.R.IntN(2) == 0
	bad := false
	names := []string{"a", "b", "s", "n", "arr", "obj"}
	for _, n := range names {
		if w.R.IntN(5) == 0 {
			continue
		}
		if hostile {
			v, isBad := hostileVal(w.R, 3)
			if isBad && w.R.IntN(4) > 0 {
				v, isBad = "ok", false
			}
			bad = bad || isBad
			data[n] = v
			continue
		}
		v := c09Vals[w.R.IntN(len(c09Vals))]
		if w.R.IntN(3) == 0 {
			v = sampleVal(w.R, VK(w.R.IntN(7)))
		}
		data[n], ref[n] = v.Go(), v
	}
	g := &uGen{r: w.R, vars: names}
	ss := g.stmts(2, 1+w.R.IntN(4))
	src, _ := Source(w.R, randStyle(w.R), ss)
	w.Sample(src)
	_, err, fine := w.noCrash(src, data, bad)
	if !fine {
		return
	}
	w.Key(shapeOf(ss) + fmt.Sprint(err != nil))
	if bad {
		w.Feat("data with unsupported values")
		if err == nil {
			w.Fail("unsupported data is not reported", "template", src, "data", fmt.Sprintf("%#v", data))
		}
		return
	}
	if hostile {
		w.Feat("hostile data")
		return
	}
	if err == nil && !hasK(ss, "for9", "dump") {
		o := RunRef(&Interp{}, ss, ref)
		if o.Fail {
			w.Fail("a fault is not reported: "+o.Kind, "template", src, "data", string(mustJSON2(data)))
		} else if o.Ambig == "" {
			w.Feat("no fault by the reference either")
		}
	}
}

// noContinue turns the @continue's that act on the loop around ss into @break's.
func noContinue(ss []*St) []*St {
	for _, s := range ss {
		switch s.K {
		case "continue":
			s.K = "break"
		case "contif":
			s.K = "breakif"
		case "each", "for", "for9":
			noContinue(s.Else)
		default:
			for _, b := range s.Blocks {
				noContinue(b)
			}
			noContinue(s.Else)
		}
	}
	return ss
}

func hasK(ss []*St, ks ...string) bool {
	for _, s := range ss {
		for _, k := range ks {
			if s.K == k {
				return true
			}
		}
		for _, b := range s.Blocks {
			if hasK(b, ks...) {
				return true
			}
		}
		if hasK(s.Else, ks...) {
			return true
		}
	}
	return false
}

func c09Mutant(w *W) {
	src, _ := Source(w.R, randStyle(w.R), c08Stmts(w))
	if w.R.IntN(2) == 0 {
		src, _ = Source(w.R, randStyle(w.R), (&uGen{r: w.R, vars: []string{"a", "b", "s", "n"}}).stmts(2, 3))
	}
	data := map[string]any{}
	for _, n := range []string{"a", "b", "s", "n", "x", "arr", "list", "obj", "user"} {
		data[n] = c09Vals[w.R.IntN(len(c09Vals))].Go()
	}
	ts := tokenSpans(src)
	for n := 0; n < 6; n++ {
		m := strings.Join(mutateToks(w.R, ts), "")
		if strings.Contains(m, "@for") {
			w.Skip("a mutant with @for may loop forever")
			continue
		}
		if k, _, ok := w.parseOnly(m); !ok || k > 0 {
			continue
		}
		w.Feat("parseable mutant")
		w.Key(m)
		w.noCrash(m, data, false)
	}
}

func c09Page(w *W, i int) {
	t := &dirTree{Dir: fmt.Sprintf("c09-%d", i), Ext: ".tw", Files: map[string]string{}}
	g := &uGen{r: w.R, vars: []string{"a", "b", "s", "n", "ca"}}
	mild := w.R.IntN(3) > 0
	part := func(n int) string {
		if mild && w.R.IntN(6) > 0 {
			return []string{"text\n", "{{ 1 }}", "@if(s){{ 'x' }}@end", "{{ a ? 1 : 2 }}", "@each(i in [1, 2]){{ i }}@end", "{{ b }}", "{{ n == n }}"}[w.R.IntN(7)]
		}
		src, _ := Source(w.R, Style{Spaces: 1}, g.stmts(1, n))
		return src
	}
	ex := func() string {
		if mild && w.R.IntN(6) > 0 {
			return []string{"1", "'s'", "a", "[a, b]", "{k: s}", "nil", "n ? s : b", "1.5"}[w.R.IntN(8)]
		}
		return exprSrc(g.x(2))
	}
	t.Files["l"] = part(1) + "@reserve('r')" + part(1) + "@each(v in [1, 2])@reserve('q')@end"
	t.Files["c"] = part(1) + "@slot" + part(1) + "@slot('s')"
	comp := "@component('c', {ca: " + ex() + ", cb: " + ex() + ", loop2: " + ex() + "})@slot" + " " + part(1) + "@end@slot('s')" + part(1) + "@end@end"
	if w.R.IntN(6) == 0 {
		comp = "@component('c', {" + []string{"loop: 1", "ca: undefinedX", "a: 1, a: 'x'", "s"}[w.R.IntN(4)] + "})"
	}
	if w.R.IntN(2) == 0 {
		t.Files["page"] = part(2) + comp + part(1)
	} else {
		t.Files["page"] = "@use('l')@insert('r')" + part(1) + comp + "@end@insert('q', " + ex() + ")"
	}
	w.writeTree(t)
	defer w.rmTree(t)
	tpl, err, fine := w.load(t)
	if !fine {
		return
	}
	if err != nil {
		w.Skip("page does not load")
		return
	}
	data := map[string]any{}
	bad := false
	for _, n := range []string{"a", "b", "s", "n"} {
		v, isBad := hostileVal(w.R, 2)
		if isBad && w.R.IntN(6) > 0 {
			v, isBad = []int{1, 2}, false
		}
		bad = bad || isBad
		data[n] = v
	}
	w.Sample(t.dump())
	for k := 0; k < 2; k++ {
		_, ferr, fine := w.render(tpl, t, "page", data)
		if !fine {
			return
		}
		w.Key(t.Files["page"])
		switch {
		case ferr == nil && bad:
			w.Fail("unsupported data is not reported", "template", t.dump(), "data", fmt.Sprintf("%#v", data))
		case ferr != nil && !bad && ferr.Line() == 0:
			w.Fail("an evaluation error without a line", "template", t.dump(), "error", ferrStr(ferr))
		}
		if ferr != nil {
			w.Feat("page error")
		} else {
			w.Feat("page rendered")
		}
	}
}

type cyc struct {
	Name string
	Next *cyc
	M    map[string]any
}

// c09Data feeds hostile data to EnvFromMap and to a template that prints it.
func c09Data(w *W, i int) {
	var v any
	bad := false
	k := 7
	if i%128 == 2 {
		k = w.R.IntN(8) // the costly ones
	}
	switch k {
	case 0:
		c := &cyc{Name: "c"}
		c.Next = c
		v, bad = c, true
		w.Feat("cyclic pointer")
	case 1:
		m := map[string]any{}
		m["m"] = m
		v, bad = m, true
		w.Feat("cyclic map")
	case 2:
		a := make([]any, 1)
		a[0] = a
		v, bad = a, true
		w.Feat("cyclic slice")
	case 3:
		v = any(1)
		for k := []int{10, 100, 600}[w.R.IntN(3)]; k > 0; k-- {
			v = []any{v}
		}
		w.Feat("deep data")
	case 4:
		v = time.Unix(0, 0)
		w.Feat("time.Time")
	default:
		v, bad = hostileVal(w.R, 4)
	}
	w.Guard(fmt.Sprintf("EnvFromMap %T", v), func() {
		w.Evals++
		env, err := object.EnvFromMap(map[string]any{"v": v})
		if err == nil && env == nil {
			w.Fail("EnvFromMap returns nothing", "data", fmt.Sprintf("%T", v))
		}
		if bad && err == nil {
			w.Fail("EnvFromMap accepts unsupported data", "data", fmt.Sprintf("%T", v))
		}
	})
	for _, src := range []string{"{{ v }}", "{{ v.name }}", "@each(e in v){{ e }}@end", "{{ v[0] }}{{ v[''] }}", "@dump(v)", "{{ v.len() }}", "{{ v['é'] }}", "{{ v ? 1 : 2 }}{{ [v, v].contains(v) }}", "{{ w = v; w.next.name }}", "{{ -v }}", "{{ v++ }}", "{{ v + v }}", "{{ v % 0 }}"} {
		_, err, fine := w.noCrash(src, map[string]any{"v": v}, bad)
		if fine && bad && err == nil {
			w.Fail("unsupported data is not reported", "template", src, "data", fmt.Sprintf("%T", v))
		}
		w.Key(fmt.Sprintf("%T", v) + src)
	}
}
