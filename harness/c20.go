package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

func init() {
	register(&Prop{
		ID: "C20", Quick: c20Seq3 + c20Seq4 + 250000, Thorough: c20Seq3 + c20Seq4 + c20Seq5 + 1500000,
		Rule: "enumeration of all sequences of 3 and 4 (thorough 5) operations over one new name: Register for each of the 5 types, call on a value of each of the 5 types, load templates (which then call it, too); random histories of up to 40 operations over 4 names that prefix each other; all built-in names registered for all types in odd processes (the built-in keeps answering where it exists, the custom function elsewhere); calls in 16 syntactic positions (literals, variables, chains, headers, component and insert arguments) with up to 6 arguments of every kind, nested to depth 4; functions that keep and overwrite what they were given and what they returned; results of every kind incl. structs, pointers, maps and unsupported values; " +
			"monitors: a model of the five registries decides success and failure of every registration and which registered version answers; recording functions give receiver and arguments, compared by exact Go type and content; the result is compared with the same Go value passed as data in printing, dumping, iteration, property access and built-ins; an unregistered name must fail naming function and type; distinct = history, or (kinds of receiver, arguments and result, position)",
		Assumptions: []string{"integers may arrive as int64 or int, empty arrays as nil or empty slices", "text of literals that contains &, < or > is not compared (it is HTML-escaped)"},
		Setup:       c20Setup,
		Run:         c20,
	})
}

const (
	c20Seq3 = 11 * 11 * 11
	c20Seq4 = c20Seq3 * 11
	c20Seq5 = c20Seq4 * 11
)

var c20Kinds = []VK{KStr, KArr, KInt, KFloat, KBool}

// what the functions saw
type c20Call struct {
	id   int
	recv any
	args []any
}

var c20Log []c20Call

// result of the recording array function, set by the case
var c20Ret func(a []any) []any

// c20Reg registers version id under name for kind k. The result tells the
// version.
func c20Reg(k VK, name string, id int) error {
	rec := func(r any, a []any) { c20Log = append(c20Log, c20Call{id, r, a}) }
	switch k {
	case KStr:
		return textwire.RegisterStrFunc(name, func(s string, a ...any) string { rec(s, a); return fmt.Sprintf("v%d(%s)", id, s) })
	case KArr:
		return textwire.RegisterArrFunc(name, func(s []any, a ...any) []any {
			rec(s, a)
			return append([]any{fmt.Sprintf("v%d", id)}, s...)
		})
	case KInt:
		return textwire.RegisterIntFunc(name, func(n int, a ...any) int { rec(n, a); return n + 1000*id })
	case KFloat:
		return textwire.RegisterFloatFunc(name, func(n float64, a ...any) float64 { rec(n, a); return n + 1000*float64(id) })
	}
	return textwire.RegisterBoolFunc(name, func(b bool, a ...any) bool { rec(b, a); return b != (id%2 == 1) })
}

// c20Want is what a call of version id prints.
func c20Want(k VK, id int, v Val) string {
	switch k {
	case KStr:
		return (vStr(fmt.Sprintf("v%d(%s)", id, v.S))).Print()
	case KArr:
		return (vArr(append([]Val{vStr(fmt.Sprintf("v%d", id))}, v.A...)...)).Print()
	case KInt:
		return (vInt(v.I + 1000*int64(id))).Print()
	case KFloat:
		return (vFloat(v.F + 1000*float64(id))).Print()
	}
	return (vBool(v.B != (id%2 == 1))).Print()
}

var c20TypeWord = map[VK]string{KStr: "str", KArr: "arr", KInt: "int", KFloat: "float", KBool: "bool", KObj: "obj", KNil: "nil"}

func c20Setup(w *W) {
	must(textwire.RegisterArrFunc("vhret", func(a []any, args ...any) []any { return c20Ret(a) }))
	c20Log = nil
	if w.Shard%2 == 1 {
		for n, name := range allBuiltins() {
			for _, k := range c20Kinds {
				if err := c20Reg(k, name, n+1); err != nil {
					w.Fail("the first registration fails", "name", name, "type", c20TypeWord[k], "error", err.Error())
				}
				if err := c20Reg(k, name, 500); err == nil {
					w.Fail("a second registration succeeds", "name", name, "type", c20TypeWord[k])
				}
			}
		}
	}
}

func c20Sample(k VK) (Val, string) {
	switch k {
	case KStr:
		return vStr("abc"), "'abc'"
	case KArr:
		return vArr(vInt(1), vStr("x")), "[1, 'x']"
	case KInt:
		return vInt(7), "7"
	case KFloat:
		return vFloat(2.5), "(2.5)"
	}
	return vBool(true), "true"
}

func c20(w *W, i int) {
	c20Log = nil
	switch {
	case i < c20Seq3:
		w.c20Enum(i, 3, fmt.Sprintf("e%d", i))
	case i < c20Seq3+c20Seq4:
		w.c20Enum(i-c20Seq3, 4, fmt.Sprintf("e%d", i))
	case w.Tier == "thorough" && i < c20Seq3+c20Seq4+c20Seq5:
		w.c20Enum(i-c20Seq3-c20Seq4, 5, fmt.Sprintf("e%d", i))
	case i%4 == 0:
		c20History(w, i)
	case i%4 == 1 && w.Shard%2 == 1:
		c20Builtins(w, i)
	case i%4 == 2:
		c20Result(w, i)
	default:
		c20Args(w, i)
	}
}

// c20Model is the model of the registries along one history.
type c20Model struct {
	w    *W
	reg  map[string]int // kind/name -> version
	next int
	hist []string
	tpl  *textwire.Template
	dir  string
}

func (m *c20Model) fail(kind string, kv ...string) bool {
	m.w.Fail(kind, append([]string{"history", strings.Join(m.hist, "\n")}, kv...)...)
	return false
}

func (m *c20Model) register(k VK, name string) bool {
	m.next++
	key := c20TypeWord[k] + "/" + name
	_, dup := m.reg[key]
	m.hist = append(m.hist, fmt.Sprintf("register %s version %d", key, m.next))
	err := c20Reg(k, name, m.next)
	if dup != (err != nil) {
		return m.fail(map[bool]string{true: "a second registration succeeds", false: "the first registration fails"}[dup], "error", errStr(err))
	}
	if !dup {
		m.reg[key] = m.next
	}
	m.w.Feat("registration " + map[bool]string{true: "refused", false: "accepted"}[dup])
	return true
}

// judgeCall judges one call; render evaluates it.
func (m *c20Model) judgeCall(k VK, name, how string, v Val, out string, err error) bool {
	key := c20TypeWord[k] + "/" + name
	id, ok := m.reg[key]
	m.hist = append(m.hist, fmt.Sprintf("call %s %s -> %q %s", key, how, out, errStr(err)))
	if !ok {
		m.w.Feat("call of an unregistered name")
		if err == nil || len(c20Log) != 0 {
			return m.fail("an unregistered function answers", "got", out)
		}
		if e := strings.ToLower(err.Error()); !strings.Contains(err.Error(), name) || !strings.Contains(strings.ReplaceAll(e, strings.ToLower(name), ""), c20TypeWord[k]) {
			return m.fail("the error does not name the function and the type", "error", err.Error())
		}
		return true
	}
	m.w.Feat("call of a registered name")
	if err != nil {
		return m.fail("a registered function is not callable", "error", err.Error())
	}
	if want := c20Want(k, id, v); out != want {
		return m.fail("a call returns something else", "expected", want, "got", out)
	}
	if len(c20Log) != 1 || c20Log[0].id != id {
		return m.fail("not the registered function was called once", "calls", fmt.Sprint(c20Log), "expected version", fmt.Sprint(id))
	}
	return true
}

func (m *c20Model) call(k VK, name string, n int) bool {
	v, lit := c20Sample(k)
	for _, how := range []string{"literal", "variable", "template"} {
		if how == "literal" && n%3 == 1 || how == "variable" && n%3 == 2 || how == "template" && m.tpl == nil {
			continue
		}
		c20Log = nil
		var out string
		var err error
		switch how {
		case "literal":
			o, e, fine := m.w.Eval("{{ "+lit+"."+name+"(1, 'z') }}", nil)
			if !fine {
				return false
			}
			out, err = o, e
		case "variable":
			o, e, fine := m.w.Eval("{{ x."+name+"() }}", map[string]any{"x": v.Go()})
			if !fine {
				return false
			}
			out, err = o, e
		case "template":
			if !m.w.Guard(strings.Join(m.hist, "\n"), func() {
				m.w.Evals++
				o, e := m.tpl.String("call-"+name, map[string]any{"x": v.Go()})
				out = o
				if e != nil {
					err = e.Error()
				}
			}) {
				return false
			}
		}
		if !m.judgeCall(k, name, how, v, out, err) {
			return false
		}
	}
	return true
}

func (m *c20Model) load(names ...string) bool {
	m.hist = append(m.hist, "load templates")
	if m.dir == "" {
		m.dir = "c20"
		for _, n := range names {
			os.MkdirAll(filepath.Join(m.w.Dir, m.dir), 0o755)
			os.WriteFile(filepath.Join(m.w.Dir, m.dir, "call-"+n+".tw"), []byte("{{ x."+n+"(nil, x) }}"), 0o644)
		}
	}
	tpl, err := textwire.NewTemplate(&config.Config{TemplateDir: m.dir, TemplateExt: ".tw"})
	if err != nil {
		return m.fail("templates do not load", "error", err.Error())
	}
	m.tpl = tpl
	return true
}

func (m *c20Model) done(names ...string) {
	for _, n := range names {
		if m.dir != "" {
			os.Remove(filepath.Join(m.w.Dir, m.dir, "call-"+n+".tw"))
		}
	}
}

func (w *W) c20Enum(n, length int, name string) {
	m := &c20Model{w: w, reg: map[string]int{}}
	name = "f" + name
	defer m.done(name)
	seq := n
	for k := 0; k < length; k++ {
		op := seq % 11
		seq /= 11
		ok := true
		switch {
		case op < 5:
			ok = m.register(c20Kinds[op], name)
		case op < 10:
			ok = m.call(c20Kinds[op-5], name, n+k)
		default:
			ok = m.load(name)
		}
		if !ok {
			return
		}
	}
	w.Feat(fmt.Sprintf("enumerated sequences of %d", length))
	w.Key(fmt.Sprint("seq", length, n))
}

func c20History(w *W, i int) {
	m := &c20Model{w: w, reg: map[string]int{}}
	p := fmt.Sprintf("h%d", i)
	names := []string{p, p + "x", strings.ToUpper(p), p + "_1"}
	defer m.done(names...)
	for n := 5 + w.R.IntN(36); n > 0; n-- {
		name := names[w.R.IntN(len(names))]
		k := c20Kinds[w.R.IntN(5)]
		ok := true
		switch w.R.IntN(8) {
		case 0, 1, 2:
			ok = m.register(k, name)
		case 3:
			ok = m.load(names...)
		default:
			ok = m.call(k, name, n)
		}
		if !ok {
			return
		}
	}
	w.Key(strings.Join(m.hist, ","))
	w.Sample(strings.Join(m.hist, "\n"))
	w.Feat("random histories")
}

// c20Builtins: names of built-ins, registered for all types in odd processes.
func c20Builtins(w *W, i int) {
	bs := allBuiltins()
	n := w.R.IntN(len(bs))
	name := bs[n]
	k := c20Kinds[w.R.IntN(5)]
	v, lit := c20Sample(k)
	c20Log = nil
	args := map[string]string{"contains": "'b'", "truncate": "2", "at": "1", "repeat": "2", "slice": "1", "append": "1", "prepend": "1", "then": "1, 2"}[name]
	src := "{{ " + []string{lit, "x"}[w.R.IntN(2)] + "." + name + "(" + args + ") }}"
	out, err, fine := w.Eval(src, map[string]any{"x": v.Go()})
	if !fine {
		return
	}
	if isBuiltin(k, name) {
		w.Feat("built-in hides the custom function")
		if len(c20Log) != 0 || err != nil {
			w.Fail("a custom function replaces a built-in", "template", src, "got", out, "error", errStr(err))
		}
	} else {
		w.Feat("custom function with the name of a built-in of another type")
		if want := c20Want(k, n+1, v); err != nil || out != want || len(c20Log) != 1 {
			w.Fail("a registered function is not callable", "template", src, "expected", want, "got", out, "error", errStr(err))
		}
	}
	w.Key(fmt.Sprint("builtin", k, name))
}

// plain tells whether got is the plain Go value of v.
func plain(v Val, got any) bool {
	switch v.K {
	case KNil:
		return got == nil
	case KBool:
		b, ok := got.(bool)
		return ok && b == v.B
	case KInt:
		switch n := got.(type) {
		case int64:
			return n == v.I
		case int:
			return int64(n) == v.I
		}
		return false
	case KFloat:
		f, ok := got.(float64)
		return ok && (f == v.F || f != f && v.F != v.F) && math.Signbit(f) == math.Signbit(v.F)
	case KStr:
		s, ok := got.(string)
		return ok && s == v.S
	case KArr:
		a, ok := got.([]any)
		if !ok || len(a) != len(v.A) {
			return false
		}
		for i := range a {
			if !plain(v.A[i], a[i]) {
				return false
			}
		}
		return true
	}
	m, ok := got.(map[string]any)
	if !ok || len(m) != len(v.O) {
		return false
	}
	for k, e := range v.O {
		x, found := m[k]
		if !found || !plain(e, x) {
			return false
		}
	}
	return true
}

// positions of a call C
var c20Pos = []string{"{{ C }}", "{{ y = C; y }}", "@if(C)@end", "{{ [C, 1][0] }}", "{{ {a: C}.a }}", "@each(e in [C]){{ e }}@end", "{{ true ? C : 1 }}", "{{ C == C ? 1 : 2 }}", "@for(i = 0; i < 1; i++){{ C }}@end", "{{ [1].append(C) }}", "@each(e in [1])@breakIf(C)@end", "@dump(C)", "{{ [[C]] }}", "{{ (C) }}", "@if(false)@elseif(C)@end", "{{ false ? 1 : C }}"}

func c20Deep(r *rand.Rand, d int) Val {
	if d > 0 && r.IntN(3) == 0 {
		if r.IntN(2) == 0 {
			var a []Val
			for n := r.IntN(4); n > 0; n-- {
				a = append(a, c20Deep(r, d-1))
			}
			return vArr(a...)
		}
		m := map[string]Val{}
		for n := r.IntN(4); n > 0; n-- {
			m[[]string{"a", "b", "Name", "é", "", "k 1", "x-y"}[r.IntN(7)]] = c20Deep(r, d-1)
		}
		return vObj(m)
	}
	return c11Val(r, VK(r.IntN(7)), 1)
}

// c20Args: what a function receives.
func c20Args(w *W, i int) {
	r := w.R
	k := c20Kinds[r.IntN(5)]
	name := fmt.Sprintf("a%d", i)
	if c20Reg(k, name, 1) != nil {
		w.Fail("the first registration fails", "name", name)
		return
	}
	recv := c11Val(r, k, 2)
	data := map[string]any{"r": recv.Go(), "o": map[string]any{"p": recv.Go(), "l": []any{nil, recv.Go()}}}
	rs := []string{"r", "r", "o.p", "o['p']", "o.l[1]", "(r)"}[r.IntN(6)]
	if l := litOf(recv); l != "" && r.IntN(2) == 0 {
		rs = l
		if recv.K == KFloat && r.IntN(2) == 0 {
			rs = "(" + l + ")"
		}
	}
	var args []Val
	var as []string
	nargs := r.IntN(7)
	if r.IntN(40) == 0 {
		nargs = 10 + r.IntN(90)
		w.Feat("many arguments")
	}
	for n := nargs; n > 0; n-- {
		a := c20Deep(r, 3)
		if r.IntN(40) == 0 {
			for d := 5 + r.IntN(40); d > 0; d-- {
				if r.IntN(2) == 0 {
					a = vArr(vInt(1), a)
				} else {
					a = vObj(map[string]Val{"a": a})
				}
			}
			w.Feat("deep argument")
		}
		if r.IntN(60) == 0 {
			e := a
			for d := 50 + r.IntN(300); d > 0; d-- {
				if a.K != KArr {
					a = vArr()
				}
				a.A = append(a.A, e)
				e = vInt(int64(d))
			}
			w.Feat("long argument")
		}
		s := fmt.Sprintf("a%s", letters(n))
		data[s] = a.Go()
		switch l := litOf(a); {
		case l != "" && r.IntN(2) == 0:
			s = l
		case r.IntN(5) == 0: // inside a literal
			s = "[" + s + ", {k: " + s + "}]"
			a = vArr(a, vObj(map[string]Val{"k": a}))
		}
		args = append(args, a)
		as = append(as, s)
	}
	call := rs + "." + name + "(" + strings.Join(as, ", ") + ")"
	chained := k != KBool && r.IntN(4) == 0
	if chained {
		call = call + "." + name + "(" + strings.Join(as, ", ") + ")"
	}
	pos := c20Pos[r.IntN(len(c20Pos))]
	src := strings.ReplaceAll(pos, "C", call)
	if strings.Contains(pos, "==") {
		src = strings.ReplaceAll(strings.Replace(pos, "C == C", "C == 1", 1), "C", call)
		if k != KInt {
			src = "{{ " + call + " }}"
		}
	}
	c20Log = nil
	var err error
	kinds := fmt.Sprint(recv.K, chained, pos)
	for _, a := range args {
		kinds += fmt.Sprint(a.K)
	}
	w.Sample(src)
	if r.IntN(6) == 0 {
		// in a page: component argument, insert, slot, layout
		t := &dirTree{Dir: "c20a", Ext: ".tw", Files: map[string]string{"c": "{{ q }}@slot", "l": "@reserve('x')@reserve('y')", "lc": "@reserve('x')" + src}}
		kind := r.IntN(6)
		t.Files["page"] = []string{"@component('c', {q: " + call + "})@slot @end@end", "@use('l')@insert('x', " + call + ")", "@use('l')@insert('y')" + src + "@end", "@use('lc')@insert('x', 1)", "@component('c', {q: 1})@slot" + src + "@end@end", src}[kind]
		kinds += fmt.Sprint("page", kind)
		w.writeTree(t)
		defer w.rmTree(t)
		tpl, lerr, fine := w.load(t)
		if !fine {
			return
		}
		if lerr != nil {
			w.Fail("templates do not load", "template", t.dump(), "error", lerr.Error())
			return
		}
		_, ferr, fine := w.render(tpl, t, "page", data)
		if !fine {
			return
		}
		if ferr != nil {
			err = ferr.Error()
		}
		src = t.dump()
		w.Feat("call in a page")
	} else {
		var fine bool
		_, err, fine = w.Eval(src, data)
		if !fine {
			return
		}
		w.Feat("call in a string")
	}
	info := func(kv ...string) []string {
		return append([]string{"template", src, "receiver", recv.GoString(), "calls", fmt.Sprintf("%#v", c20Log)}, kv...)
	}
	if err != nil {
		w.Fail("a registered function is not callable", info("error", err.Error())...)
		return
	}
	want := 1
	if chained {
		want = 2
	}
	if len(c20Log) != want {
		w.Fail("the function is not called once", info("expected", fmt.Sprint(want))...)
		return
	}
	for n, c := range c20Log {
		if len(c.args) != len(args) {
			w.Fail("wrong number of arguments", info()...)
			return
		}
		if n == 0 && !plain(recv, c.recv) {
			w.Fail("the receiver is not the plain Go value", info("expected", recv.GoString(), "got", fmt.Sprintf("%#v", c.recv))...)
			return
		}
		for j, a := range args {
			if !plain(a, c.args[j]) {
				w.Fail("an argument is not the plain Go value", info("argument", fmt.Sprint(j), "expected", a.GoString(), "got", fmt.Sprintf("%#v", c.args[j]))...)
				return
			}
			w.Feat("argument " + c20TypeWord[a.K])
		}
	}
	w.Key(kinds)
}

// c20Scribble overwrites everything reachable from x.
func c20Scribble(x any) {
	switch x := x.(type) {
	case []any:
		for i := range x {
			c20Scribble(x[i])
			x[i] = "SCRIBBLE"
		}
	case map[string]any:
		for k := range x {
			c20Scribble(x[k])
			x[k] = "SCRIBBLE"
		}
	}
}

// how a value x is looked at
var c20Views = []string{"{{ x }}", "@dump(x)", "@each(e in x){{ e }};@end", "{{ x.len() }}{{ x[0] }}|{{ x[1] }}", "{{ x.join('|') }}", "{{ x[0].name }}{{ x[0].inner.val }}", "{{ x == x }}", "{{ [x, 1] }}", "@each(e in x)@if(e)t@else f@end@end", "{{ x.reverse() }}{{ x.append(1) }}{{ x.contains(1) }}", "{{ x.slice(0, 2) }}{{ {k: x}.k }}", "@each(e in x)@each(f in [e]){{ f }}{{ loop.last }}@end@end"}

func c20Result(w *W, i int) {
	r := w.R
	type inner struct{ Val any }
	type st struct {
		Name  string
		Inner inner
		priv  int
	}
	mk := func(d int) any { return nil }
	mk = func(d int) any {
		switch k := r.IntN(17); k {
		case 0:
			return nil
		case 1:
			return r.IntN(2) == 0
		case 2:
			return []any{int(3), int8(-3), int16(7), int32(9), int64(math.MinInt64), uint(5), uint8(255), uint16(1), uint32(1 << 31), uint64(6), uintptr(1)}[r.IntN(10)]
		case 3:
			return []any{1.5, float32(0.25), 3.0, -0.0, 1e20}[r.IntN(5)]
		case 4, 5:
			return c11Str(r)
		case 6:
			s := "ptr"
			return []any{&s, (*int)(nil), new(bool)}[r.IntN(3)]
		case 7:
			return st{"N", inner{r.IntN(9)}, 1}
		case 8:
			return &st{"P", inner{"v"}, 2}
		case 9:
			return []string{"a", "b"}
		case 10:
			return map[string]int{"b": 2, "a": 1}
		case 11:
			if r.IntN(6) > 0 {
				return 1
			}
			return []any{make(chan int), func() {}, complex(1, 1), map[int]int{1: 1}, [2]int{1, 2}, &[]any{make(chan int)}}[r.IntN(6)]
		case 12, 13:
			if d <= 0 {
				return "leaf"
			}
			var a []any
			for n := r.IntN(4); n > 0; n-- {
				a = append(a, mk(d-1))
			}
			return a
		case 14, 15:
			if d <= 0 {
				return 7
			}
			m := map[string]any{}
			for n := r.IntN(4); n > 0; n-- {
				m[[]string{"name", "inner", "a", "B"}[r.IntN(4)]] = mk(d - 1)
			}
			return m
		}
		return []byte("xyz")
	}
	var ret []any
	for n := r.IntN(5); n > 0; n-- {
		ret = append(ret, mk(2))
	}
	if r.IntN(12) == 0 {
		ret = nil
	}
	if r.IntN(30) == 0 {
		for n := 20 + r.IntN(300); n > 0; n-- {
			ret = append(ret, mk(0))
		}
	}
	if r.IntN(30) == 0 {
		for n := 5 + r.IntN(40); n > 0; n-- {
			if r.IntN(2) == 0 {
				ret = []any{ret, n}
			} else {
				ret = []any{map[string]any{"name": ret}}
			}
		}
	}
	mode := r.IntN(4)
	var kept []any
	c20Ret = func(a []any) []any {
		switch mode {
		case 1: // the arguments are overwritten
			c20Scribble(a)
		case 2: // the result given before is overwritten
			for i := range kept {
				kept[i] = "OVERWRITTEN"
			}
			kept = append([]any{}, ret...)
			return kept
		}
		return ret
	}
	view := c20Views[r.IntN(len(c20Views))]
	arg := map[string]any{"a": []any{1, map[string]any{"q": "deep"}, "s"}}
	src := "{{ x = arg.a.vhret(arg) }}" + view + "{{ arg }}"
	switch mode {
	case 2:
		src = "{{ x = arg.a.vhret(); y = arg.a.vhret(); z = [1].vhret() }}" + view + "{{ arg }}"
	case 3:
		view = strings.ReplaceAll(strings.ReplaceAll(view, "x", "arg.a.vhret(1)"), "x", "x")
		view = strings.ReplaceAll(view, "inde"+"arg.a.vhret(1)", "index")
		src = view + "{{ arg }}"
	}
	got, err, fine := w.Eval(src, map[string]any{"arg": arg})
	if !fine {
		return
	}
	if mode != 1 && !reflect.DeepEqual(arg, map[string]any{"a": []any{1, map[string]any{"q": "deep"}, "s"}}) {
		w.Fail("the caller's data changed", "template", src, "after", fmt.Sprint(arg))
		return
	}
	if mode == 1 && fmt.Sprint(arg) != "map[a:[1 map[q:deep] s]]" {
		w.Fail("the caller's data changed", "template", src, "after", fmt.Sprint(arg))
		return
	}
	twin := strings.ReplaceAll(strings.ReplaceAll(src, "arg.a.vhret(arg)", "d"), "arg.a.vhret(1)", "d")
	twin = strings.ReplaceAll(strings.ReplaceAll(twin, "arg.a.vhret()", "d"), "[1].vhret()", "d")
	want, werr, fine := w.Eval(twin, map[string]any{"arg": map[string]any{"a": []any{1, map[string]any{"q": "deep"}, "s"}}, "d": ret})
	if !fine {
		return
	}
	w.Key(fmt.Sprintf("%d %s %T %#v", mode, view, ret, dumpGo(reflect.ValueOf(ret))))
	w.Sample(src)
	w.Feat(fmt.Sprintf("result compared, mode %d, error %v", mode, werr != nil))
	if werr != nil && err == nil && strings.HasPrefix(src, "@dump(arg") {
		w.Skip("@dump of an error shows it")
		return
	}
	if (err != nil) != (werr != nil) || err == nil && got != want {
		w.Fail("a result is not as if passed as data", "template", src, "returned", dumpGo(reflect.ValueOf(ret)), "as data", want+errStr(werr), "got", got+errStr(err))
	}
}
