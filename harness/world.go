package main

import (
	"fmt"
	"math/rand/v2"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

// world is a set of templates, strings and files together with the calls that
// can be made on them; C15 calls them at the same time, C16 one after another.
type world struct {
	T       *dirTree
	P       *Proj
	Strings []string
	Outside map[string]string // files evaluated by path only
	Ops     []wop
	Cfg     config.Config
	Salt    int

	Rewritten string // the file that calls rewrite, in a directory of the process
}

type wop struct {
	Kind string // String, Response, EvaluateString, EvaluateFile
	Name string
	Var  int // data variant; -1 is nil
}

func (o wop) String() string {
	n := o.Name
	if len(n) > 60 {
		n = n[:60] + "..."
	}
	return fmt.Sprintf("%s(%q, data %d)", o.Kind, n, o.Var)
}

const worldVars = 6

// worldNested makes the functions of worldSetup call Textwire themselves. It is
// off while the expected answers are taken.
var worldNested atomic.Bool

// worldSetup registers functions that give other goroutines a chance to run in
// the middle of a render, and functions that work on their arguments.
func worldSetup() {
	noise := func() {
		if worldNested.Load() && rand.IntN(3) == 0 { // a call inside a call
			d := map[string]any{"v": 1, "q": []int{1, 2}}
			switch rand.IntN(4) {
			case 0:
				textwire.EvaluateString("{{ v }}@each(x in q){{ x }}@end", d)
			case 1:
				textwire.EvaluateString("nested\n\n\n\n{{ v / 0 }}", d)
			case 2:
				textwire.EvaluateString("nested {{ 1 + }}", nil)
			default:
				textwire.EvaluateFile("no/such/file.tw", d)
			}
		}
		switch rand.IntN(8) {
		case 0, 1, 2:
			runtime.Gosched()
		case 3:
			time.Sleep(time.Duration(rand.IntN(60)) * time.Microsecond)
		}
	}
	must(textwire.RegisterStrFunc("vhy", func(s string, a ...any) string { noise(); return s }))
	must(textwire.RegisterIntFunc("vhy", func(n int, a ...any) int { noise(); return n }))
	must(textwire.RegisterFloatFunc("vhy", func(n float64, a ...any) float64 { noise(); return n }))
	must(textwire.RegisterBoolFunc("vhy", func(n bool, a ...any) bool { noise(); return n }))
	must(textwire.RegisterArrFunc("vhy", func(x []any, a ...any) []any { noise(); return x }))
	must(textwire.RegisterStrFunc("vhcat", func(s string, a ...any) string { return s + fmt.Sprint(a...) }))
	must(textwire.RegisterArrFunc("vhset", func(x []any, a ...any) []any { // writes into what it was given
		for i := range x {
			if m, ok := x[i].(map[string]any); ok {
				m["vh"] = "written"
			} else {
				x[i] = "written"
			}
		}
		return x
	}))
}

// data of variant v; every call builds new values.
func (wd *world) data(v int) map[string]any {
	if v < 0 {
		return nil
	}
	m := goData(wd.P.Data)
	m["v"] = v
	m["zero"] = v % 2 // 1 / zero fails for some variants only
	m["words"] = []string{"one" + fmt.Sprint(v), "two", "three"}[:1+v%3]
	m["user"] = map[string]any{"name": fmt.Sprintf("<User %d-%d>", wd.Salt, v), "age": 20 + v, "tags": []any{v, "t", nil, 1.5}}
	m["rows"] = []map[string]any{{"id": v, "on": v%2 == 0}, {"id": v * 10, "on": true}, {"id": -1, "on": false, "v": v}}
	m["big"] = make([]int, 3+v*7)
	type inner struct{ A, B int }
	m["st"] = struct {
		Name string
		Inn  *inner
	}{"S" + fmt.Sprint(v), &inner{v, 2}}
	switch v % 5 { // the type differs
	case 0:
		m["any"] = v
	case 1:
		m["any"] = "any" + fmt.Sprint(v)
	case 2:
		m["any"] = []any{1, "x"}
	case 3:
		m["any"] = nil
	case 4:
		delete(m, "any")
	}
	if v == 3 {
		delete(m, "user")
	}
	if v == 5 { // no template can be given these
		m["grid"] = [2]int{1, v}
		m["z"] = []any{complex(1, 2)}
	}
	return m
}

var worldOKStr = []string{
	"{{ user.name }}|{{ user.age + v }}|{{ words.join('-') }}", "@each(r in rows){{ loop.index }}{{ r.id.vhy() }}@if(r.on)+@end,@end", "{{ x = v; x = x + 1; x }}{{ y = any; y }}", "@for(i = 0; i < v; i++){{ i.vhy() }}@if(i == 2)@break@end@end",
	"@dump(user, rows)", "{{ a = [1, 2]; a.append(v); a.reverse(); a.prepend(0, words).join('/') }}", "{{ words.vhset().join() }}{{ words.join() }}{{ rows.vhset().len() }}@each(r in rows){{ r }}@end", "{{ 'abc'.upper() + 'x'.repeat(v) }}{{ v.float().round() }}{{ 1.6.vhy() }}", "{{ any }}{{ v.vhy() > 2 ? 'big' : 'small' }}", "{{ [3, 4].shuffle().len() }}{{ [7].rand() }}{{ [1].shuffle() }}",
	"{{ st.name }}{{ st.inn.a }}", "@each(b in big)@if(loop.last)L{{ loop.iter }}@end@end", "{{ 'a-b-c'.split('-').vhy().slice(1).join('+') }}{{ 'x'.vhcat(v, user, rows) }}", "plain \\{{ text }} {{-- comment --}}", "{{ true.vhy().then('y', 'n') }}{{ {a: v, b: {c: [v]}} }}", "@each(w in words){{ w.capitalize().truncate(2) }}@else none @end{{ w }}",
	"{{ user.tags.contains('t') }}{{ user.tags }}{{ v.decimal('.', 3) }}", "@if(zero)one@elseif(v == 2)two@else{{ v }}@end", "{{ n1 = v }}@each(k in [1, 2, 3]){{ n1 = n1 + k }}{{ n1 }};@end{{ n1 }}", "{{ 1 / zero }}", "{{ [1, {a: 1 / zero, b: undefinedX}] }}",
	"a\n\n{{ user.nosuch }}", "{{ v.vhy() }}\n{{ 1.5.vhy() + 1 / zero }}", "{{ x = v.vhy() }}{{ true.vhy() }}\n\n{{ x.nosuch() }}", "@each(r in rows)\n{{ r.v }}\n@end", "{{ 'x'.nosuch(v) }}", "{{ 'unclosed", "@if(v", "{{ 1 + 'a' }}\n", "{{ undefinedVar }}", "{{ any + 1 }}", "{{ any.len() }}", "@for(i = 0; i < 5; i++){{ 10 / (3 - i) }}@end", "@component('c/card')", "@insert('x', 1)", "{{ loop = 1 }}", "{{ v = 'str' }}{{ v }}", "", "#{{ # }}",
	worldFuncs, worldOps,
}

// every built-in function and operator, so that no piece of code runs in one
// goroutine only
const worldFuncs = "{{ 'AbC'.lower() }}{{ ' x '.trim() }}{{ '..x..'.trimRight('.') }}{{ '..x..'.trimLeft('.') }}{{ 'abc'.reverse() }}{{ 'abc'.at(v) }}{{ 'xyz'.first() }}{{ 'xyz'.last() }}{{ '<b>'.raw() }}{{ '12'.decimal() }}{{ 'é'.len() }}{{ 'abc'.contains('b') }}{{ 'a b'.split().len() }}{{ 'abc'.upper() }}{{ 'abcd'.truncate(2, '~') }}{{ 'xy'.repeat(2) }}{{ 'élan'.capitalize() }}" +
	"{{ (v.float() + 1.5).int() }}{{ (0.0 - 2.5).abs() }}{{ 1.2.ceil() }}{{ 1.8.floor() }}{{ 1.5.round() }}{{ 2.5.str() }}{{ (0 - v).abs() }}{{ v.str().len() }}{{ v.len() }}{{ v.decimal('.', 2) }}{{ true.binary() }}{{ false.binary() }}{{ false.then(1) }}" +
	"{{ [1, v].contains(v) }}{{ [v].rand() }}{{ [v].shuffle() }}{{ [1, 2, v].reverse() }}{{ [1, 2, v].slice(1) }}{{ [v].append(1) }}{{ [v].prepend(1).len() }}{{ [v, 'x'].join('+') }}"
const worldOps = "{{ p = v; p++; p--; -p }}{{ !true }}{{ 7 % 3 }}{{ 7.5 / 2.5 - 1.5 * 2.0 }}{{ v <= 2 }}{{ v >= 2 }}{{ v != 2 }}{{ 'a' == 'b' }}{{ 'a' != 'b' }}{{ 1.5 < 2.5 }}{{ 1.5 >= 2.5 }}{{ nil }}{{ -1.5 }}{{ [1, [2, v]][1][1] }}{{ {v, b: {c: v}} }}{{ {b: {c: v}}['b'].c }}{{ \"<&>'\\\"\" }}" +
	"@for(f = 3; f > 0; f--){{ f }}@continueIf(f == 2)x@end@for(f = 0; f < 0; f++)@else none@end@each(x in [1, 2, v])@breakIf(x == 2)@if(x == 1)@continue@end{{ loop.last }}@end@each(x in [])@else none@end@dump(v, 'a', 1.5, nil, true, [v], {a: v})@if(v)1@else 2@end{{-- c --}}\\@if"

func newWorld(w *W, r *rand.Rand, dir string, salt int) *world {
	wd := &world{Salt: salt, Rewritten: "rewritten.txt", Outside: map[string]string{}}
	p := newProj(r)
	for c := 1 + r.IntN(3); c > 0; c-- {
		p.genComp(c)
	}
	p.genLayout("layouts/gen", []string{"title", "body"})
	p.genPage("gen/home", "layouts/gen", []string{"title", "body"})
	p.genPage("gen/plain", "", nil)
	wd.P = p
	ext := extPool[r.IntN(len(extPool))]
	t := p.tree(dir, ext)
	wd.T = t
	s := func() string { return fmt.Sprintf("s%d", r.IntN(1000)) }
	t.Files["c/card"] = "<card>{{ title }}{{ seen = title; seen = seen + '" + s() + "'; seen }}@slot('head')|@slot</card>@each(t in user.tags){{ t }}@end"
	t.Files["c/bad"] = "<bad>\n{{ 1 / n }}\n</bad>"
	t.Files["c/loop"] = "@each(i in list)@if(i == stop)@break@end{{ i.vhy() }}{{ loop.first }}@end"
	t.Files["layouts/main"] = "<html><title>@reserve('title')</title>{{ count = v; count = count + 1 }}@reserve('body')<f>{{ count }}@reserve('foot')</f></html>"
	t.Files["layouts/bad"] = "<b>\n@reserve('body')\n\n{{ 5 % zero }}</b>"
	t.Files["m/page"] = "@use('~main')@insert('title', user.name)@insert('body')\n@each(r in rows)@component('c/card', {title: 'T' + r.id.str()})@slot('head'){{ r.id }}@end@slot{{ v }}" + s() + "@end@end@end@end"
	t.Files["m/page2"] = "@use('~main')@insert('body', '" + s() + "')@insert('foot'){{ count }}{{ words.join() }}@end"
	t.Files["m/vars"] = "{{ x = any }}{{ x }}{{ acc = '' }}@each(w in words){{ acc = acc + w }}@end{{ acc }}@for(i = 0; i < 3; i++){{ i }}{{ v.vhy() }}@end"
	t.Files["m/comp"] = "@component('c/loop', {list: [1, 2, 3, 4], stop: v})@component('c/loop', {list: words, stop: '" + s() + "'})@component('c/card', {title: words[0]})"
	t.Files["m/lit"] = "@each(q in [1, 'b', 3, [4, 5, 6, 7, 8], 5, {a: 1, b: 2, c: 3, d: 4, e: 5}, 7, 8, v, 10]){{ q }};@end{{ [1, 2, 3, 4, 5, 6, 7, 8, 9].slice(2, 8).append(v, 1, 2, 3, 4, 5).len() }}@if(v == 0)zero@elseif(v == 1)one@elseif(v == 2)two@elseif(v == 3)three@else many@end{{ v == 0 ? 'z' : (v == 1 ? 'o' : (v == 2 ? 't' : 'm')) }}{{ {a: {b: {c: {d: v}}}}.a.b.c.d }}@for(i = 0; i < 9; i++)@if(i == v)@continue@end{{ i }}@breakIf(i == 6)@end@dump(v, words, [1, 2, 3, 4, 5], 's', 1.5)@each(q in [[1, 2], [], [3]])@each(z in q){{ z + v }}@else none @end@end"
	t.Files["m/ins"] = "@use('~main')@insert('title', v > 1 ? words[0] : 'first')@insert('foot', [v, '" + s() + "', 3, 4, 5, 6])@insert('body')@each(q in [5, 4, 3, 2, 1]){{ q * v }},@end@component('c/card', {title: v > 2 ? 'big' : 'small'})@slot('head')@if(v == 1)A@else B@end@end@slot@each(q in [1, 2, 3]){{ q + v }}@end@end@end@end"
	t.Files["m/obj"] = "@dump(user){{ user }}{{ o = {a: v, b: user} }}{{ o.b.name }}{{ rows.vhset().len() }}{{ words.append(1).len() }}{{ words.len() }}"
	t.Files["m/long"] = "@each(b in big)<p>{{ loop.index }}{{ b }}" + s() + "</p>@end@each(b in big)@each(c in words){{ c.upper().vhy() }}@end@end"
	t.Files["m/page3"] = "@use('layouts/main')\n@insert('title')@component('c/card', {title: '" + s() + "'})@end@insert('body', v * 2)"
	t.Files["m/same"] = "{{ total = 0 }}@each(r in rows){{ total = total + r.id; total }},@end{{ total }}{{ st.inn.a.vhy() }}"
	t.Files["m/same2"] = "{{ total = 0 }}@each(r in rows){{ total = total - r.id; total }},@end{{ total }}{{ st.inn.b.vhy() }}"
	t.Files["m/over"] = "@if(v > 40)x@elseif(v > 3)more than three@elseif(v > 2)more than two@elseif(v > 1)more than one@elseif(v > 0)one@elseif(true)none" + s() + "@end@each(k in [5, 4, 3, 2, 1, 0, 2, 9])@if(k > v)a@elseif(k > 1)b@elseif(k > 0)c@elseif(words)d@end@end{{ v > 3 ? 'p' : v > 2 ? 'q' : v > 1 ? 'r' : 's' }}@component('c/over', {k: v})@component('c/over', {k: 9 - v})"
	t.Files["c/over"] = "@if(k == 100)@elseif(k > 6)6@elseif(k > 4)4@elseif(k > 2)2@elseif(k > 0)0@else-@end"
	t.Files["m/funcs"] = worldFuncs
	t.Files["m/ops"] = "@use('~main')@insert('title'){{ v }}@end@insert('body')" + worldOps + "@end"
	t.Files["e/div"] = "start " + s() + "\n{{ v.vhy() }}\n\n{{ 1 / zero }}\n"
	t.Files["e/loop"] = "@each(r in rows)\n{{ r.id.vhy() }}\n{{ r.v }}@end"
	t.Files["e/comp"] = "secret {{ 'x'.vhy() }}" + s() + "\n@component('c/bad', {n: zero})"
	t.Files["e/slot"] = "@component('c/card', {title: 'x'})@slot\n\n{{ undefinedInSlot }}@end@end"
	t.Files["e/arg"] = "@component('c/card', {title: user.nosuch, b: 1 / 0})"
	t.Files["e/insert"] = "@use('~main')@insert('title', 1 / zero)@insert('body')\n{{ any.nosuch() }}@end"
	t.Files["e/layout"] = "@use('~bad')@insert('body'){{ words }}@end"
	t.Files["e/type"] = "{{ v = 'now a string' }}{{ v }}"
	t.Files["e/undef"] = "<p>\n\n{{ undefinedVar" + s() + " }}"
	t.Files["err/ok"] = "<custom>custom error page " + s() + "{{ 1 + 1 }}@component('c/loop', {list: [1], stop: 2})</custom>"
	t.Files["err/fails"] = "<custom>failing error page\n{{ v }}</custom>"
	wd.Strings = append(wd.Strings, worldOKStr...)
	tag := s()
	for _, c := range []string{"A", "B", "C"} { // nearly the same sources
		wd.Strings = append(wd.Strings, "{{ v }}"+tag+c, tag+"{{ x"+c+" = v }}{{ x"+c+" + 1 }}", tag+"\n{{ v."+c+" }}", "{{ '"+c+tag+"' + 'q' }}")
	}
	for n := 0; n < 4; n++ {
		g := &uGen{r: r, vars: append([]string{"v", "any", "words", "user", "rows", "zero"}, sortedKeys(p.Data)...)}
		src, _ := Source(r, randStyle(r), g.stmts(2, 1+r.IntN(3)))
		if !strings.Contains(src, "shuffle") && !strings.Contains(src, "rand") {
			wd.Strings = append(wd.Strings, src)
		}
	}
	wd.Outside["ok.txt"] = "file {{ v }}{{ user.name }} " + s()
	wd.Outside["bad.txt"] = "file\n{{ 1 / zero }}"
	wd.Outside["syntax.txt"] = "file\n{{ 1 + }}"
	wd.Cfg = config.Config{TemplateDir: dir, TemplateExt: ext, DebugMode: r.IntN(2) == 0}
	names := []string{}
	for _, n := range sortedKeys(t.Files) {
		if n[0] == 'm' || n[0] == 'e' || n[0] == 'g' {
			names = append(names, n)
		}
	}
	// nothing that exists: also other spellings, files, layouts and components
	unknown := []string{"nosuch", "", "../" + dir + "/m/page", "m/page" + ext, "layouts/main", "/m/page"}
	for _, n := range unknown {
		v := r.IntN(worldVars)
		wd.Ops = append(wd.Ops, wop{"String", n, v}, wop{"Response", n, v})
	}
	for _, n := range names {
		from := 0
		if r.IntN(4) == 0 {
			from = -1
		}
		for v := from; v < worldVars; v++ {
			wd.Ops = append(wd.Ops, wop{"String", n, v}, wop{"Response", n, v})
		}
	}
	for _, n := range wd.Strings {
		for v := 0; v < worldVars; v++ {
			wd.Ops = append(wd.Ops, wop{"EvaluateString", n, v})
		}
	}
	for _, n := range append(sortedKeys(wd.Outside), "missing.txt", ".") {
		for v := -1; v < worldVars; v++ {
			wd.Ops = append(wd.Ops, wop{"EvaluateFile", n, v})
		}
	}
	return wd
}

func (wd *world) outDir() string { return strings.SplitN(wd.T.Dir, "/", 2)[0] + "-out" }

func (wd *world) write(w *W) {
	w.writeTree(wd.T)
	os.MkdirAll(filepath.Join(w.Dir, wd.outDir()), 0o755)
	for n, s := range wd.Outside {
		os.WriteFile(filepath.Join(w.Dir, wd.outDir(), n), []byte(s), 0o644)
	}
}

func (wd *world) remove(w *W) {
	w.rmTree(wd.T)
	if w.Dir != "" && strings.HasPrefix(filepath.Base(w.Dir), "vh-") {
		os.RemoveAll(filepath.Join(w.Dir, wd.outDir()))
	}
}

// respW is a minimal response writer that yields between writes.
type respW struct {
	b     strings.Builder
	h     http.Header
	code  []int
	calls int
}

func (r *respW) Header() http.Header {
	if r.h == nil {
		r.h = http.Header{}
	}
	return r.h
}
func (r *respW) WriteHeader(c int) { r.code = append(r.code, c) }
func (r *respW) Write(p []byte) (int, error) {
	r.calls++
	runtime.Gosched()
	return r.b.Write(p)
}

// do makes one call and describes what it returned.
func (wd *world) do(dir string, tpl *textwire.Template, o wop) (s string) {
	return wd.doData(dir, tpl, o, wd.data(o.Var))
}

func (wd *world) doData(dir string, tpl *textwire.Template, o wop, d map[string]any) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("panic ", e)
		}
	}()
	switch o.Kind {
	case "String":
		out, ferr := tpl.String(o.Name, d)
		return "out " + out + "\nerr " + ferrStr(ferr)
	case "Response":
		rw := &respW{}
		err := tpl.Response(rw, o.Name, d)
		return fmt.Sprintf("body %s\ncode %v header %v\nerr %s", rw.b.String(), rw.code, rw.h, errStr(err))
	case "EvaluateString":
		out, err := textwire.EvaluateString(o.Name, d)
		return "out " + out + "\nerr " + errStr(err)
	case "EvaluateFile":
		out, err := textwire.EvaluateFile(filepath.Join(dir, wd.outDir(), o.Name), d)
		return "out " + out + "\nerr " + errStr(err)
	}
	if o.Kind == "rewrite and EvaluateFile" {
		f := filepath.Join(dir, wd.outDir(), wd.Rewritten)
		must(os.WriteFile(f, []byte(o.Name), 0o644))
		out, err := textwire.EvaluateFile(f, d)
		return "out " + out + "\nerr " + errStr(err)
	}
	panic("kind " + o.Kind)
}
