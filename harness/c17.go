package main

import (
	"fmt"
	"html"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

func init() {
	register(&Prop{
		ID: "C17", Quick: 9000, Thorough: 250000,
		Rule: "a tree of pages that succeed (generated projects with a reference answer, hand-made pages with known output incl. %, NUL, non-UTF-8, empty and up to 1 MB), pages that fail after 0 to 300 KB of output at 19 kinds of places (text, loops, branches, components, slots, inserts, layouts, custom functions, dumps), unknown names, layouts, unrenderable data; custom error page: none, working (plain, with layout, with components), missing, layout, failing at once / after output, the failing page itself; debug mode on and off, also switched by Configure between calls on the same loaded templates; three kinds of response writer and a real HTTP connection; a custom page in every process of an odd shard, none in even shards; " +
			"monitors: success = exactly the known page and nil; failure = error, none of the page's marker tokens in the body; debug off: body is exactly the known custom page, or empty when that fails, or the one constant built-in page, and contains neither message, nor path, nor file name; debug on: body contains message, path and line; distinct = page + config + outcome",
		Assumptions: []string{"ErrorPagePath cannot be taken back in a process, so shards differ", "in debug mode the message may stand HTML-escaped or verbatim in the page, and the line within 200 bytes after the path"},
		Setup:       c17Setup,
		Run:         c17,
		Fresh:       c17Fresh,
	})
}

func c17Setup(w *W) {
	must(textwire.RegisterArrFunc("vhbad", func(a []any, args ...any) []any { return []any{make(chan int)} }))
	must(textwire.RegisterStrFunc("vhid", func(s string, args ...any) string { return s }))
}

// c17Fresh answers with a failing page in a process whose debug mode was never
// set.
func c17Fresh(arg string) string {
	must(os.Chdir(arg))
	tpl, err := textwire.NewTemplate(nil)
	if err != nil {
		return "load: " + err.Error()
	}
	x := httptest.NewRecorder()
	if err = tpl.Response(x, "home", nil); err == nil {
		return "no error"
	}
	return x.Body.String()
}

func c17Defaults(w *W) {
	t := &dirTree{Dir: "templates", Ext: ".tw.html", Files: map[string]string{"home": "DETAIL{{ undefinedZq }}"}}
	w.writeTree(t)
	defer w.rmTree(t)
	exe, _ := os.Executable()
	out, err := exec.Command(exe, "fresh", "C17", w.Dir).Output()
	w.Evals++
	got := string(out)
	if err != nil || strings.HasPrefix(got, "load: ") || !strings.Contains(got, "<html") {
		w.Fail("no error page with the default configuration", "got", got, "error", errStr(err))
	}
	for _, k := range []string{"DETAIL", "undefinedZq", "home", "templates", w.Dir} {
		if strings.Contains(got, k) {
			w.Fail("the body leaks a detail", "detail", k, "got", got, "call", "Response in a process that never sets the debug mode")
		}
	}
	w.Feat("fresh process with defaults")
}

type c17Page struct {
	name string
	want string // when ok
	ok   bool
	data func() map[string]any
	tok  []string // markers that must not be in the body after a failure
	msg  bool     // must-fail page
}

// chunkW accepts the body and remembers it; it also implements http.Flusher.
type chunkW struct {
	respW
	flushed bool
}

func (c *chunkW) Flush() { c.flushed = true }

var c17Server *httptest.Server
var c17Handler func(http.ResponseWriter)

// c17Serve answers a request with fn over a real connection.
func c17Serve(fn func(http.ResponseWriter)) string {
	if c17Server == nil {
		c17Server = httptest.NewUnstartedServer(http.HandlerFunc(func(x http.ResponseWriter, _ *http.Request) { c17Handler(x) }))
		c17Server.Config.ErrorLog = log.New(io.Discard, "", 0)
		c17Server.Start()
	}
	panicked := any(nil)
	c17Handler = func(x http.ResponseWriter) {
		defer func() { panicked = recover() }()
		fn(x)
	}
	res, err := c17Server.Client().Get(c17Server.URL)
	if panicked != nil {
		panic(panicked)
	}
	if err != nil {
		return "the request failed: " + err.Error()
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return "the body is cut: " + err.Error() + string(b)
	}
	return string(b)
}

var digits = regexp.MustCompile(`\d+`)

func c17(w *W, i int) {
	r := w.R
	if i == 0 {
		c17Defaults(w)
	}
	ext := extPool[r.IntN(len(extPool))]
	dir := fmt.Sprintf("c17-%d/views", i)
	t := &dirTree{Dir: dir, Ext: ext, Files: map[string]string{}}
	tok := func() string { return fmt.Sprintf("Zq%dx%dqZ", i, r.IntN(1<<30)) }
	var pages []c17Page

	// pages with a reference
	var p *Proj
	if i%4 == 0 {
		p = newProj(r)
		p.genComp(r.IntN(6))
		p.genLayout("layouts/gen", []string{"title", "body"})
		p.genPage("gen/a", "layouts/gen", []string{"title", "body"})
		p.genPage("gen/b", "", nil)
		for n, s := range p.tree(dir, ext).Files {
			t.Files[n] = s
		}
		for _, n := range p.Pages {
			o, _ := p.ref(n)
			if o.Ambig != "" || o.Fuzzy {
				w.Skip("reference ambiguous")
				continue
			}
			pages = append(pages, c17Page{name: n, want: o.Out, ok: !o.Fail, data: func() map[string]any { return goData(p.Data) }})
		}
	}
	filler := func() string {
		n := []int{0, 0, 10, 100, 500, 5000, 70000, 300000}[r.IntN(8)]
		if n > 1000 && r.IntN(3) > 0 {
			n = 50
		}
		return strings.Repeat("filler é 100% %s %d\n", n/20)
	}
	t.Files["layouts/l"] = "<html><t>@reserve('title')</t>@reserve('body')</html>"
	t.Files["layouts/lf"] = "<html>LAYTOK@reserve('body'){{ 1 / zero }}</html>"
	t.Files["c/box"] = "<box>{{ k }}@slot@slot('s')</box>"
	t.Files["c/bad"] = "<bad>COMPTOK{{ k }}\n{{ 7 % k }}</bad>"
	odd := []string{"%d%s%!", "\x00\x01", "\xff\xfe", "日本", "<b>&amp;</b>", "\r\n", "'\"", "#"}
	okPage := func(name, pre, post, want string) {
		a, b := tok()+odd[r.IntN(len(odd))]+filler(), tok()+odd[r.IntN(len(odd))]
		t.Files[name] = a + pre + b + post
		pages = append(pages, c17Page{name: name, ok: true, want: strings.Replace(want, "B", b, 1), data: c17Data})
		pages[len(pages)-1].want = a + pages[len(pages)-1].want
	}
	okPage("ok/plain", "", "", "B")
	okPage("ok/expr", "{{ n }}", "{{ s }}", "5B"+"st%r")
	okPage("ok/each", "@each(x in arr){{ x }},@end", "@if(t)yes@end", "1,2,3,B"+"yes")
	okPage("ok/comp", "@component('c/box', {k: n})\n@slot", "@end@end{{ n }}", "<box>5B</box>5")
	t.Files["ok/empty"] = ""
	pages = append(pages, c17Page{name: "ok/empty", ok: true, data: c17Data})
	body := tok() + filler()
	t.Files["ok/layout"] = "@use('~l')ignored" + "@insert('title', s)@insert('body')" + body + "@end"
	pages = append(pages, c17Page{name: "ok/layout", ok: true, want: "<html><t>st%r</t>" + body + "</html>", data: c17Data})
	if r.IntN(20) == 0 {
		big := strings.Repeat("0123456789abcdef", 1<<16)
		t.Files["ok/big"] = "{{ s }}" + big + "@for(i = 0; i < 3; i++){{ i }}" + big[:1000] + "@end"
		pages = append(pages, c17Page{name: "ok/big", ok: true, want: "st%r" + big + "0" + big[:1000] + "1" + big[:1000] + "2" + big[:1000], data: c17Data})
	}

	// failing pages
	fault := c13Faults[r.IntN(len(c13Faults))]
	bad := func(name, src string) {
		a := tok()
		src = strings.ReplaceAll(src, "FAULT", "{{ "+fault+" }}")
		src = strings.ReplaceAll(src, "EXP", fault)
		src = strings.ReplaceAll(src, "TOK", a)
		src = strings.ReplaceAll(src, "FILL", filler())
		t.Files[name] = src
		pages = append(pages, c17Page{name: name, data: c17Data, tok: []string{a, "LAYTOK", "COMPTOK", "DATATOK"}, msg: true})
	}
	nl := strings.Repeat("\n", r.IntN(20))
	srcs := []string{
		"FAULT", "TOKFILL" + nl + "FAULTTOK", "TOK{{ s }}{{ dt }}FILL FAULT", "TOK@each(x in arr)TOK{{ x }}FILL" + nl + "@if(x == 3)FAULT@end@end", "@for(i = 0; i < 9; i++)TOK{{ i }}@if(i == 7)FAULT@end@end", "@if(t)TOK" + nl + "FAULT@else TOK@end", "TOK@component('c/box', {k: EXP})TOK",
		"TOK@component('c/box', {k: 1})@slot TOK FAULT@end@end", "TOK" + nl + "@component('c/bad', {k: zero})", "@component('c/box', {k: 1})@slot('s')TOKFILL@component('c/bad', {k: 0})@end@end", "@use('~l')@insert('title', EXP)@insert('body')TOK@end", "@use('~l')@insert('title', 'TOK')@insert('body')TOKFILL" + nl + "FAULT@end", "@use('~lf')@insert('body')TOKFILL@end", "TOK@dump(s, dt)FAULT",
		"TOK{{ [1].vhbad() }}", "TOK{{ dt }}@each(x in EXP)@end", "TOK{{ x = 1 }}" + nl + "{{ x = 's' }}", "TOK{{ s }}{{ loop = 1 }}", "TOK{{ dt.nosuch('TOK') }}",
	}
	for k := 0; k < 5; k++ {
		n := r.IntN(len(srcs))
		bad(fmt.Sprintf("bad/p%d", n), srcs[n])
	}
	pages = append(pages, c17Page{name: []string{"", "/", "no/such/" + ext, "ok/plain" + ext, "/ok/plain", "no such"}[r.IntN(6)], data: c17Data, msg: true, tok: []string{"filler"}})
	pages = append(pages, c17Page{name: "no/such", data: c17Data, msg: true}, c17Page{name: "layouts/l", data: c17Data, msg: true, tok: []string{"<t>"}},
		c17Page{name: "ok/plain", data: func() map[string]any { return map[string]any{"f": func() {}, "dt": "DATATOK"} }, msg: true, tok: []string{"DATATOK", "filler"}},
		c17Page{name: "ok/plain", data: func() map[string]any { return map[string]any{"loop": 1} }, msg: true, tok: []string{"filler"}})

	// error pages
	custom, customWant, customOK := "", "", false
	errTok := tok()
	if w.Shard%2 == 1 {
		switch k := r.IntN(8); k {
		case 0, 1:
			custom, customOK = "errors/500", true
			t.Files[custom] = "<sorry>" + errTok + " 100% %d {{ 1 + 1 }}</sorry>" + odd[r.IntN(len(odd))]
			customWant = strings.Replace(t.Files[custom], "{{ 1 + 1 }}", "2", 1)
		case 2:
			custom, customOK = "error-page", true
			t.Files[custom] = "@use('~l')@insert('title', 'x')@insert('body')" + errTok + "@component('c/box', {k: 3})@end"
			customWant = "<html><t>x</t>" + errTok + "<box>3</box></html>"
		case 3:
			custom = "errors/missing"
		case 4:
			custom = "errors/fails"
			t.Files[custom] = errTok + "<sorry>{{ 1 / 0 }}"
		case 5:
			custom = "errors/needsdata"
			t.Files[custom] = errTok + filler() + "<sorry>{{ message }}{{ s }}{{ n }}"
		case 6:
			custom = "layouts/l"
		case 7:
			custom = pages[r.IntN(len(pages))].name
			if strings.HasPrefix(custom, "bad/") { // it fails itself
			} else if custom == "ok/empty" {
				customOK = true
			} else {
				custom = "bad/p0"
				t.Files[custom] = "X" + errTok + "{{ 5 % 0 }}"
			}
		}
		if strings.HasPrefix(custom, "bad/") {
			w.Feat("the error page is a failing page")
		}
	}
	w.writeTree(t)
	defer w.rmTree(t)
	debug := r.IntN(2) == 0
	var tpl *textwire.Template
	load := func() bool {
		var err error
		if tpl, err = textwire.NewTemplate(&config.Config{TemplateDir: dir, TemplateExt: ext, ErrorPagePath: custom, DebugMode: debug}); err != nil {
			w.Fail("templates do not load", "template", t.dump(), "error", err.Error())
			return false
		}
		return true
	}
	if !load() {
		return
	}
	builtin := "" // the constant page of debug off
	for n := 0; n < 14; n++ {
		switch r.IntN(6) {
		case 0:
			debug = !debug
			textwire.Configure(&config.Config{DebugMode: debug})
			w.Feat("debug mode switched by Configure")
		case 1:
			debug = r.IntN(2) == 0
			if !load() {
				return
			}
		}
		pg := pages[r.IntN(len(pages))]
		if n == 0 {
			pg = pages[len(pages)-4] // unknown name
		}
		if pg.name == custom && pg.msg && t.Files[custom] != "" && strings.Contains(t.Files[custom], errTok) {
			continue
		}
		what := fmt.Sprintf("page %s, debug %v, error page %q", pg.name, debug, custom)
		info := func(kv ...string) []string {
			return append([]string{"template", t.dump(), "call", what, "source", t.Files[pg.name]}, kv...)
		}
		var rw http.ResponseWriter
		var get func() string
		served := false
		switch r.IntN(4) {
		case 0:
			x := httptest.NewRecorder()
			rw, get = x, func() string { return x.Body.String() }
		case 3:
			served = true
		case 1:
			x := &respW{}
			rw, get = x, func() string { return x.b.String() }
		case 2:
			x := &chunkW{}
			rw, get = x, func() string { return x.b.String() }
		}
		var err error
		if !w.Guard("Response "+what, func() {
			w.Evals++
			if served {
				body := c17Serve(func(x http.ResponseWriter) { err = tpl.Response(x, pg.name, pg.data()) })
				get = func() string { return body }
				return
			}
			err = tpl.Response(rw, pg.name, pg.data())
		}) {
			return
		}
		if served {
			w.Feat("over HTTP")
		}
		got := get()
		w.Key(fmt.Sprint(pg.name, fault, debug, custom, customOK, err == nil, len(got) > 60000))
		w.Sample(what + "\n" + t.Files[pg.name])
		if pg.ok {
			w.Feat("page written")
			if err != nil || got != pg.want {
				w.Fail("the page is not written as rendered", info("expected", pg.want, "got", got, "error", errStr(err))...)
				return
			}
			continue
		}
		if err == nil {
			w.Fail("a failed render returns no error", info("got", got)...)
			return
		}
		for _, k := range pg.tok {
			if strings.Contains(got, k) && !(k == "<t>" && customOK) {
				w.Fail("a part of the failed page is in the body", info("part", k, "got", got, "error", err.Error())...)
				return
			}
		}
		_, ferr := tpl.String(pg.name, pg.data())
		if ferr == nil {
			w.Fail("String succeeds where Response fails", info("got", got)...)
			return
		}
		if !debug {
			for _, leak := range []string{ferr.Message(), err.Error(), ferr.Filepath(), w.Dir, dir, filepath.Base(dir) + "/" + pg.name, pg.name + ext, custom + ext, "vscode:"} {
				if leak != "" && leak != ext && strings.Contains(got, leak) {
					w.Fail("the body leaks a detail", info("detail", leak, "got", got)...)
					return
				}
			}
			want := builtin
			switch {
			case custom != "" && customOK:
				want = customWant
				w.Feat("custom error page")
			case custom != "":
				want = ""
				w.Feat("empty body, the custom error page fails")
			default:
				if builtin == "" {
					builtin = got
				}
				want = builtin
				w.Feat("built-in error page")
				if want == "" {
					w.Fail("no error page", info()...)
					return
				}
				if !strings.Contains(got, "<html") || strings.Contains(got, "{{") || strings.Contains(got, "@if") {
					w.Fail("not a rendered error page", info("got", got)...)
					return
				}
			}
			if got != want {
				w.Fail("not the expected error page", info("expected", want, "got", got)...)
				return
			}
			continue
		}
		w.Feat("built-in error page with details")
		if (customOK && customWant != "" && strings.Contains(got, customWant)) || strings.Contains(got, errTok) {
			w.Fail("the custom page is used in debug mode", info("got", got)...)
			return
		}
		if m := ferr.Message(); !strings.Contains(got, m) && !strings.Contains(got, html.EscapeString(m)) {
			w.Fail("the body does not contain the message in debug mode", info("message", m, "got", got)...)
			return
		}
		if p := ferr.Filepath(); p != "" {
			k := strings.Index(got, p)
			if k < 0 {
				w.Fail("the body does not contain the path in debug mode", info("path", p, "got", got)...)
				return
			}
			line := false
			for _, d := range digits.FindAllString(got[k+len(p):min(len(got), k+len(p)+200)], -1) {
				line = line || d == fmt.Sprint(ferr.Line())
			}
			if !line {
				w.Fail("the body does not contain the line in debug mode", info("line", fmt.Sprint(ferr.Line()), "got", got)...)
				return
			}
		} else if pg.name != "ok/plain" {
			w.Fail("no path for a failing page", info("error", ferrStr(ferr))...)
			return
		}
		if !strings.Contains(got, "<html") || strings.Contains(got, "{{") || strings.Contains(got, "@if") {
			w.Fail("not a rendered error page", info("got", got)...)
			return
		}
		if errStr(err) == "" {
			w.Fail("empty error", info()...)
		}
	}
}

func c17Data() map[string]any {
	return map[string]any{"n": 5, "s": "st%r", "arr": []int{1, 2, 3}, "t": true, "zero": 0, "dt": "DATATOK", "k": 1}
}

// faults whose messages hold odd characters, too
var c13Faults = []string{"1 / 0", "undefinedX", "'a' - 'b'", "n.nosuch()", "-'q'", "arr['x']", "s.x", "1 + 's'", "'%d%s'.nope()", "undefined_Y.z", "n.name.name", "true + {a: 1}", "'<script>'.nope('&')", "undefined_" + strings.Repeat("very_long_name_", 40), "'a'.nosuch" + strings.Repeat("Function", 100) + "()", "n['" + strings.Repeat("key<>%s ", 60) + "']"}
