package main

import (
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

func init() {
	register(&Prop{
		ID: "C14", Quick: 16000, Thorough: 400000, Rounds: 2,
		Rule: "strings, files and directory trees built to invite order dependence: objects of up to 12 keys printed, dumped, joined and iterated; object literals, component arguments, call arguments and data maps with several failing entries; trees with several unknown inserts, slots, components, layouts and broken files at once; untyped random programs; valid generated projects; names that differ in letter case only; names asked for (variables, properties, functions, slots, inserts, components, layouts, pages) that are missing next to several alike; Response with and without debug mode; every evaluation and load is repeated 6 times in a process with freshly built data, and the whole workload runs in two sets of processes with different environment, working directory and file creation order; " +
			"monitor: all observations (output, or message, line and path) are equal, across processes by digest; distinct = source or tree",
		Assumptions: []string{"paths are compared relative to the scratch directory across processes", "rand() and shuffle() are not used"},
		Run:         c14,
	})
}

const c14Reps = 6

var c14Faults = []string{"1 / 0", "undefinedX", "undefinedY", "'a' - 'b'", "1 + 'x'", "[1].nosuch()", "5.name", "n.nosuch", "obj.missing", "true + 1", "-'q'", "7 % 0", "'x'.truncate()", "obj['gone']", "1.5 + 1"}
var c14Fine = []string{"1", "'s'", "[1, 2]", "nil", "true", "2.5", "obj", "s", "{x: 1, y: {z: 2, a: 1}}", "n"}
var c14Names = []string{"a", "b", "c", "dd", "e1", "name", "Zed", "key", "x", "y", "_u", "long_name", "k9", "Q", "A", "NAME", "Key", "dD", "X", "k_9"}

func c14Data(w *W, seedBad bool) map[string]any {
	m := map[string]any{"n": 5, "s": "str", "arr": []int{3, 1, 2}}
	o := map[string]any{}
	for i, k := range c14Names {
		o[k] = i
	}
	o["deep"] = map[string]any{"q": []any{map[string]any{"b": 1, "a": 2, "c": 3}}, "p": nil, "o": 2.5}
	m["obj"] = o
	// the same but for one entry
	o2 := map[string]any{}
	for k, v := range o {
		o2[k] = v
	}
	o2["k9"] = "other"
	m["obj2"] = o2
	return m
}

// c14Obj is an object literal with several failing entries.
func c14Obj(w *W, faults int) string {
	var parts []string
	if w.R.IntN(12) == 0 { // many keys
		for j, n := 0, 30+w.R.IntN(150); j < n; j++ {
			v := c14Fine[j%3]
			if faults > 0 && w.R.IntN(10) == 0 {
				v = c14Faults[w.R.IntN(len(c14Faults))]
			}
			parts = append(parts, "m"+letters(w.R.IntN(9000))+": "+v)
		}
	}
	for _, i := range w.R.Perm(len(c14Names))[:2+w.R.IntN(10)] {
		v := c14Fine[w.R.IntN(len(c14Fine))]
		if faults > 0 && w.R.IntN(2) == 0 {
			v = c14Faults[w.R.IntN(len(c14Faults))]
		}
		if w.R.IntN(8) == 0 {
			v = "{p: " + v + ", o: " + c14Faults[w.R.IntN(len(c14Faults))] + ", a: 1}"
		}
		parts = append(parts, c14Names[i]+": "+v)
	}
	return "{" + strings.Join(parts, ", ") + "}"
}

// again repeats fn and compares what it returns.
func (w *W) again(what string, fn func() string) {
	first := ""
	for r := 0; r < c14Reps; r++ {
		got := "panic"
		if !w.Guard(what, func() { got = fn() }) {
			return
		}
		if r == 0 {
			first = got
			w.Digest(strings.ReplaceAll(got, w.Dir, "$DIR"))
			continue
		}
		if got != first {
			w.Fail("two renders of the same input differ", "template", what, "first", first, "another", got)
			return
		}
	}
	w.Key(what)
	if strings.HasPrefix(first, "error") {
		w.Feat("error")
	} else {
		w.Feat("output")
	}
}

func obs(out string, err error) string {
	if err != nil {
		return "error " + err.Error() + " output " + out
	}
	return "output " + out
}

func c14(w *W, i int) {
	switch i % 9 {
	case 0: // objects that print
		o := c14Obj(w, 0)
		src := []string{"{{ obj }}", "{{ " + o + " }}", "@dump(obj, " + o + ")", "{{ x = " + o + "; x }}@dump(x)", "{{ [obj, " + o + "] }}", "{{ [obj, " + o + "].join('|') }}", "{{ obj.deep }}@dump(obj.deep.q, [" + o + "])", "@each(e in [" + o + ", obj]){{ e }}\n@end", "{{ s + [obj].join() }}", "{{ [obj].contains(" + o + ") }}{{ true.then(obj) }}", "{{ [1, obj2].contains(obj) }}{{ [[obj]].contains([obj2]) }}{{ [obj, obj2].contains(obj2) }}"}[w.R.IntN(11)]
		w.Feat("objects")
		w.again(src, func() string { w.Evals++; return obs(textwire.EvaluateString(src, c14Data(w, false))) })
		w.Sample(src)
	case 1: // several failing entries
		o := c14Obj(w, 2)
		src := []string{"{{ " + o + " }}", "{{ x = " + o + " }}{{ y = " + c14Obj(w, 2) + " }}", "@dump(" + o + ")", "{{ [1].append(" + o + ", " + c14Obj(w, 1) + ") }}", "@if(" + o + ")x@end", "@each(e in [" + o + "])x@end", "{{ [" + o + ", " + c14Obj(w, 1) + "] }}", "{{ " + o + ".a }}"}[w.R.IntN(8)]
		w.Feat("failing entries")
		w.again(src, func() string { w.Evals++; return obs(textwire.EvaluateString(src, c14Data(w, false))) })
		w.Sample(src)
	case 2: // several unsupported values
		perm := w.R.Perm(len(c14Names))
		n := 1 + w.R.IntN(6)
		bads := make([]int, len(c14Names))
		for k := range bads {
			bads[k] = w.R.IntN(9)
		}
		loop := w.R.IntN(3) == 0
		src := "{{ n }}"
		w.Feat("unsupported data")
		key := fmt.Sprint("data ", perm[:n], bads, loop)
		nest := w.R.IntN(3)
		many := 0
		if w.R.IntN(4) == 0 {
			many = 5 + w.R.IntN(60)
		}
		key += fmt.Sprint(" many ", many)
		w.again(key, func() string {
			m := map[string]any{"n": 1}
			for _, p := range perm[:n] {
				m[c14Names[p]] = []any{make(chan int, 0), func() {}, complex(1, 2), [1]int{1}, map[int]int{1: 1}, 5, struct{ C chan int }{make(chan int)}, []any{&[]int{1}, func() {}}, map[string]any{"u": make(chan int), "t": complex(1, 1)}}[bads[p]]
			}
			for k := 0; k < many; k++ {
				m["m"+letters(k*7+many)] = []any{k, "s", nil, func() {}, complex(1, 2), 1.5, make(chan int), k, []any{uint64(1) << 63}, []int{k}}[(k*many)%10]
			}
			if loop {
				m["loop"] = 1
			}
			if nest > 0 {
				m = map[string]any{"n": 1, "m": m, "k": []any{m, m}}
			}
			w.Evals++
			out, err := textwire.EvaluateString(src, m)
			return obs(out, err)
		})
	case 3:
		g := &uGen{r: w.R, vars: []string{"n", "s", "obj", "arr"}}
		src, _ := Source(w.R, randStyle(w.R), g.stmts(2, 1+w.R.IntN(4)))
		if strings.Contains(src, "shuffle") || strings.Contains(src, "rand") {
			w.Skip("random function")
			return
		}
		w.Feat("untyped program")
		w.again(src, func() string { w.Evals++; return obs(textwire.EvaluateString(src, c14Data(w, false))) })
	case 4, 5:
		c14Faulty(w, i)
	case 6:
		c14Proj(w, i)
	case 7:
		c14Args(w, i)
	case 8:
		c14Near(w, i)
	}
}

// nearNames gives names that are close to one another: letter case, one
// letter more, less or other, swapped letters, underscores, a shared
// prefix or ending. The first is the one to leave out.
func nearNames(w *W) []string {
	base := []string{"user", "title", "name", "userName", "ab", "x", "itemList", "contact", "len"}[w.R.IntN(9)]
	near := map[string]bool{}
	up := strings.ToUpper(base)
	cands := []string{base, up, up[:1] + base[1:], base[:len(base)-1] + up[len(up)-1:], base + "s", base + "2", base + "_", "_" + base, base + base, base + "X", "my" + up[:1] + base[1:], "z" + base[1:], base[:len(base)-1] + "q", "the_" + base, base + "_id", base + "_ID", base + "Id"}
	if len(base) > 2 {
		cands = append(cands, base[1:], base[:len(base)-1], base[:2], base[1:2]+base[:1]+base[2:], base[:1]+base[2:], base[:1]+base[:1]+base[1:])
	}
	var out []string
	for _, k := range w.R.Perm(len(cands)) {
		if c := cands[k]; !near[c] {
			near[c] = true
			out = append(out, c)
		}
	}
	n := 3 + w.R.IntN(9)
	if n > len(out) {
		n = len(out)
	}
	return out[:n]
}

// c14Near asks for what is not there next to several things that are alike.
func c14Near(w *W, i int) {
	names := nearNames(w)
	miss, have := names[0], names[1:]
	w.Feat("near names")
	data := func() map[string]any {
		m, o := map[string]any{"n": 5}, map[string]any{}
		for k, n := range have {
			if n != "o" && n != "n" {
				m[n] = k
			}
			o[n] = n
		}
		m["o"] = o
		m["lst"] = []any{o, o}
		return m
	}
	if w.R.IntN(2) == 0 {
		var lit []string
		for k, n := range have {
			lit = append(lit, fmt.Sprintf("%s: %d", n, k))
		}
		ol := "{" + strings.Join(lit, ", ") + "}"
		src := []string{
			"{{ " + miss + " }}", "{{ o." + miss + " }}", "{{ o['" + miss + "'] }}", "{{ " + ol + "." + miss + " }}", "{{ o." + miss + "() }}", "{{ 'q'." + miss + "() }}", "{{ n." + miss + "() }}", "{{ [1]." + miss + "(2) }}",
			"{{ " + strings.Join(have, " = 1; ") + " = 1; " + miss + " }}", "{{ " + miss + "++ }}", "@each(e in lst){{ e." + miss + " }}@end", "@each(" + miss + "Q in lst){{ " + miss + " }}@end",
			"@for(" + have[0] + " = 0; " + have[0] + " < 2; " + have[0] + "++){{ " + miss + " }}@end", "@if(" + miss + ")x@end", "@dump(" + miss + ")", "{{ x = " + ol + "; x." + miss + "." + miss + " }}", "{{ true ? o." + miss + " : 1 }}", "{{ 2.5." + miss + " }}",
			"{{ 'a'.uper() }}{{ 'a'.trimm() }}", "{{ [1].joi() }}", "{{ 1.lenn() }}", "@each(e in lst){{ loop." + miss + " }}@end", "@each(e in lst){{ loop.inde }}@end", "{{ o }}@dump(o, " + ol + ")",
		}[w.R.IntN(24)]
		w.Sample(src)
		w.again(fmt.Sprint(src, " with ", have), func() string { w.Evals++; return obs(textwire.EvaluateString(src, data())) })
		return
	}
	t := &dirTree{Dir: fmt.Sprintf("c14n-%d", i), Ext: []string{".tw", ".tw.html"}[w.R.IntN(2)], Files: map[string]string{}}
	sub := []string{"", "blog/", "a/b/"}[w.R.IntN(3)]
	ask := []string{miss, "blog/" + miss, "a/b/" + miss, sub, sub + "nosuch", "no/" + miss, sub + miss + t.Ext, "/" + sub + have[0], sub + "x/" + have[0]}
	for k, n := range have {
		t.Files[sub+n] = fmt.Sprintf("<%d>", k)
		if w.R.IntN(3) == 0 {
			t.Files["blog/"+n] = fmt.Sprintf("<b%d>", k)
		}
		if k%3 == 2 {
			t.Files[sub+"x/"+n+"/index"] = "i"
		}
		ask = append(ask, sub+n)
	}
	var decl, give strings.Builder
	for _, n := range have {
		fmt.Fprintf(&decl, "@reserve('%s')", n)
	}
	switch w.R.IntN(8) {
	case 0:
		t.Files["components/card"] = "<c>" + strings.ReplaceAll(decl.String(), "@reserve", "@slot")
		fmt.Fprintf(&give, "@component('~card')@slot('%s')x@end@end", miss)
	case 1:
		t.Files["layouts/main"] = "<l>" + decl.String()
		fmt.Fprintf(&give, "@use('~main')@insert('%s', 1)", miss)
	case 2:
		fmt.Fprintf(&give, "@component('%s')", sub+miss)
	case 3:
		fmt.Fprintf(&give, "@use('%s')", sub+miss)
	case 4:
		t.Files["components/card"] = "<c>{{ " + miss + " }}"
		var lit []string
		for k, n := range have {
			lit = append(lit, fmt.Sprintf("%s: %d", n, k))
		}
		fmt.Fprintf(&give, "@component('~card', {%s})", strings.Join(lit, ", "))
	case 5:
		fmt.Fprintf(&give, "{{ %s }}", miss)
	}
	if give.Len() > 0 {
		t.Files["asking"] = give.String()
		ask = append(ask, "asking")
	}
	missing := ""
	if w.R.IntN(3) == 0 {
		missing = sub + miss
	}
	w.writeTree(t)
	defer w.rmTree(t)
	w.Sample(t.dump())
	w.again(fmt.Sprint(t.dump(), ask, missing), func() string {
		w.Evals++
		tpl, err := textwire.NewTemplate(&config.Config{TemplateDir: t.Dir, TemplateExt: t.Ext})
		if err != nil {
			return obs("", err)
		}
		s := ""
		for _, n := range ask {
			out, ferr := tpl.String(n, data())
			rec := httptest.NewRecorder()
			err := tpl.Response(rec, n, data())
			s += n + ": " + out + ferrStr(ferr) + "\n" + rec.Body.String() + errStr(err) + "\n"
		}
		for _, n := range []string{missing, sub + have[0]} {
			out, err := textwire.EvaluateFile(filepath.Join(w.Dir, t.Dir, n+t.Ext), data())
			s += obs(out, err) + "\n"
		}
		return "output " + s
	})
}

// c14Faulty loads trees with several faults.
func c14Faulty(w *W, i int) {
	t := &dirTree{Dir: fmt.Sprintf("c14-%d", i), Ext: ".tw", Files: map[string]string{}}
	t.Files["layouts/l"] = "<l>@reserve('r')@reserve('q')"
	t.Files["c"] = "<c>@slot@slot('s')"
	t.Files["c2"] = "<c2>@slot('z')"
	ins := []string{"x1", "x2", "alpha", "Beta", "r2", "q1", "zz", "gamma", "R"}
	sep := []string{"\n", "", " ", "\n\n"}[w.R.IntN(4)]
	for p := 0; p < 1+w.R.IntN(5); p++ {
		var b strings.Builder
		// each file takes some of the faults
		if w.R.IntN(2) == 0 {
			b.WriteString("@use('~l')\n")
			for _, k := range w.R.Perm(len(ins))[:w.R.IntN(6)] {
				fmt.Fprintf(&b, "@insert('%s', %s)%s", ins[k], c14Fine[w.R.IntN(3)], sep)
			}
			if w.R.IntN(3) == 0 {
				b.WriteString("@insert('r', 1)@insert('r', 2)@insert('q', 1)@insert('q', 2)")
			}
		}
		if w.R.IntN(2) == 0 {
			fmt.Fprintf(&b, "@component('%s')", []string{"c", "c2"}[w.R.IntN(2)])
			for _, k := range w.R.Perm(len(ins))[:1+w.R.IntN(4)] {
				fmt.Fprintf(&b, "@slot('%s')x@end%s", ins[k], strings.Repeat("\n", strings.Count(sep, "\n")))
			}
			if w.R.IntN(3) == 0 {
				b.WriteString("@slot('s')1@end@slot('s')2@end@slot x@end@slot y@end")
			}
			b.WriteString("@end\n")
		}
		for n := w.R.IntN(4); n > 0; n-- {
			fmt.Fprintf(&b, "@component('%s')\n", []string{"no1", "no2", "~no3", "sub/no4", "c", "Anot"}[w.R.IntN(6)])
		}
		if w.R.IntN(4) == 0 {
			b.WriteString([]string{"{{ 1 + }}", "@if(", "{{ # }}", "{{ [1, }}", "@each(x in )@end"}[w.R.IntN(5)])
		}
		if w.R.IntN(6) == 0 {
			b.WriteString("@use('nolayout')")
		}
		t.Files[[]string{"page", "blog/a", "blog/b", "zeta", "Alpha", "deep/x/y"}[(p+w.R.IntN(3))%6]] = b.String()
	}
	if w.R.IntN(6) == 0 {
		t.Files["c"] += "{{ 1 + }}"
	}
	if w.R.IntN(6) == 0 {
		t.Files["c2"] += "@if("
	}
	if w.R.IntN(6) == 0 {
		t.Files["layouts/l"] += "{{ 'unclosed"
	}
	w.writeTree(t)
	defer w.rmTree(t)
	if w.R.IntN(8) == 0 {
		for _, n := range []string{"dangling1", "a-dangling"} {
			os.Symlink("/nonexistent/vh", filepath.Join(w.Dir, t.Dir, n+t.Ext))
		}
	}
	w.Feat("faulty tree")
	w.Sample(t.dump())
	names := append(sortedKeys(t.Files), "nosuch")
	w.again(t.dump(), func() string {
		w.Evals++
		tpl, err := textwire.NewTemplate(&config.Config{TemplateDir: t.Dir, TemplateExt: t.Ext})
		if err != nil {
			return obs("", err)
		}
		s := ""
		for _, n := range names {
			out, ferr := tpl.String(n, c14Data(w, false))
			s += n + ": " + out + ferrStr(ferr) + "\n"
		}
		return "output " + s
	})
}

// c14Proj renders valid generated projects, also through Response.
func c14Proj(w *W, i int) {
	p := newProj(w.R)
	for c := 1 + w.R.IntN(3); c > 0; c-- {
		p.genComp(c)
	}
	p.genLayout("layouts/main", []string{"title", "body"})
	p.genPage("home", "layouts/main", []string{"title", "body"})
	p.genPage("plain", "", nil)
	t := p.tree(fmt.Sprintf("c14p-%d", i), ".tw")
	for _, n := range []string{"home", "plain"} {
		if strings.Contains(t.Files[n], "shuffle") || strings.Contains(t.Files[n], "rand") {
			return
		}
	}
	t.Files["bad"] = "x\n{{ " + c14Obj(w, 2) + " }}"
	w.writeTree(t)
	defer w.rmTree(t)
	w.Feat("project")
	debug := w.R.IntN(2) == 0
	w.again(t.dump()+fmt.Sprint(debug), func() string {
		w.Evals++
		tpl, err := textwire.NewTemplate(&config.Config{TemplateDir: t.Dir, TemplateExt: t.Ext, DebugMode: debug})
		if err != nil {
			return obs("", err)
		}
		s := ""
		for _, n := range []string{"home", "plain", "bad", "nosuch"} {
			d := goData(p.Data)
			if n == "bad" {
				d = c14Data(w, false)
			}
			out, ferr := tpl.String(n, d)
			rec := httptest.NewRecorder()
			err := tpl.Response(rec, n, d)
			s += n + ": " + out + ferrStr(ferr) + "\n" + rec.Body.String() + errStr(err) + fmt.Sprint(rec.Code, rec.Header()) + "\n"
		}
		return "output " + s
	})
}

// c14Args: component arguments and inserts with several failing entries.
func c14Args(w *W, i int) {
	t := &dirTree{Dir: fmt.Sprintf("c14a-%d", i), Ext: ".tw", Files: map[string]string{}}
	t.Files["c"] = "<c>{{ a }}|{{ b }}@slot" + "@dump(obj)"
	t.Files["l"] = "@reserve('p')@reserve('q')@reserve('r'){{ obj }}"
	comp := func() string { return "@component('c', " + c14Obj(w, w.R.IntN(3)) + ")" }
	t.Files["plain"] = comp() + comp() + "@each(k in [1, 2])" + comp() + "@end"
	t.Files["page"] = "@use('l')@insert('p', " + c14Obj(w, 1) + ")@insert('q')" + comp() + "@end@insert('r', " + c14Obj(w, 2) + ")"
	t.Files["typed"] = "{{ a = 1; b = 's'; key = [1] }}@component('c', {a: 's', b: 1, key: 2, x: 1})"
	t.Files["reserved"] = "@component('c', {loop: 1, a: undefinedX, b: 1 / 0})"
	w.writeTree(t)
	defer w.rmTree(t)
	w.Feat("argument faults")
	w.again(t.dump(), func() string {
		w.Evals++
		tpl, err := textwire.NewTemplate(&config.Config{TemplateDir: t.Dir, TemplateExt: t.Ext})
		if err != nil {
			return obs("", err)
		}
		s := ""
		for _, n := range []string{"plain", "page", "typed", "reserved"} {
			out, ferr := tpl.String(n, c14Data(w, false))
			s += n + ": " + out + ferrStr(ferr) + "\n"
		}
		return "output " + s
	})
}
