package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"

	textwire "github.com/textwire/textwire/v2"
)

func init() {
	register(&Prop{
		ID: "C13", Quick: 500000, Thorough: 6000000,
		Rule: "a template is random multi-line noise (text, comments, strings, escapes, multi-line blocks, directives, CRLF, non-ASCII; 1 in 4 also a generated program) + one fault + noise; 20 evaluation faults in 35 places (operands, arguments, headers, bodies, inserts, slots, component arguments), 60 syntax faults with a known offending token, and loading faults; as string, as page, as layout, as component and as file by path; " +
			"monitor: the reported line is the line on which the offending token ends (counted in the generated source) and the path is the absolute path of the file for loading faults and for faults of the page; distinct = fault + place + kinds of noise before it",
		Assumptions: []string{"apart from single-token faults, the parts of the faulty expression stand on one line (or follow one multi-line string), so that the line does not depend on which of its tokens is meant"},
		Setup:       c13Setup,
		Run:         c13,
	})
}

// § follows the offending token; when ‹ stands before it, the token is one of
// those between them.
var c13Eval = []string{
	"undefinedX§", "undefinedX§", "(1 + 'a')§", "(1 + 1.5)§", "(7 / 0)§", "(7 % 0)§", "'a'.nosuch()§", "[1, 2].nosuch(1)§", "obj.nosuch§", "obj['nosuch']§", "(1.5).nosuch()§", "-'a'§", "n.name§", "('a' - 'b')§", "(true + 1)§",
	"'a'.truncate()§", "'x'.repeat('y')§", "(nil * 2)§", "[1]['x']§", "n.nosuch()§", "true.nosuch()§", "s.missing§", "obj.list.nosuch§", "arr[0].nope§",
	"'m\nn'.nosuch()§", "('a\r\nb' / 2)§", "\"x\ny\nz\".at('a')§", "({k: 1}).q§", "undefinedY§.name", "undefinedZ§[0]", "undefinedQ§.len()", "(1 + undefinedW§)", "undefinedV§++",
	"‹(1 +\n'a')§", "‹(n\n\n/\n0)§", "‹[1,\n2\n].nosuch(\n)§", "‹-\n'a'§", "‹obj\n.nosuch§", "‹obj\n[\n'nosuch'\n]§", "‹({a: 1,\n b: 2}\n.c)§", "‹'a'.truncate(\n'x',\n1)§", "‹((1 == 1\n)\n+\n1)§", "‹n\n.nosuch§",
	"obj\n\n‹.nosuch§", "obj\n‹.\nnosuch§", "n\n‹.name§", "'a'\n\n‹.nosuch()§", "[1,\n2]\n‹.nosuch(\n1)§", "'m\nn'\n‹.nosuch()§", "{a: 1,\nb: 2}\n‹.nosuch§", "obj.list\n.len()\n‹.nosuch()§", "obj\n.list\n‹.nosuch()§", "'a'\n.upper()\n‹.truncate('x',\n1)§", "[\n1].len()\n‹.name§", "obj\n.name\n‹.nosuch()§", "(1\n+\n1)\n‹.nosuch()§", "obj\n‹['nosuch']§",
}

// places of an expression F
var c13Places = []string{
	"{{ F }}", "{{F}}", "{{\nF\n}}", "{{ [1,\n F,\n 2] }}", "{{ {a: 1,\n b: F\n} }}", "{{ [1].append(\n1,\nF) }}", "@if(\nF\n)\nx@end", "@if(false)\n a @elseif(\n F)\n@end", "@each(zz in [\nF\n])\n@end",
	"@for(q1 = 0;\n q1 < F;\n q1++)\n@end", "@for(q2 = F;\n q2 < 1;\n q2++)\n@end", "{{ w1 = \nF }}", "{{ true ?\n F :\n 1 }}", "{{ false ?\n 1 :\n F }}", "@if(true)\n{{ F }}\n@end", "@each(z1 in [1,\n2])\n{{ F }}\n@end", "@for(q3 = 0; q3 < 3; q3++)\n x {{ F }}\n@end",
	"@if(false)\n@else\n{{ F }}@end", "@each(z2 in [1, 2])\n@breakIf(F)\n@end", "@each(z3 in [1, 2])\n\n@continueIf( F )\n@end", "{{ x1 = 1;\n F;\n 2 }}", "@each(z4 in [])\n@else\n{{ F }}\n@end", "{{ 'multi\nline'; F }}", "{{ \"a\\\"\nb\" + F }}",
	"{{ (\n1 +\n F) }}", "@each(z5 in [1,\n\n 2, 3])\n@if(z5 == 2)\n{{ F }}\n@end\n@end", "{{ [\n[1],\n[F] ] }}", "@if(true)\n@if(true)\r\n\r\n{{ F }}@end\n@end", "{{ true.then(\n1,\n F\n) }}", "\\{{ escaped\n}} {{ F }}", "{{-- c\n --}}{{ F }}", "@for(q4 = 0; q4 < 1; q4++)\n@end{{ F }}", "{{ [1, 2][\nF] }}", "@if('a\nb' == 'c')\nx\n@elseif(F)\n@end",
}

// statement faults: the whole header stands on one line
var c13Stmts = []string{
	"@each(zz in n)§ x\n@end", "@each(zz in 'str')§\n@end", "@each(zz in obj)§\n@else\n@end", "@each(zz in nil)§\n@end", "@each(zz in 1.5)§\n@end", "@each(zz in true)§\n@end", "@each(zz in arr[0].x)§\n@end",
	"@each(n in ['a', 'b'])§\nx\n@end", "@each(s in [1])§\nx\n@end", "@each(loop in [1])§\nx\n@end", "@each(arr in [1, 2])§\n@end",
	"‹@each(zz in\nn)§\nx\n\n@end", "‹@each(\nzz\nin obj)§\n\n\n@else\n\n@end", "‹@each(n in\n['a'])§\nx\n@end", "‹@each(loop in\n[1]§)\n\nx\n@end",
	"{{ n = 's'§ }}", "{{ s = 1§ }}", "{{ obj = [1]§ }}", "{{ loop = 1§ }}", "{{ 1;\n n = 1.5§;\n 2 }}", "{{ g5 = 1;\n\n g5 = 'a'§ }}", "{{ g6 = [1] }}\n{{ g6 = nil§ }}", "{{ arr = {a: 1}§ }}", "@if(true)\n{{ loop = [1]§ }}\n@end",
	"@for(n = 's'; false; n++)§\n@end", "@for(loop = 0; loop < 1; loop++)§\n@end", "@for(zq = 0; zq < 2; zq = 's')§\nx\n@end", "@for(zq = 0; 10 / (2 - zq) > -9; zq++)§\nx\n@end", "@for(zq = 0; zq < 3; zq = zq + 1 / (1 - zq))§\nx\n@end", "@for(zq = 0; zq == 0 ? true : undefinedX; zq++)§\n\n@end", "@for(zq = 0;\n zq < 2;\n zq = zq + 'a'§)\n@end", "@for(zq = 0;\n 10 / (2 - zq) > -9§;\n zq++)\n@end",
	"@each(zz in [1, 0])\n{{ 1 / zz§ }}\n@end", "@each(zz in [3, 0])\n@if(9 % zz§ == 0)\nx\n@end\n@end", "@for(zq = 1; zq < 4; zq++)\n{{ zq == 3 ? undefinedX§ : 1 }}\n@end", "@each(zz in [[1], []])\n\n@continueIf(zz[0].nosuch()§)\n@end", "@if(false)\n@elseif(1 == 'a'§)\n@else\n@end",
	"@each(zz in [1, 2])\n@each(zz in ['a'])§\n@end\n@end", "@each(zz in [1])\n\n{{ zz = 'a'§ }}\n@end", "@each(zz in [1])\n{{ loop = 3§ }}\n@end", "@each(zz in [1])@end\n{{ zz§ }}", "@for(zq = 0; zq < 1; zq++)\n@end\n{{ zq§ }}", "@if(true)\n{{ zq = 1 }}\n@end\n{{ zq§ }}", "@each(zz in [1])\n@end\n{{ loop§ }}", "{{ loop.index§ }}", "{{ loop§ }}",
}

var c13StmtPlaces = []string{"F", "F", "@if(true)\nF\n@end", "@if(false)\n@else\r\nF\n@end", "@each(z1 in [1,\n2])\nF\n@end", "@for(q9 = 0;\nq9 < 2;\nq9++)\nF\n@end", "@each(z2 in [])\n@else\nF\n@end", "@if('a\nb' == '')@elseif(true)\n\nF@end", "@if(true)@if(true)@if(true)\nF\n@end@end@end"}

// syntax faults
var c13Parse = []string{
	"{{ 1 #§ }}", "{{ #§ }}", "{{ 1 +\n $§ 2 }}", "{{ a\n&§ b }}", "{{ 'x\ny' |§ }}", "@if(~§true)\n@end", "@each(x in ^§y)\n@end", "{{ é§ }}", "{{ [1,\n`§] }}", "{{ {a: %%§} }}",
	"{{ 1 +\n }}§", "{{ (1\n }}§", "{{ [1, 2\n }}§", "{{ {a: 1\n )§ }}", "@if(\n)§x@end", "{{ a ? 1\n }}§", "{{ x = \n }}§", "{{ *§ 2 }}", "{{\n/§ 2 }}", "{{ 1 2§ }}", "{{ 1\n2§ }}", "{{ 'a'\n'b\nc'§ }}",
	"{{ obj.\n5§ }}", "{{ 1;\n )§ }}", "{{ a.b(\n1\n }}§", "{{ a[1\n }}§", "{{ {a\n=§ 1} }}", "@each(x\n of§ [1])\n@end", "@each(x in\n )§\n@end", "@each(x in [1]\n]§\n@end",
	"@if(true\n }§x@end", "@if(1\n2§)x@end", "@for(i = 0\n)§x@end", "@for(i = 0; i < 2\n)§x@end", "@component('c',\n 5§)", "@component('c', {a: 1}\n;§)", "@breakIf(\n)§",
	"{{ 99999999999999999999§ }}", "{{ 1 +\n 9223372036854775808§ }}", "{{ 'a'.\n 'b'§ }}", "{{ a.(§ }}", "{{ [1,, §2] }}", "{{ (§) }}", "{{ !§ }}", "{{ a ==\n }}§", "{{ a ? :§ 2 }}", "{{ a ? 1 :\n }}§", "{{ a++ 5§ }}", "{{ {a: \n}§ }}", "{{ {'x' 1§} }}", "@dump(\n;§)",
	"@if(a\n;§ b)@end", "{{ true false§ }}", "{{ nil\nnil§ }}", "{{ 1.5 1§ }}", "{{ in§ }}", "{{ [1 2§] }}", "{{ f(§1) }}", "{{ ]§ }}", "{{ ,§ }}", "{{ :§ }}", "{{ x = = §1 }}",
}

func c13Noise(r *rand.Rand, n int, kinds map[string]bool) string {
	var b strings.Builder
	for ; n > 0; n-- {
		id := letters(r.IntN(1 << 30))
		ps := []string{
			"text\n", "\n", "\n\n\n", "a\r\nb\r\n", "é日\n", "<p>\n  <b>x</b>\n</p>\n", "{{ 1 }}", "{{ 'one\ntwo' }}", "{{ \"a\\\"b\n\n\" }}", "{{-- c --}}", "{{-- multi\nline {{ x }} @if(\n--}}", "{{ [1,\n2,\n3] }}\n", "{{ {a: 1,\r\n b: 'x\ny'} }}", "{{ v" + id + " = 1;\n v" + id + "++ }}",
			"@if(true)\nyes\n@else\nno\n@end", "@if(false)\n\n@elseif(1 == 2)\n\n@end\n", "@each(e" + id + " in [1,\n 2])\n{{ e" + id + " }}\n@end", "@for(i" + id + " = 0;\n i" + id + " < 2;\n i" + id + "++)\n.\n@end", "\\{{ x\n }}", "\\@if(x)\n", "a@b.c\n", "@\n", "{ \n }", "\r\n", "\x00\n", "{{ s\n.len(\n) }}", "{{ obj\n.name }}", "{{ n +\n 1 }}", "{{\n\n}}"[:0] + "{{ nil\n}}", "@dump(\n1,\n2)", "}}\n", "\t\n", "\u2028\n", "{{ 'é\n' + \"\r\n\" }}", "\\\\\n",
			"a\fb\v\n", "a\rb\r", "\u0085\u2029\n", "{{ 'a" + strings.Repeat("\n", r.IntN(8)) + "b' }}", "{{--" + strings.Repeat("\n", r.IntN(8)) + "--}}", strings.Repeat("\n", r.IntN(40)), "{{ 'a\rb\fc' }}\r", "{{\r1\r}}", "{{\f1\v+ 2 }}"[:0] + "{{ {a: '" + strings.Repeat("\r\n", r.IntN(5)) + "'}.a }}", "@if('" + strings.Repeat("x\n", r.IntN(5)) + "' == '')\n@end",
			strings.Repeat("long line ", r.IntN(40)*r.IntN(40)) + "\n", "{{ [\n1,\n2\n].join(',\n\n') }}", "{{ \"a\\\"\n\n\n\\\"\" }}",
		}
		k := r.IntN(len(ps))
		kinds[fmt.Sprint(k)] = true
		b.WriteString(ps[k])
	}
	return b.String()
}

func c13Strip(s string) (src string, lo, line int) {
	i := strings.Index(s, "§")
	s, line = s[:i]+s[i+len("§"):], 1+strings.Count(s[:i], "\n")
	lo = line
	if j := strings.Index(s, "‹"); j >= 0 {
		s, lo = s[:j]+s[j+len("‹"):], 1+strings.Count(s[:j], "\n")
	}
	return s, lo, line
}

func c13Setup(w *W) {
	f := filepath.Join(w.Dir, "c13-nested.tw")
	must(os.WriteFile(f, []byte("nested\n\n\n{{ 1 / 0 }}"), 0o644))
	k := 0
	must(textwire.RegisterStrFunc("vhnest", func(string, ...any) string {
		if k++; k%2 == 0 {
			textwire.EvaluateFile(f, nil)
		} else {
			textwire.EvaluateString("{{ 1 }}\n\n{{ 2 + }}", nil)
		}
		return ""
	}))
}

var c13Data = map[string]any{"n": 5, "s": "str", "obj": map[string]any{"name": "nm", "list": []int{1}}, "arr": []any{map[string]any{"x": 1}}}

// c13Prog is a generated program that renders without a fault.
func c13Prog(w *W) string {
	ref := map[string]Val{"n": vInt(5), "s": vStr("str")}
	g := newGS(w.R, []GVar{{"n", ref["n"]}, {"s", ref["s"]}})
	g.Prefix, g.LoopNames, g.NoShadow, g.Budget = "g_", []string{"gi", "gj"}, true, 15
	ss := g.Stmts(2, 3)
	if o := RunRef(&Interp{}, ss, ref); o.Fail || o.Ambig != "" || staticFault(ss) {
		return ""
	}
	st := randStyle(w.R)
	st.Spaces = 3
	src, _ := Source(w.R, st, ss)
	return src
}

func c13(w *W, i int) {
	kinds := map[string]bool{}
	pre := c13Noise(w.R, w.R.IntN(9), kinds)
	if w.R.IntN(4) == 0 {
		pre += c13Prog(w) + "\n"
		kinds["program"] = true
	}
	if i%1500 == 7 { // very many lines before
		n := []int{255, 256, 257, 1000, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 70001, 130000}[w.R.IntN(14)]
		switch w.R.IntN(5) {
		case 0:
			pre += strings.Repeat("\r\n", n)
		case 1:
			pre += "{{--" + strings.Repeat("c\n", n) + "--}}"
		case 2:
			pre += "@if('" + strings.Repeat("s\n", n) + "' == '')@end"
		case 3:
			pre += "{{ " + strings.Repeat("\n", n) + "1 }}"
		default:
			pre += strings.Repeat("t\n", n)
		}
		kinds[fmt.Sprint("lines ", n)] = true
	}
	if w.R.IntN(12) == 0 { // a function that evaluates another file
		pre += "{{ 'q'.vhnest() }}" + []string{"", "\n", " "}[w.R.IntN(3)]
		kinds["nested"] = true
	}
	post := c13Noise(w.R, w.R.IntN(4), map[string]bool{})
	parse := w.R.IntN(2) == 0
	var f, place, body string
	stmt := false
	if parse {
		f = c13Parse[w.R.IntN(len(c13Parse))]
		place = "syntax"
		body = f
		switch w.R.IntN(6) {
		case 0:
			body = "@if(true)\n" + f + "\n@end"
			place = "syntax in if"
		case 1:
			body = "@each(z9 in [1])\n" + f + "@end"
			place = "syntax in each"
		}
	} else {
		f = c13Eval[w.R.IntN(len(c13Eval))]
		place = c13Places[w.R.IntN(len(c13Places))]
		if w.R.IntN(5) == 0 {
			stmt = true
			f = c13Stmts[w.R.IntN(len(c13Stmts))]
			place = c13StmtPlaces[w.R.IntN(len(c13StmtPlaces))]
			if strings.Contains(place, "@each(z1") && strings.Contains(f, "loop.index§") || strings.Contains(place, "@each(z1") && strings.Contains(f, "{{ loop§") {
				place = "F"
			}
		}
		body = strings.Replace(place, "F", f, 1)
	}
	if w.R.IntN(6) == 0 {
		body = strings.ReplaceAll(strings.ReplaceAll(body, "\r\n", "\n"), "\n", "\r\n")
	}
	key := f + place + strings.Join(sortedKeys(kinds), ",")
	if i%4 == 0 && !(parse && strings.HasPrefix(f, "@use")) {
		c13Files(w, i, f, place, pre, body, post, parse, stmt, key)
		return
	}
	if strings.Contains(f, "@reserve") || strings.Contains(f, "@use") || strings.Contains(f, "@insert") {
		place += " (string)"
	}
	src, lo, line := c13Strip(pre + body + post)
	_, err, fine := w.Eval(src, c13Data)
	if !fine {
		return
	}
	if err == nil {
		w.Fail("a fault is not reported", "template", src, "fault", f)
		return
	}
	_, got, ok := lineOf(err)
	w.Feat("string: " + map[bool]string{true: "syntax", false: "evaluation"}[parse])
	w.Key(key)
	w.Sample(src)
	if !ok || got < lo || got > line {
		w.Fail("wrong line", "template", src, "fault", f, "place", place, "expected", fmt.Sprint(line), "got", fmt.Sprint(got), "error", err.Error())
		return
	}
	if i%40 == 1 {
		t := &dirTree{Dir: fmt.Sprintf("c13f-%d", i), Ext: ".x", Files: map[string]string{"f": src}}
		w.writeTree(t)
		defer w.rmTree(t)
		w.Guard("EvaluateFile", func() {
			w.Evals++
			_, err = textwire.EvaluateFile(filepath.Join(w.Dir, t.Dir, "f.x"), c13Data)
		})
		if err == nil {
			w.Fail("a fault is not reported", "template", src, "fault", f)
		} else if _, got, ok := lineOf(err); !ok || got < lo || got > line {
			w.Fail("wrong line", "template", src, "fault", f, "place", place, "expected", fmt.Sprint(line), "got", fmt.Sprint(got), "error", err.Error())
		}
		w.Feat("file by path")
	}
}

// loading faults in a page; C stands for noise inside the construct
var c13Load = []struct{ kind, src string }{
	{"unknown component", "@component('nosuch')§"},
	{"unknown component", "@component('nosuch', {a: 1})§"},
	{"unknown component", "@if(true)\n\n@component('~nosuch')§\n@end"},
	{"unknown component", "@each(z in [1])\n@component('no/such')§@end"},
	{"unknown component", "‹@component(\n'nosuch', {\na: 1\n})§"},
	{"unknown slot", "@component('c')@slot('nosuch')§x@end@end"},
	{"duplicate slot", "@component('c')@slot('s')§x@end@slot('s')y@end@end"},
}
var c13LoadLayout = []struct{ kind, src string }{
	{"unknown insert", "@insert('nosuch', 1)§"},
	{"unknown insert", "@insert('nosuch')§x\n@end"},
	{"unknown insert", "‹@insert(\n'nosuch',\n1)§"},
	{"unknown component in insert", "@insert('r')\n\n@component('nosuch')§\n@end"},
	{"missing layout", "@use('nosuch')§"},
}

func c13Files(w *W, i int, f, place, pre, body, post string, parse, stmt bool, key string) {
	t := &dirTree{Dir: fmt.Sprintf("c13-%d/t", i), Ext: []string{".tw", ".tw.html"}[w.R.IntN(2)], Files: map[string]string{}}
	good := map[string]string{"c": "<c>\n@slot\n@slot('s')</c>\n", "l": "<html>\n@reserve('r')\n@reserve('q')\n</html>"}
	for k, v := range good {
		t.Files[k] = v
	}
	t.Files["other"] = "fine\n"
	file := "page"
	loadErr := parse
	pathKnown := true
	noise := func() string { return c13Noise(w.R, w.R.IntN(4), map[string]bool{}) }
	kind := w.R.IntN(9)
	if parse && strings.Contains(f, "@slot") && kind >= 3 {
		kind = 0
	}
	if (strings.Contains(f, "@reserve") || strings.Contains(f, "@insert")) && !(kind == 0 || kind == 3) {
		kind = 0
	}
	if stmt && kind == 7 {
		kind = 0
	}
	switch kind {
	case 0, 1, 2: // in the page itself
		t.Files["page"] = pre + body + post
	case 3: // in an insert block
		t.Files["page"] = noise() + "@use('l')\n@insert('q', 'x')@insert('r')" + pre + body + post + "@end\n"
		if strings.Contains(f, "@insert") || strings.Contains(f, "@reserve") {
			t.Files["page"] = pre + body + post
		}
	case 4: // in a component file
		file = "c"
		pathKnown = parse
		t.Files["c"] = pre + body + post
		t.Files["page"] = noise() + "@component('c')\n"
	case 5: // in a layout file
		file = "l"
		pathKnown = parse
		t.Files["l"] = pre + body + post + "@reserve('r')"
		t.Files["page"] = noise() + "@use('l')@insert('r', 1)\n"
	case 6: // in a slot body
		t.Files["page"] = noise() + "@component('c')\n@slot" + pre + "\n" + body + post + "@end\n@end\n"
		if parse {
			t.Files["page"] = pre + body + post
		}
	case 7: // component argument or insert expression
		if parse {
			t.Files["page"] = pre + body + post
			break
		}
		if w.R.IntN(2) == 0 {
			t.Files["page"] = pre + "@component('c', {\nq: 1,\r\nca: " + f + "\n})" + post
		} else {
			t.Files["page"] = pre + "@use('l')\n@insert('r',\n" + f + ")" + post
		}
		body = f
		key += "argument"
	case 8: // loading faults
		loadErr, parse = true, true
		if w.R.IntN(2) == 0 {
			l := c13Load[w.R.IntN(len(c13Load))]
			f = l.kind
			t.Files["page"] = pre + l.src + post
		} else {
			l := c13LoadLayout[w.R.IntN(len(c13LoadLayout))]
			f = l.kind
			use := "@use('l')"
			if f == "missing layout" {
				use = ""
			}
			t.Files["page"] = pre + use + noise() + l.src + post
		}
		key += f
	}
	// names whose order differs, so that a faulty file is found by itself or through the file that uses it
	page := []string{"page", "aaa", "deep/er/p", "layouts/z", "c.d"}[w.R.IntN(5)]
	t.Files[page], t.Files["page"] = t.Files["page"], t.Files[page]
	if page != "page" {
		delete(t.Files, "page")
	}
	if file == "page" {
		file = page
	}
	src, lo, line := c13Strip(t.Files[file])
	t.Files[file] = src
	w.writeTree(t)
	defer w.rmTree(t)
	tpl, err, fine := w.load(t)
	if !fine {
		return
	}
	abs := filepath.Join(w.Dir, t.Dir, file+t.Ext)
	info := []string{"template", t.dump(), "fault", f, "place", fmt.Sprint(place, " kind ", kind), "expected", fmt.Sprint(abs, " ", line)}
	w.Key(key + fmt.Sprint(kind))
	if loadErr {
		w.Feat(fmt.Sprintf("files: loading fault, place %d", kind))
		if err == nil {
			w.Fail("a fault is not reported", info...)
			return
		}
		p, got, ok := lineOf(err)
		if !ok || got < lo || got > line {
			w.Fail("wrong line", append(info, "error", err.Error())...)
			return
		}
		if p != abs {
			w.Fail("wrong path", append(info, "error", err.Error())...)
		}
		return
	}
	if err != nil {
		w.Fail("templates do not load", append(info, "error", err.Error())...)
		return
	}
	w.Feat(fmt.Sprintf("files: evaluation fault, place %d", kind))
	_, ferr, fine := w.render(tpl, t, page, c13Data)
	if !fine {
		return
	}
	if ferr == nil {
		w.Fail("a fault is not reported", info...)
		return
	}
	if int(ferr.Line()) > line || int(ferr.Line()) < lo {
		w.Fail("wrong line", append(info, "error", ferrStr(ferr))...)
		return
	}
	if pathKnown && ferr.Filepath() != abs {
		w.Fail("wrong path", append(info, "error", ferrStr(ferr))...)
	}
}
