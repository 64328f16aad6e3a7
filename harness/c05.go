package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C05", Quick: 2744 + 900000, Thorough: 2744 + 3000000,
		Rule: "the first 2744 cases enumerate every string of up to 5 (thorough: 6) lexemes over a 14-lexeme adversarial alphabet (braces, backslash, @, dashes, directive names and prefixes, newline, NUL, UTF-8); the others splice random hostile byte runs around prints, comments, @if/@each blocks, some with runs of 60 to 260 KB; " +
			"a byte-level text scanner written from the property gives the expected output or discards the string as containing other syntax; non-trivial = contains an escape, a comment or a brace/@/backslash; distinct = distinct sources among those",
		Assumptions: []string{"'\\{{{{', comments whose content starts with '}}' or '-}}', '@else' followed by 'if', '@break'/'@continue' followed by 'If' and '@slot' followed by '(' are ambiguous and discarded"},
		Run:         c05,
	})
}

// directive keywords, from the documentation
var dirKeywords = []string{"if", "elseif", "else", "end", "for", "each", "break", "breakIf", "continue", "continueIf", "insert", "reserve", "use", "component", "slot", "dump"}

func atDirective(s string) bool {
	if !strings.HasPrefix(s, "@") {
		return false
	}
	for _, k := range dirKeywords {
		if strings.HasPrefix(s[1:], k) {
			return true
		}
	}
	return false
}

// piece is a part of a template source: text, or one code item.
type piece struct {
	src  string
	code bool
	self bool // self-contained: may be escaped away
	out  string
	// computed
	text strings.Builder
	used bool
}

// scanText computes what every piece emits. ok is false when the string has
// syntax that is none of the known pieces.
func scanText(ps []*piece) (ok bool, interesting bool) {
	var b strings.Builder
	starts := map[int]*piece{}
	var owner []*piece
	for _, p := range ps {
		if p.code {
			starts[b.Len()] = p
		}
		b.WriteString(p.src)
		for range []byte(p.src) {
			owner = append(owner, p)
		}
	}
	s := b.String()
	i := 0
	emit := func(n int) {
		for k := 0; k < n; k++ {
			owner[i+k].text.WriteByte(s[i+k])
		}
		i += n
	}
	for i < len(s) {
		c := s[i]
		rest := s[i:]
		if c == '{' || c == '@' || c == '\\' || c == '}' {
			interesting = true
		}
		if c == '\\' {
			if strings.HasPrefix(rest[1:], "{{") {
				if strings.HasPrefix(rest[1:], "{{{{") {
					return false, false
				}
				i++
				if strings.HasPrefix(rest[1:], "{{{") {
					emit(3)
				} else {
					emit(2)
				}
				continue
			}
			if atDirective(rest[1:]) {
				i++
				emit(2)
				continue
			}
			emit(1)
			continue
		}
		if strings.HasPrefix(rest, "{{--") {
			if strings.HasPrefix(rest[4:], "}}") || strings.HasPrefix(rest[4:], "-}}") {
				return false, false
			}
			e := strings.Index(rest[4:], "--}}")
			if e < 0 {
				return false, false
			}
			i += 4 + e + 4
			continue
		}
		if strings.HasPrefix(rest, "{{") || atDirective(rest) {
			p := starts[i]
			if p == nil || p.used {
				return false, false
			}
			nx := s[i+len(p.src):]
			switch {
			case p.src == "@else" && strings.HasPrefix(nx, "if"),
				(p.src == "@break" || p.src == "@continue") && strings.HasPrefix(nx, "If"):
				return false, false
			}
			p.used = true
			p.text.WriteString(p.out)
			i += len(p.src)
			continue
		}
		emit(1)
	}
	for _, p := range ps {
		if p.code && !p.used && !p.self {
			return false, false
		}
	}
	return true, interesting
}

// node is a template built of pieces.
type tnode struct {
	p    *piece
	kind string // "", if, each
	cond bool
	n    int
	kids [2][]*tnode
	head *piece
	mid  *piece
	tail *piece
}

func flat(ns []*tnode, out []*piece) []*piece {
	for _, n := range ns {
		if n.kind == "" {
			out = append(out, n.p)
			continue
		}
		out = append(out, n.head)
		out = flat(n.kids[0], out)
		if n.mid != nil {
			out = append(out, n.mid)
			out = flat(n.kids[1], out)
		}
		out = append(out, n.tail)
	}
	return out
}

func collect(ns []*tnode, b *strings.Builder) {
	for _, n := range ns {
		switch n.kind {
		case "":
			b.WriteString(n.p.text.String())
		case "if":
			if n.cond {
				collect(n.kids[0], b)
			} else {
				collect(n.kids[1], b)
			}
		case "each":
			for i := 0; i < n.n; i++ {
				collect(n.kids[0], b)
			}
			if n.n == 0 {
				collect(n.kids[1], b)
			}
		}
	}
}

var c05Alphabet = []string{"{", "}", "\\", "@", "-", "if", "end", "e", "\n", "\x00", "é", "(", "slot", " "}

var c05Bits = []string{"{", "{{", "}", "}}", "\\", "\\\\", "@", "-", "--", "--}}", "{{--", "\\{{", "\\@", "\\@if", "\\@end", "\\@each(x in y)", "@i", "@en", "@els", "@brea", "@foreach", "@EACH", "@If", "@ if", "@", "@@", "@compon", "@inser", "@us", "@dum", "@slo", "@_", "if", "end", "else", "elseif", "slot", "break", "If", "dump", "\n", "\r", "\r\n", "\t", " ", "\x00", "\xff", "\xc3", "é", "日本", "\u2028", "\ufeff", "(", ")", "()", ";", ":", "\"", "'", "&lt;", "<", ">", "&", "%", "%s", "%d", "$", "/*", "//", "<!--", "-->", "a", "foo@bar.com", "@media", "@import", "0", "1.5", "{ }", "{-", "-}", "{%", "%}", "\\n", "\\{", "\\}", "\\\"", "{\\{", "}\\}", "\\{{ x }}", "\\{{-- c --}}", "\\\\{{ 1 }}", "@\\if", "\\@@if"}

func c05Text(r *rand.Rand) string {
	var b strings.Builder
	if r.IntN(400) == 0 { // long runs
		for n := 1 + r.IntN(3); n > 0; n-- {
			x := c05Bits[r.IntN(len(c05Bits))]
			if r.IntN(2) == 0 {
				x += c05Bits[r.IntN(len(c05Bits))] + "text "
			}
			b.WriteString(strings.Repeat(x, 1+r.IntN([]int{40, 300, 5000, 20000}[r.IntN(4)]/len(x)+1)))
		}
		return b.String()
	}
	switch r.IntN(12) {
	case 0:
		n := r.IntN(400)
		for i := 0; i < n; i++ {
			b.WriteByte(byte(r.IntN(256)))
		}
	default:
		for n := 1 + r.IntN(7); n > 0; n-- {
			b.WriteString(c05Bits[r.IntN(len(c05Bits))])
		}
	}
	return b.String()
}

var c05Prints = [][2]string{{"{{ 1 }}", "1"}, {"{{1}}", "1"}, {`{{ "a}}b" }}`, "a}}b"}, {"{{ x }}", "X"}, {"{{x}}", "X"}, {"{{ {a: 3}.a }}", "3"}, {"{{ [1, 2][1] }}", "2"},
	{`{{ "@if(" + '{{' }}`, "@if({{"}, {"{{\n\tx\n}}", "X"}, {"{{ x; 2 }}", "X2"}, {"{{ y = 5 }}", ""}, {"{{ true ? 'p' : 'q' }}", "p"}, {"{{ \"\" }}", ""}, {"{{ -1 }}", "-1"}, {"{{ 'a--b' }}", "a--b"}, {"{{ (1) }}", "1"}, {`{{ "--}}" }}`, "--}}"}, {`{{ 3-- }}`, "2"}, {`{{ "\"" }}`, `"`}}

var c05Comments = []string{"", " c ", "-", "- ", "--", "}}", " }}", "{{", "{{ x }}", "@if(", "@end", "\n", "\r\n", "\"", "'", "\\", "é", "\x00", "<", "--}", "-}}", "{{--", "@", " --} ", " }} -- "}

func c05Nodes(r *rand.Rand, d, n int) []*tnode {
	var ns []*tnode
	for ; n > 0; n-- {
		switch k := r.IntN(12); {
		case k < 5:
			ns = append(ns, &tnode{p: &piece{src: c05Text(r)}})
		case k < 8 || d == 0:
			p := c05Prints[r.IntN(len(c05Prints))]
			ns = append(ns, &tnode{p: &piece{src: p[0], out: p[1], code: true, self: true}})
		case k < 10:
			c := ""
			for i := r.IntN(3); i >= 0; i-- {
				c += c05Comments[r.IntN(len(c05Comments))]
			}
			ns = append(ns, &tnode{p: &piece{src: "{{--" + c + "--}}"}})
		case k < 11:
			t := &tnode{kind: "if", cond: r.IntN(2) == 0}
			t.head = &piece{src: []string{fmt.Sprintf("@if(%v)", t.cond), fmt.Sprintf("@if( %v )", t.cond), fmt.Sprintf("@if((%v))", t.cond)}[r.IntN(3)], code: true}
			t.kids[0] = c05Nodes(r, d-1, r.IntN(4))
			if r.IntN(2) == 0 {
				t.mid = &piece{src: []string{"@else", "@elseif(true)"}[r.IntN(2)], code: true}
				t.kids[1] = c05Nodes(r, d-1, r.IntN(4))
			}
			t.tail = &piece{src: "@end", code: true}
			ns = append(ns, t)
		default:
			t := &tnode{kind: "each", n: r.IntN(3)}
			vs := []string{"@each(i in [])", "@each(i in [1])", "@each(i in [7, \"b)\".len()])"}
			if r.IntN(3) == 0 {
				vs = []string{"@for(i = 0; i < 0; i++)", "@for(i = 0; i < 1; i++)", "@for(i = 2; (i > 0); i = i - 1)"}
			}
			t.head = &piece{src: vs[t.n], code: true}
			t.kids[0] = c05Nodes(r, d-1, r.IntN(4))
			if r.IntN(3) == 0 {
				t.mid = &piece{src: "@else", code: true}
				t.kids[1] = c05Nodes(r, d-1, r.IntN(3))
			}
			t.tail = &piece{src: "@end", code: true}
			ns = append(ns, t)
		}
	}
	return ns
}

func c05Check(w *W, ns []*tnode) {
	ps := flat(ns, nil)
	ok, interesting := scanText(ps)
	if !ok {
		w.Skip("contains other syntax")
		return
	}
	var src, exp strings.Builder
	for _, p := range ps {
		src.WriteString(p.src)
	}
	collect(ns, &exp)
	s := src.String()
	out, err, fine := w.Eval(s, map[string]any{"x": "X"})
	if !fine {
		return
	}
	if interesting {
		w.Key(s)
	}
	w.Feat("compared")
	if err != nil || out != exp.String() {
		w.Fail("text is not emitted byte for byte", "template", s, "quoted", fmt.Sprintf("%q", s), "expected", fmt.Sprintf("%q", exp.String()), "got", fmt.Sprintf("%q", out), "error", errStr(err))
	}
}

func c05(w *W, i int) {
	if i < 2744 {
		a := c05Alphabet
		pre := a[i/196] + a[i/14%14] + a[i%14]
		depth := 2
		if w.Tier == "thorough" {
			depth = 3
		}
		var rec func(s string, d int)
		rec = func(s string, d int) {
			c05Check(w, []*tnode{{p: &piece{src: s}}})
			if d == 0 {
				return
			}
			for _, l := range a {
				rec(s+l, d-1)
			}
		}
		rec(pre, depth)
		if i < 14*14 {
			for _, s := range []string{a[i/14] + a[i%14], a[i%14]} {
				c05Check(w, []*tnode{{p: &piece{src: s}}})
			}
		}
		return
	}
	nn := 1 + w.R.IntN(6)
	if w.R.IntN(12000) == 0 {
		// one run of text longer than any buffer
		x := c05Bits[w.R.IntN(len(c05Bits))] + "a"
		k := (60000 + w.R.IntN(200000)) / len(x)
		w.Feat("huge text")
		c05Check(w, []*tnode{{p: &piece{src: strings.Repeat(x, k) + c05Text(w.R)}}, {p: &piece{src: "{{ x }}", out: "X", code: true, self: true}}})
		return
	}
	if w.R.IntN(500) == 0 {
		nn = 50 + w.R.IntN(600)
		w.Feat("many pieces")
	}
	ns := c05Nodes(w.R, 1+w.R.IntN(3), nn)
	if w.One || i%5000 == 0 {
		var b strings.Builder
		for _, p := range flat(ns, nil) {
			b.WriteString(p.src)
		}
		w.Sample(b.String())
	}
	if i%16 == 0 {
		c05File(w, ns, i)
		return
	}
	c05Check(w, ns)
}

// c05File puts the text into a page, a layout, an insert, a slot body or a
// component of a loaded tree.
func c05File(w *W, ns []*tnode, i int) {
	var pre, post string
	t := &dirTree{Dir: fmt.Sprintf("c05-%d", i), Ext: ".tw", Files: map[string]string{}}
	mode := w.R.IntN(6)
	target := "page"
	xp, xs := "", ""
	switch mode {
	case 1:
		pre, post = "@use('l')JUNK@insert('b')", "@end JUNK"
		t.Files["l"] = "<@reserve('b')>"
		xp, xs = "<", ">"
	case 2:
		pre, post = "@reserve('b')", ""
		target = "l"
		t.Files["page"] = "@use('l')@insert('b', 'B')"
		xp = "B"
	case 3:
		pre, post = "@component('c')@slot('s')", "@end@end!"
		t.Files["c"] = "(@slot('s'))"
		xp, xs = "(", ")!"
	case 4:
		pre, post = "", "@slot('s')."
		target = "c"
		t.Files["page"] = "@component('c')@slot('s')S@end@end"
		xs = "S."
	case 5:
		pre, post = "@component('c')@slot", "@end@end!"
		t.Files["c"] = "(@slot)"
		xp, xs = "(", ")!"
	}
	ps := []*piece{{src: pre, code: true}}
	ps = flat(ns, ps)
	ps = append(ps, &piece{src: post, code: true})
	all := ""
	for _, p := range ps {
		all += p.src
	}
	// pre and post are code that the scanner does not see
	if pre == "" {
		ps = ps[1:]
	} else {
		ps[0].src = "@end"
	}
	last := ps[len(ps)-1]
	if post == "" {
		ps = ps[:len(ps)-1]
	} else {
		last.src = "@end"
	}
	ok, _ := scanText(ps)
	body := all[len(pre) : len(all)-len(post)]
	if !ok || mode == 5 && (strings.HasPrefix(strings.TrimLeft(body, " \t\r\n"), "(")) {
		w.Skip("contains other syntax")
		return
	}
	t.Files[target] = all
	var exp strings.Builder
	exp.WriteString(xp)
	collect(ns, &exp)
	exp.WriteString(xs)
	w.writeTree(t)
	defer w.rmTree(t)
	tpl, err, fine := w.load(t)
	if !fine {
		return
	}
	if err != nil {
		w.Fail("load failed", "template", t.dump(), "error", err.Error())
		return
	}
	out, ferr, fine := w.render(tpl, t, "page", map[string]any{"x": "X"})
	if !fine {
		return
	}
	w.Feat(fmt.Sprintf("compared in file mode %d", mode))
	w.Key(all + target)
	if ferr != nil || out != exp.String() {
		w.Fail("text is not emitted byte for byte (files)", "template", t.dump(), "quoted", fmt.Sprintf("%q", all), "expected", fmt.Sprintf("%q", exp.String()), "got", fmt.Sprintf("%q", out), "error", ferrStr(ferr))
	}
}
