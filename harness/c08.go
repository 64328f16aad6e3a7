package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/parser"
	"github.com/textwire/textwire/v2/token"
)

func init() {
	register(&Prop{
		ID: "C08", Quick: c08Enum + 60000, Thorough: c08Enum + 800000,
		Rule: "enumeration of all sequences of up to 2 (thorough 3; in text and braces one more) lexemes of the full alphabet in 9 contexts; every prefix of generated templates that ends inside a construct (must be rejected), illegal characters inserted at token boundaries (must be rejected), single token deletion/duplication/swap/insertion, lexeme and byte soups, deep nesting and long inputs, and the same as page/layout/component files; " +
			"monitors: token count bound, error with a line inside the source or a program, agreement of the parser and EvaluateString/NewTemplate, CPU/memory/crash watchdog per case; non-trivial = contains Textwire syntax; distinct = distinct sources",
		Assumptions: []string{"a case of at most a few hundred kilobytes that needs more than 25 s of CPU counts as not terminating"},
		Run:         c08,
	})
}

var lexemes = []string{
	"{{", "}}", "{", "}", "(", ")", "[", "]", "?", ":", ",", ".", ";", "=", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "++", "--", "!",
	"x", "loop", "0", "7", "1.5", `"s"`, `'t'`, `"`, "'", "true", "nil", "in",
	"@if", "@elseif", "@else", "@end", "@for", "@each", "@break", "@breakIf", "@continue", "@continueIf", "@use", "@insert", "@reserve", "@component", "@slot", "@dump",
	" ", "\n", "txt", "\\", "{{--", "--}}", "#", "é", "\x00", "~", "@"}

var c08Ctx = [][2]string{{"", ""}, {"{{ ", ""}, {"{{ ", " }}"}, {"@if(", ") x @end"}, {"@if(true)", "@end"}, {"@each(", ")x@end"}, {"@for(", ")x@end"}, {"@component(\"c\"", ")"}, {"@insert(\"a\"", ")"}, {"{{ x = {a: ", "} }}"}}

const c08Enum = 67 * 10

func c08(w *W, i int) {
	if i < c08Enum {
		c08Enumerate(w, i)
		return
	}
	if k := i - c08Enum; k < len(c08DeepUnits) {
		u := c08DeepUnits[k]
		n := 3000000
		if w.Tier == "thorough" {
			n = 8000000
		}
		w.Feat("repeated millions of times")
		c08Check(w, u[0]+strings.Repeat(u[1], n), "")
		return
	}
	switch i % 16 {
	case 0, 1, 2, 3:
		c08Prefixes(w)
	case 4, 5:
		c08Illegal(w)
	case 6, 7, 8:
		c08Mutate(w)
	case 9, 10, 11:
		c08Soup(w)
	case 12:
		c08Big(w, i)
	default:
		c08Files(w, i)
	}
}

func c08Enumerate(w *W, i int) {
	if len(lexemes) != 67 || len(c08Ctx) != 10 {
		panic(fmt.Sprint("alphabet ", len(lexemes)))
	}
	c := c08Ctx[i/67]
	first := lexemes[i%67]
	depth := 1
	if i/67 < 3 {
		depth++
	}
	if w.Tier == "thorough" {
		depth++
	}
	w.Feat("enumerated context " + c[0])
	var rec func(s string, d int)
	rec = func(s string, d int) {
		c08Check(w, c[0]+s+c[1], "")
		if d == 0 {
			return
		}
		for _, l := range lexemes {
			rec(s+l, d-1)
		}
	}
	rec(first, depth)
}

// parseOnly runs the lexer and the parser on src and returns the number of
// recorded errors.
func (w *W) parseOnly(src string) (nerr int, first string, ok bool) {
	ok = w.Guard(src, func() {
		w.Evals++
		l := lexer.New(src)
		n := 0
		for {
			t := l.NextToken()
			n++
			if t.Type == token.EOF {
				break
			}
			if n > len(src)+8 {
				w.Fail("the lexer makes no progress", "template", src, "quoted", fmt.Sprintf("%q", src))
				return
			}
		}
		p := parser.New(lexer.New(src), "")
		prog := p.ParseProgram()
		es := p.Errors()
		nerr = len(es)
		if nerr == 0 && prog == nil {
			w.Fail("neither a program nor an error", "template", src)
		}
		if p.HasErrors() != (nerr > 0) {
			w.Fail("HasErrors disagrees with Errors", "template", src)
		}
		lines := uint(strings.Count(src, "\n") + 1)
		for k, e := range es {
			if k == 0 {
				first = ferrStr(e)
			}
			if e == nil || e.Line() == 0 || e.Line() > lines {
				w.Fail("a parse error without a line of the source", "template", src, "error", ferrStr(e))
				return
			}
		}
	})
	return
}

// c08Check runs one source; must names why it has to be rejected.
func c08Check(w *W, src, must string) {
	n, first, ok := w.parseOnly(src)
	if !ok {
		return
	}
	if strings.Contains(src, "{{") || strings.Contains(src, "@") {
		w.Key(src)
	}
	if must != "" {
		w.Feat("must be rejected: " + must)
		if n == 0 {
			w.Fail("not rejected: "+must, "template", src, "quoted", fmt.Sprintf("%q", src))
			return
		}
	}
	if n > 0 {
		w.Feat("rejected")
		out, err, fine := w.Eval(src, nil)
		if fine && err == nil {
			w.Fail("EvaluateString succeeds although the parser reports an error", "template", src, "got", out, "error", first)
		}
	} else {
		w.Feat("parsed")
	}
}

// c08Stmts generates a valid template.
func c08Stmts(w *W) []*St {
	_, vars := sampleData(w.R)
	g := newGS(w.R, vars)
	g.Budget = 3 + w.R.IntN(10)
	g.W["special"] = 4
	// a placeholder that follows a use of a component would be a slot of it
	comps := w.R.IntN(2)
	g.Special = func(g *GS, d int) *St {
		switch k := w.R.IntN(5); {
		case k == 4:
			s := &St{K: "dump", Args: &X{Op: "arr", T: KArr}}
			for n := w.R.IntN(4); n > 0; n-- {
				s.Args.A = append(s.Args.A, g.expr(g.anyKind(), 1))
			}
			return s
		case k < 2 && comps == 0:
			s := &St{K: "comp", Name: "c", Quote: quote(w.R)}
			if w.R.IntN(2) == 0 {
				s.Args = &X{Op: "obj", Keys: []string{"a", "b"}, A: []*X{g.expr(KInt, 1), g.expr(KStr, 1)}, T: KObj}
			}
			for k, n := range []string{"", "one", "two"} {
				if w.R.IntN(3) == 0 && d > 0 {
					s.Slots = append(s.Slots, &SlotDef{Name: n, Ws: wsPool[k], Body: g.Block(d - 1)})
				}
			}
			return s
		case k == 1:
			return &St{K: "slot", Name: g.G.pick("x", "y y"), Quote: quote(w.R)}
		case k < 3:
			g.n++
			return &St{K: "reserve", Name: "r" + letters(g.n), Quote: quote(w.R)}
		}
		g.n++
		if w.R.IntN(2) == 0 {
			return &St{K: "insert", Name: "i" + letters(g.n), X: g.expr(g.anyKind(), 1), Quote: quote(w.R)}
		}
		return &St{K: "insert", Name: "i" + letters(g.n), Blocks: [][]*St{g.Block(0)}, Quote: quote(w.R)}
	}
	ss := g.Stmts(1+w.R.IntN(3), 1+w.R.IntN(4))
	if w.R.IntN(6) == 0 {
		ss = append([]*St{{K: "use", Name: "l", Quote: quote(w.R)}}, ss...)
	}
	return ss
}

func c08Valid(w *W) (string, *Pr) {
	src, p := Source(w.R, randStyle(w.R), c08Stmts(w))
	if n, e, ok := w.parseOnly(src); ok && n > 0 {
		w.Fail("a valid template is rejected", "template", src, "error", e)
	}
	return src, p
}

func c08Prefixes(w *W) {
	src, p := c08Valid(w)
	inside := make([]bool, len(src)+1)
	for _, iv := range p.Iv {
		for k := iv[0]; k < iv[1]; k++ {
			inside[k] = true
		}
	}
	w.Sample(src)
	step := 1
	if w.Tier != "thorough" {
		step = 1 + w.R.IntN(1+len(src)/60)
	}
	for k := 0; k < len(src); k += step {
		must := ""
		if inside[k] {
			must = "prefix that ends inside a construct"
		}
		c08Check(w, src[:k], must)
	}
}

var illegalChars = []string{"#", "$", "^", "&", "|", "`", "\\", "~", "@", "\x01", "\x7f", "é", "日", "\xff", "\xc3", "\u00a0", "\u2028", "\ufeff", "\x00", "😀", "\v", "\x1b", "\b", "\f", "\x1f", "\u200b", "§", "\u0085"}

func c08Illegal(w *W) {
	src, p := c08Valid(w)
	if len(p.Tok) == 0 {
		return
	}
	for n := 0; n < 6; n++ {
		at := p.Tok[w.R.IntN(len(p.Tok))]
		c := illegalChars[w.R.IntN(len(illegalChars))]
		if w.R.IntN(4) == 0 {
			c += illegalChars[w.R.IntN(len(illegalChars))]
		}
		if w.R.IntN(2) == 0 {
			c = " " + c + " "
		}
		c08Check(w, src[:at]+c+src[at:], "illegal character")
		// the same character at two places
		if b := p.Tok[w.R.IntN(len(p.Tok))]; b >= at {
			c08Check(w, src[:at]+c+src[at:b]+c+src[b:], "illegal character")
		}
		// brackets that do not balance
		switch src[at] {
		case ']', ')':
			c08Check(w, src[:at]+src[at+1:], "a closing bracket is missing")
		case '[':
			c08Check(w, src[:at]+src[at+1:], "an opening bracket is missing")
			c08Check(w, src[:at]+"["+src[at:], "a bracket too many")
		}
	}
}

func tokenSpans(src string) []string {
	// a rough split into lexemes
	var out []string
	i := 0
	cls := func(c byte) int {
		switch {
		case isWord(c) || c == '@':
			return 1
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			return 2
		}
		return 3
	}
	for i < len(src) {
		j := i + 1
		if k := cls(src[i]); k != 3 {
			for j < len(src) && cls(src[j]) == k && src[j] != '@' {
				j++
			}
		} else if j < len(src) && (src[i:j+1] == "{{" || src[i:j+1] == "}}" || src[i:j+1] == "--" || src[i:j+1] == "++") {
			j++
		}
		out = append(out, src[i:j])
		i = j
	}
	return out
}

func mutateToks(r *rand.Rand, ts []string) []string {
	ts = append([]string{}, ts...)
	if len(ts) < 2 {
		return ts
	}
	i := r.IntN(len(ts))
	switch r.IntN(5) {
	case 0:
		return append(ts[:i], ts[i+1:]...)
	case 1:
		return append(ts[:i+1], ts[i:]...)
	case 2:
		j := r.IntN(len(ts))
		ts[i], ts[j] = ts[j], ts[i]
		return ts
	case 3:
		ts[i] = lexemes[r.IntN(len(lexemes))]
		return ts
	default:
		return append(ts[:i], append([]string{lexemes[r.IntN(len(lexemes))]}, ts[i:]...)...)
	}
}

func c08Mutate(w *W) {
	src, _ := c08Valid(w)
	ts := tokenSpans(src)
	for n := 0; n < 12; n++ {
		m := mutateToks(w.R, ts)
		for w.R.IntN(3) == 0 {
			m = mutateToks(w.R, m)
		}
		c08Check(w, strings.Join(m, ""), "")
	}
}

func soup(r *rand.Rand) string {
	var b strings.Builder
	n := 1 + r.IntN(40)
	if r.IntN(3) == 0 {
		b.WriteString(c08Ctx[r.IntN(len(c08Ctx))][0])
	}
	switch r.IntN(3) {
	case 0:
		for ; n > 0; n-- {
			b.WriteByte(byte(r.IntN(256)))
		}
	case 1:
		const set = "{}()[]@\"'\\-+=<>!?:;,.%*/ \n\r\tifelsndwax01#\x00\xc3\xa9"
		for n *= 2; n > 0; n-- {
			b.WriteByte(set[r.IntN(len(set))])
		}
	default:
		for ; n > 0; n-- {
			b.WriteString(lexemes[r.IntN(len(lexemes))])
		}
	}
	return b.String()
}

func c08Soup(w *W) {
	for n := 0; n < 12; n++ {
		c08Check(w, soup(w.R), "")
	}
}

// c08DeepUnits nest without limit: the stack of the process does not grow as far.
var c08DeepUnits = [][2]string{{"{{ ", "("}, {"{{ ", "["}, {"{{ ", "{a:"}, {"{{ ", "!"}, {"{{ ", "- "}, {"{{ 1", "?1:1"}, {"{{ 1", "?1"}, {"", "@if(1)"}, {"", "@each(x in [])"}, {"", "@component('c')@slot('a')"}, {"{{ a", "[a"}, {"{{ a", ".f(a"}, {"@if(1)", "@else@if(1)"}, {"{{ ", "x="}}

// c08Big makes deep or long inputs.
func c08Big(w *W, i int) {
	if i%(16*40) != 12+16*(w.R.IntN(1)) && w.Tier != "thorough" && i > c08Enum+16*200 {
		c08Soup(w)
		return
	}
	n := []int{50, 2000, 9000, 11000, 120000}[w.R.IntN(5)]
	rep := strings.Repeat
	units := [][3]string{{"{{ ", "(", "1"}, {"{{ ", "[", ""}, {"{{ ", "{a:", "1"}, {"{{ ", "!", "true"}, {"{{ ", "-", "1"}, {"{{ ", "- ", "1"}, {"{{ 1", "+1", ""}, {"{{ 1", "?1:1", ""}, {"{{ 1", "?1:", "1"}, {"{{ 1", "?", "1"}, {"{{ a", ".b", ""}, {"{{ a", "[0]", ""}, {"{{ a", ".f()", ""}, {"{{ a", ".f(", ""}, {"{{ ", "x = ", "1"}, {"{{ 1", "; 1", ""}, {"{{ 1", "++ ", ""}, {"{{ 1", "-- ", ""}, {"{{ 1", "==1", ""}, {"{{ 1", "*2+1", ""},
		{"", "@if(true)", ""}, {"", "@if(true)x@else", ""}, {"@if(1)", "@elseif(1)", "@end"}, {"", "@each(x in [1])", ""}, {"", "@for(i=0;i<1;i++)", ""}, {"", "@component('c')@slot('a')", ""}, {"", "@component('c')@slot", ""}, {"", "@insert('a')", ""}, {"", "@end", ""}, {"", "@else", ""}, {"", "{{", ""}, {"", "{{--", ""}, {"", "{{-- --}}", ""}, {"", "{", ""}, {"", "}}", ""}, {"", "@", ""}, {"", "\\", ""}, {"", "\\{{", ""}, {"", "\\@if", ""}, {"{{ ", "\"", ""}, {"{{ \"", "\\\"", "\""}, {"{{ ", "a ", ""}, {"{{ ", "1", ""}, {"{{ ", "1.", ""}, {"", "\x00", ""}, {"{{ ", "\x00", ""}, {"{{ ", "é", ""}, {"", "é", ""}, {"", "\n", ""}, {"{{ ", "\n", ""}, {"", "@slot", ""}, {"", "@slot('a')", ""}, {"", "@reserve('a')", ""}, {"", "@dump(1)", ""}, {"@dump(1", ",1", ")"}, {"", "@elseif(1)", ""}, {"", "@break", ""}, {"{{ [", "1,", "]"}, {"{{ {", "a:1,", "}"}, {"{{ {", "a,", "}"}, {"", "{{ x }}", ""}, {"", "@use('l')", ""}}
	u := units[w.R.IntN(len(units))]
	closers := map[string]string{"(": ")", "[": "]", "{a:": "}", "@if(true)": "@end", "@each(x in [1])": "@end", "@for(i=0;i<1;i++)": "@end", "@if(true)x@else": "@end", "@insert('a')": "@end", "@component('c')@slot('a')": "@end@end", "@component('c')@slot": "@end@end", ".f(": ")", "?": ":1"}
	c := ""
	if w.R.IntN(3) > 0 {
		c = closers[u[1]]
	}
	tail := ""
	if strings.HasPrefix(u[0], "{{") && w.R.IntN(4) > 0 {
		tail = " }}"
		if c == "}" {
			c = " }"
		}
	}
	src := u[0] + rep(u[1], n) + u[2] + rep(c, n) + tail
	w.Feat(fmt.Sprintf("repeated %d times", n))
	w.Sample(fmt.Sprintf("%q + %d x %q + %q + %d x %q + %q", u[0], n, u[1], u[2], n, c, tail))
	c08Check(w, src, "")
}

func c08Files(w *W, i int) {
	t := &dirTree{Dir: fmt.Sprintf("c08-%d", i), Ext: ".tw", Files: map[string]string{
		"page": "a{{ 1 }}@component('c', {a: 1})@slot('s')x@end@end", "l": "<@reserve('r')>", "c": "{{ a }}@slot('s')", "other": "@use('l')@insert('r', 1)"}}
	n := []string{"page", "l", "c", "other"}[w.R.IntN(4)]
	must := ""
	switch w.R.IntN(5) {
	case 0:
		t.Files[n] = soup(w.R)
	case 1:
		src, p := c08Valid(w)
		if len(p.Iv) > 0 {
			iv := p.Iv[w.R.IntN(len(p.Iv))]
			if iv[1] > iv[0] {
				t.Files[n] = src[:iv[0]+w.R.IntN(iv[1]-iv[0])]
				must = "prefix that ends inside a construct"
			}
		}
	case 2:
		s := t.Files[n]
		t.Files[n] = s[:w.R.IntN(len(s)+1)]
	case 3:
		t.Files[n] = strings.Join(mutateToks(w.R, tokenSpans(t.Files[n])), "")
	default:
		src, p := c08Valid(w)
		if len(p.Tok) > 0 {
			at := p.Tok[w.R.IntN(len(p.Tok))]
			t.Files[n] = src[:at] + illegalChars[w.R.IntN(len(illegalChars))] + src[at:]
			must = "illegal character"
		}
	}
	w.Feat("file " + n)
	w.Key(n + t.Files[n])
	nerr, _, fine := w.parseOnly(t.Files[n])
	if !fine {
		return
	}
	w.writeTree(t)
	defer w.rmTree(t)
	tpl, err, fine := w.load(t)
	if !fine {
		return
	}
	if (tpl == nil) != (err != nil) {
		w.Fail("loading returns neither a template nor an error, or both", "template", t.dump(), "error", errStr(err))
	}
	if err == nil && (must != "" || nerr > 0) {
		w.Fail("a tree with an unparseable file is loaded "+must, "template", t.dump())
	}
}
