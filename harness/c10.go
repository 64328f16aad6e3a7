package main

import (
	"fmt"
	"html"
	"math/rand/v2"
	"regexp"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C10", Quick: c10Enum + 150000, Thorough: c10Enum + 1500000,
		Rule: "all literals of up to 3 pieces of a hostile alphabet (angle brackets, ampersands, entity look-alikes, both quotes, braces, directives), in both quotes, then random longer ones (multi-line, non-ASCII, invalid UTF-8, NUL); each is used in 30 positions (printed, concatenated, stored, re-stored, ternary, array, object, @each, @for, function argument, insert in both forms, component argument, slot body, layout) and through raw(); whole objects and arrays are printed and dumped; " +
			"monitor on the output between two markers: no '<' or '>', every '&' starts an entity, the quotes are those of the literal, unescaping gives the literal; raw() gives the literal; non-trivial = the literal has a character to be escaped or a quote; distinct = literal",
		Assumptions: []string{"literals with a backslash before a quote or at their end have no fixed reading and are not generated"},
		Run:         c10,
	})
}

var c10Alpha = []string{"<", ">", "&", "'", "\"", "a", ";", "#", "lt;", "amp;", "34;", "&#39;", "{{", "}}", "\\n"}

const c10Enum = 1 + 15 + 15*15 + 15*15*15

var c10Pieces = []string{"<", ">", "&", "'", "\"", "<script>alert('x')</script>", "&amp;", "&lt;", "&gt;", "&#34;", "&#39;", "&quot;", "&apos;", "&#60", "&#x3C;", "&amp", "&copy", "&notit;", "&&", "&;", "&#;", ";", "#", "lt;", "amp;", "gt",
	"\n", "\r\n", "\t", " ", "{{", "}}", "{{ x }}", "{{--", "--}}", "@if(", "@end", "@component('a')", "a", "Z", "0", "é", "日本", "😀", "\xff", "\xc3", "\x00", "\u2028", "\\n", "\\x", "%s", "%d", "</p>", "<!--", "<a href=\"x\">", "<br>", "<br/>", "<b>", "</b>", "<p>", "<i>", "<hr />", "<a>", "http://x.y/?a=1&b=2", "https://", "mailto:", "javascript:", "data:text/html,<x>", "<svg/onload=a>", "=", "1 < 2 && 3 > 2"}

// c10Entity is text that reads like an entity.
func c10Entity(r *rand.Rand) string {
	end := []string{";", ";", ";", "", "; ", "x"}[r.IntN(6)]
	switch r.IntN(4) {
	case 0:
		return fmt.Sprintf("&#%d%s", []int{38, 60, 62, 34, 39, 160, 0, 9, 128, 150, 65, 8364, 55296, 1114112, 12345678}[r.IntN(15)], end)
	case 1:
		return fmt.Sprintf([]string{"&#x%x%s", "&#X%X%s"}[r.IntN(2)], []int{38, 60, 62, 34, 39, 160, 0, 128, 0x2028, 0xd800, 0x1f600}[r.IntN(11)], end)
	}
	return "&" + strings.Fields("amp lt gt quot apos nbsp copy reg trade hellip mdash ndash euro pound yen cent sect deg plusmn times divide laquo raquo ldquo rdquo lsquo rsquo bull middot para eacute agrave ouml szlig Eacute AMP LT GT QUOT COPY larr rarr uarr darr harr infin ne le ge alpha beta Omega zwj zwnj shy tab Tab NewLine colon semi comma period excl num dollar percnt lpar rpar ast plus sol equals quest commat lsqb bsol rsqb Hat lowbar grave lcub verbar rcub nosuchentity")[r.IntN(84)] + end
}

var entity = regexp.MustCompile(`^&(#[0-9]+|#[xX][0-9a-fA-F]+|[a-zA-Z][a-zA-Z0-9]*);`)

// litOK: the text has a fixed spelling as a literal.
func litOK(s string) bool {
	return !strings.HasSuffix(s, "\\") && !strings.Contains(s, "\\\"") && !strings.Contains(s, "\\'") && !strings.Contains(s, "[[") && !strings.Contains(s, "]]")
}

func litSrc(s string, q byte) string {
	return string(q) + strings.ReplaceAll(s, string(q), "\\"+string(q)) + string(q)
}

func c10Lit(r *rand.Rand) string {
	for {
		s := ""
		n := r.IntN(7)
		if r.IntN(200) == 0 {
			n = 50 + r.IntN(600)
		}
		for ; n >= 0; n-- {
			if r.IntN(8) == 0 {
				s += c10Entity(r)
				continue
			}
			s += c10Pieces[r.IntN(len(c10Pieces))]
		}
		if litOK(s) {
			return s
		}
	}
}

func quotesOf(s string) string {
	return strings.Map(func(c rune) rune {
		if c == '\'' || c == '"' {
			return c
		}
		return -1
	}, s)
}

// escWhy checks an escaped rendering of lit.
func escWhy(out, lit string) string {
	if strings.ContainsAny(out, "<>") {
		return "a raw angle bracket reaches the output"
	}
	for i := 0; i < len(out); i++ {
		if out[i] == '&' && !entity.MatchString(out[i:]) {
			return "an ampersand is not escaped"
		}
	}
	if quotesOf(out) != quotesOf(lit) {
		return "the quotes are not as written"
	}
	if html.UnescapeString(out) != lit {
		return "unescaping does not give the literal back"
	}
	return ""
}

// a use of the literals a and b: the source and the text that it stands for
type c10Use struct {
	src string
	lit string
	raw bool
}

func c10Uses(a, b, la, lb string) []c10Use {
	return []c10Use{
		{"{{ " + a + " }}", la, false},
		{"{{" + a + "}}", la, false},
		{"{{ " + a + ".raw() }}", la, true},
		{"{{ (" + a + ") }}", la, false},
		{"{{ " + a + " + " + b + " }}", la + lb, false},
		{"{{ (" + a + " + " + b + ").raw() }}", la + lb, true},
		{"{{ " + a + " + (" + b + " + " + a + ") }}", la + lb + la, false},
		{"{{ va = " + a + " }}{{ va }}", la, false},
		{"{{ vb = " + a + "; vc = vb; vc }}", la, false},
		{"{{ vd = " + a + "; vd.raw() }}", la, true},
		{"{{ ve = " + a + " + d; ve }}", la + "data", false},
		{"{{ d + " + a + " }}", "data" + la, false},
		{"{{ true ? " + a + " : " + b + " }}", la, false},
		{"{{ false ? " + a + " : " + b + " }}", lb, false},
		{"{{ [" + a + "] }}", la, false},
		{"{{ [" + a + ", " + b + "][1] }}", lb, false},
		{"{{ [" + a + ", " + b + "][0].raw() }}", la, true},
		{"{{ [" + a + ", " + b + "] }}", la + ", " + lb, false},
		{"{{ [[" + a + "], [" + b + "]] }}", la + ", " + lb, false},
		{"{{ {k: " + a + "}.k }}", la, false},
		{"{{ {k: " + a + "} }}", "{k: " + la + "}", false},
		{"{{ {b: [" + b + "], a: {k: " + a + "}} }}", "{a: {k: " + la + "}, b: " + lb + "}", false},
		{"{{ [{k: " + a + "}, " + b + "] }}", "{k: " + la + "}, " + lb, false},
		{"{{ {k: [" + a + "]}['k'][0].raw() }}", la, true},
		{"{{ vo = {k: " + a + "}; vo.k + " + b + " }}", la + lb, false},
		{"@each(e in [" + a + ", " + b + "]){{ e }}@end", la + lb, false},
		{"@each(e in [" + a + "])@if(true){{ e.raw() }}@end@end", la, true},
		{"@for(i = 0; i < 2; i++){{ " + a + " }}@end", la + la, false},
		{"@if(" + a + " == " + a + "){{ " + a + " }}@else no @end", la, false},
		{"@if(false)x@elseif(true){{ " + a + " }}@end", la, false},
		{"{{ true.then(" + a + ") }}", la, false},
		{"{{ false.then(" + b + ", " + a + ").raw() }}", la, true},
		{"{{ [" + a + "].append(" + b + ").join('') }}", la + lb, false},
		{"{{ [" + a + "].prepend(" + b + ")[0] }}", lb, false},
		{"{{ [" + a + ", " + b + "].reverse()[0].raw() }}", lb, true},
		{"{{ va2 = " + a + ".raw(); va2 }}", la, true},
	}
}

func (w *W) c10Check(out, src string, uses []c10Use, what string) bool {
	for k, u := range uses {
		open, close := fmt.Sprintf("[[%s%d:", what, k), fmt.Sprintf(":%s%d]]", what, k)
		i := strings.Index(out, open)
		j := strings.Index(out, close)
		if i < 0 || j < i {
			w.Fail("a marker is missing in the output", "template", src, "use", u.src, "got", out)
			return false
		}
		got := out[i+len(open) : j]
		why := ""
		if u.raw {
			if got != u.lit {
				why = "raw() does not give the literal"
			}
		} else {
			why = escWhy(got, u.lit)
		}
		if why != "" {
			w.Fail(why, "use", u.src, "literal", fmt.Sprintf("%q", u.lit), "got", fmt.Sprintf("%q", got), "template", src)
			return false
		}
	}
	return true
}

func markUses(uses []c10Use, what string) string {
	var b strings.Builder
	for k, u := range uses {
		fmt.Fprintf(&b, "[[%s%d:%s:%s%d]]\n", what, k, u.src, what, k)
	}
	return b.String()
}

func c10(w *W, i int) {
	var la, lb string
	qa, qb := quote(w.R), quote(w.R)
	if i < c10Enum {
		n, x := 0, i
		for sz := 1; x >= sz; sz *= 15 {
			x -= sz
			n++
		}
		for ; n > 0; n-- {
			la += c10Alpha[x%15]
			x /= 15
		}
		lb = c10Lit(w.R)
		if !litOK(la) {
			w.Skip("a literal without a fixed reading")
			return
		}
		w.Feat("enumerated literal")
	} else {
		la, lb = c10Lit(w.R), c10Lit(w.R)
	}
	if escLit(la) != la || quotesOf(la) != "" {
		w.Key(la)
	}
	data := map[string]any{"d": "data"}
	if i >= c10Enum && i%12 == 0 {
		c10Page(w, i, la, lb, qa, qb)
		return
	}
	for _, q := range []byte{qa, '\'' + '"' - qa} {
		uses := c10Uses(litSrc(la, q), litSrc(lb, qb), la, lb)
		src := markUses(uses, "u")
		out, err, fine := w.Eval(src, data)
		if !fine {
			return
		}
		if err != nil {
			w.Fail("a template with literals does not render", "template", src, "error", err.Error())
			return
		}
		if !w.c10Check(out, src, uses, "u") {
			return
		}
		// a dump adds its own markup, and no more of it for any literal
		dump := func(a, b string) string {
			return fmt.Sprintf("@dump(%s, [%s, %s], {k: %s, m: [{n: %s}]}, %s + %s)", a, a, b, a, b, a, b)
		}
		src = dump(litSrc(la, q), litSrc(lb, qb))
		out, err, fine = w.Eval(src, nil)
		if !fine {
			return
		}
		ref, err2, fine := w.Eval(dump("'x'", "'y'"), nil)
		if !fine {
			return
		}
		for _, c := range []string{"<", ">"} {
			if err != nil || err2 != nil || strings.Count(out, c) != strings.Count(ref, c) {
				w.Fail("a dump has an angle bracket of a literal", "template", src, "got", out, "with plain literals", ref, "error", errStr(err))
				return
			}
		}
	}
	w.Sample(litSrc(la, qa))
}

// c10Page uses the literals in inserts, component arguments, slots and layouts.
func c10Page(w *W, i int, la, lb string, qa, qb byte) {
	a, b := litSrc(la, qa), litSrc(lb, qb)
	t := &dirTree{Dir: fmt.Sprintf("c10-%d", i), Ext: ".tw", Files: map[string]string{}}
	uses := c10Uses(a, b, la, lb)
	t.Files["l"] = "<html>[[l0:@reserve('expr'):l0]][[l1:@reserve('block'):l1]][[l2:@reserve('cat'):l2]][[l3:@reserve('raw'):l3]]@reserve('body')[[l4:{{ " + b + " }}:l4]]"
	comp := func(id string) string {
		return "@component('c', {ca: " + a + ", cb: [" + a + ", " + b + "], id: '" + id + "'})@slot[[c" + id + "s0:{{ " + b + " }}:c" + id + "s0]]@end@slot('s'){{ " + a + ".raw() }}@end@end"
	}
	t.Files["c"] = "[[c{{ id }}0:{{ ca }}:c{{ id }}0]][[c{{ id }}1:{{ ca.raw() }}:c{{ id }}1]][[c{{ id }}2:{{ cb }}:c{{ id }}2]][[c{{ id }}3:{{ cb[1].raw() }}:c{{ id }}3]][[c{{ id }}4:@slot('s'):c{{ id }}4]]@slot[[c{{ id }}5:{{ x = ca + " + b + "; x }}:c{{ id }}5]]"
	t.Files["page"] = "@use('l')@insert('expr', " + a + ")@insert('block'){{ " + a + " }}@end@insert('cat', " + a + " + " + b + ")@insert('raw', " + a + ".raw())@insert('body')" + markUses(uses, "u") + comp("p") + "@each(k in [1, 2])" + comp("q") + "@end@end"
	t.Files["plain"] = markUses(uses, "u") + comp("p")
	w.writeTree(t)
	defer w.rmTree(t)
	tpl, err, fine := w.load(t)
	if !fine {
		return
	}
	if err != nil {
		w.Fail("a template with literals does not load", "template", t.dump(), "error", err.Error())
		return
	}
	cu := []c10Use{{"component argument", la, false}, {"component argument, raw", la, true}, {"array as component argument", la + ", " + lb, false}, {"array element as component argument, raw", lb, true}, {"slot, raw", la, true}, {"variable in a component", la + lb, false}}
	su := []c10Use{{"slot", lb, false}}
	lu := []c10Use{{"insert expression", la, false}, {"insert block", la, false}, {"insert concatenation", la + lb, false}, {"insert raw", la, true}, {"layout", lb, false}}
	for _, n := range []string{"page", "plain"} {
		out, ferr, fine := w.render(tpl, t, n, map[string]any{"d": "data"})
		if !fine {
			return
		}
		if ferr != nil {
			w.Fail("a template with literals does not render", "template", t.dump(), "error", ferrStr(ferr))
			return
		}
		w.Feat("page")
		if !w.c10Check(out, t.dump(), uses, "u") || !w.c10Check(out, t.dump(), cu, "cp") || !w.c10Check(out, t.dump(), su, "cps") {
			return
		}
		if n == "page" {
			if !w.c10Check(out, t.dump(), lu, "l") || !w.c10Check(out, t.dump(), cu, "cq") || !w.c10Check(out, t.dump(), su, "cqs") {
				return
			}
			// the second pass of the loop
			if k := strings.Index(out, ":cq5]]"); k > 0 && !w.c10Check(out[k+6:], t.dump(), cu, "cq") {
				return
			}
		}
	}
}
