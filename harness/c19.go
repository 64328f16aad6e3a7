package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/token"
)

func init() {
	register(&Prop{
		ID: "C19", Quick: c19Enum + 500000, Thorough: c19Enum + 4000000,
		Rule: "enumeration of all sequences of up to 3 (thorough 4) lexemes of an alphabet of 67 in text, in {{ and in a directive, and of up to 5 (thorough 6) of 20 adversarial ones; random text/escape/comment segments, multi-line noise of 36 kinds, generated and untyped programs in several layouts, string literals of hostile pieces, prefixes and mutations of all of these, CRLF and non-ASCII variants, byte soup, long lines and inputs of up to 100 KB; " +
			"monitors: every token's (line, column) range converted to bytes by counting in the source; order, overlap, the token's text against the bytes of the range (with quotes and escapes), what the gaps hold and where whitespace gaps may be, the end token, termination; every cursor position of small inputs (sampled in large ones) against Contains of every token; non-trivial = at least 3 tokens; distinct = sequence of token kinds and shapes of the gaps",
		Assumptions: []string{"where braces stand inside a directive's parentheses or the other way round, any whitespace gap is accepted", "'\\{{{{' and comments that begin with '}}' or '-}}' may be read both ways"},
		Run:         c19,
	})
}

const c19Enum = 67*3 + 20*20

var c19Small = []string{"{{", "}}", "{", "}", "\\", "@if", "@end", "(", ")", "'", "\"", "\n", "\r\n", " ", "{{--", "--}}", "é", "\x00", "a", "1."}

func c19(w *W, i int) {
	switch {
	case i < 67*3:
		ctx := []string{"", "{{ ", "@if("}[i/67]
		depth := 2
		if w.Tier == "thorough" {
			depth = 3
		}
		w.Feat("enumerated, full alphabet")
		c19Rec(w, ctx+lexemes[i%67], lexemes, depth)
	case i < c19Enum:
		k := i - 67*3
		depth := 3
		if w.Tier == "thorough" {
			depth = 4
		}
		w.Feat("enumerated, small alphabet")
		c19Rec(w, c19Small[k/20]+c19Small[k%20], c19Small, depth)
	default:
		src := c19Random(w.R)
		w.Sample(src)
		w.lexCheck(src, i%64 == 0)
	}
}

func c19Rec(w *W, s string, alphabet []string, d int) {
	if !w.lexCheck(s, true) || d == 0 || len(w.viol) > 3 {
		return
	}
	for _, l := range alphabet {
		c19Rec(w, s+l, alphabet, d-1)
	}
}

func c19Base(r *rand.Rand) string {
	switch r.IntN(8) {
	case 0:
		return c05Text(r)
	case 1:
		return c13Noise(r, 1+r.IntN(8), map[string]bool{})
	case 2:
		_, vars := sampleData(r)
		g := newGS(r, vars)
		g.Budget = 20
		src, _ := Source(r, randStyle(r), g.Stmts(3, 1+r.IntN(5)))
		return src
	case 3:
		g := &uGen{r: r, vars: []string{"a", "bc", "x_1"}}
		src, _ := Source(r, randStyle(r), g.stmts(2, 1+r.IntN(3)))
		return src
	case 4:
		var b strings.Builder
		b.WriteString([]string{"{{ ", "@if(", "@component('c', {a: ", "{{ x = ", "@insert('t', "}[r.IntN(5)])
		for n := 1 + r.IntN(4); n > 0; n-- {
			q := byte('\'')
			if r.IntN(2) == 0 {
				q = '"'
			}
			b.WriteString(litSrc(c10Lit(r)+[]string{"", "\n", "\r\n", "\\n", "\"", "'"}[r.IntN(6)], q) + []string{"", " ", "\n", ", ", " + ", "\r\n\t"}[r.IntN(6)])
		}
		b.WriteString([]string{" }}", ")", "}", ""}[r.IntN(4)])
		return b.String()
	case 5:
		var b strings.Builder
		for n := r.IntN(25); n > 0; n-- {
			b.WriteString(lexemes[r.IntN(len(lexemes))])
		}
		return b.String()
	case 6:
		b := make([]byte, r.IntN(60))
		const soup = "{}{}\\@ \n\r\t'\"()-ie1.fnd\x00\xc3\xa9\xff"
		for k := range b {
			b[k] = soup[r.IntN(len(soup))]
		}
		return string(b)
	default:
		f := c13Eval[r.IntN(len(c13Eval))]
		return strings.NewReplacer("§", "", "‹", "").Replace(strings.Replace(c13Places[r.IntN(len(c13Places))], "F", f, 1))
	}
}

func c19Random(r *rand.Rand) string {
	s := c19Base(r)
	for r.IntN(3) == 0 {
		s += c19Base(r)
	}
	switch r.IntN(8) {
	case 0: // prefix
		s = s[:r.IntN(len(s)+1)]
	case 1: // suffix
		s = s[r.IntN(len(s)+1):]
	case 2: // splice of bytes
		for n := 1 + r.IntN(3); n > 0; n-- {
			k := r.IntN(len(s) + 1)
			s = s[:k] + lexemes[r.IntN(len(lexemes))] + s[k:]
		}
	case 3: // removal
		for n := 1 + r.IntN(3); n > 0 && len(s) > 0; n-- {
			k := r.IntN(len(s))
			s = s[:k] + s[min(len(s), k+1+r.IntN(3)):]
		}
	case 4:
		s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
	case 5:
		s = strings.ReplaceAll(s, " ", []string{"\n", "\r\n", "\t", "\n\n", "{{-- c --}}"}[r.IntN(5)])
	}
	if r.IntN(400) == 0 {
		s = strings.Repeat(s+[]string{"", "\n", "x"}[r.IntN(3)], 1+r.IntN(100000/(len(s)+1)+1))
	}
	if r.IntN(3000) == 0 { // a very long line, or very many lines, before and between tokens
		n := 1<<20 + r.IntN(300)
		if r.IntN(3) == 0 {
			n = 1<<16 + r.IntN(300)
		}
		f := strings.Repeat([]string{"x", "\n", "é", "\r\n"}[r.IntN(4)], n)
		s = []string{f, "{{ 1" + strings.Map(func(c rune) rune { // white space in code
			if c == 'x' || c == 'é' {
				return ' '
			}
			return c
		}, f) + "2 }}", "{{--" + f + "--}}", "{{ '" + f + "' }}"}[r.IntN(4)] + s
	}
	return s
}

// wsOrComment tells whether the gap holds only white space and comments.
func wsOrComment(g string, ws *bool) bool {
	for g != "" {
		switch {
		case strings.ContainsRune(" \t\r\n", rune(g[0])):
			*ws = true
			g = g[1:]
		case strings.HasPrefix(g, "{{--"):
			e := strings.Index(g[4:], "--}}")
			e2 := strings.Index(g[2:], "--}}")
			if e2 >= 0 && e2 < 2 { // the ambiguous beginnings
				if wsOrComment(g[2+e2+4:], ws) {
					return true
				}
			}
			if e < 0 {
				return false
			}
			g = g[4+e+4:]
		default:
			return false
		}
	}
	return true
}

// textOf is the text that a run of template text stands for.
func textOf(raw, lit string) bool {
	j := 0
	for i := 0; i < len(raw); i++ {
		if raw[i] == '\\' && (strings.HasPrefix(raw[i+1:], "{{") || atDirective(raw[i+1:])) {
			if strings.HasPrefix(raw[i+1:], "{{{{") && j < len(lit) && lit[j] == '\\' {
				return true // ambiguous
			}
			continue
		}
		if j >= len(lit) || lit[j] != raw[i] {
			return false
		}
		j++
	}
	return j == len(lit)
}

func (w *W) lexCheck(src string, cursors bool) bool {
	lineStart := []int{0}
	for k := 0; k < len(src); k++ {
		if src[k] == '\n' {
			lineStart = append(lineStart, k+1)
		}
	}
	// offset of a position; the column may be that of any byte of the line incl. its newline
	off := func(line, col uint) int {
		if int(line) >= len(lineStart) {
			return -1
		}
		end := len(src)
		if int(line)+1 < len(lineStart) {
			end = lineStart[line+1] - 1
		}
		o := lineStart[line] + int(col)
		if o > end || col > uint(len(src)) {
			return -1
		}
		return o
	}
	var toks []token.Token
	ok := w.Guard(src, func() {
		w.Evals++
		l := lexer.New(src)
		for {
			t := l.NextToken()
			toks = append(toks, t)
			if t.Type == token.EOF || len(toks) > len(src)+8 {
				break
			}
		}
		for k := 0; k < 2; k++ {
			t := l.NextToken()
			if toks[len(toks)-1].Type == token.EOF && t != toks[len(toks)-1] {
				w.Fail("the end of the input moves", "template", src, "first", fmt.Sprintf("%+v", toks[len(toks)-1]), "then", fmt.Sprintf("%+v", t))
			}
		}
	})
	if !ok {
		return false
	}
	fail := func(kind string, t token.Token, kv ...string) bool {
		w.Fail(kind, append([]string{"template", src, "quoted", fmt.Sprintf("%q", src), "token", fmt.Sprintf("%s %q %+v", token.String(t.Type), t.Literal, t.Pos)}, kv...)...)
		return false
	}
	last := toks[len(toks)-1]
	if last.Type != token.EOF {
		return fail("no end of input", last)
	}
	at := 0 // first byte that is not covered yet
	const (
		text = iota
		code
		unknown
	)
	mode := text
	dir, depth, braces := false, 0, false
	var shape strings.Builder
	type span struct{ a, b int }
	spans := make([]span, len(toks))
	unclosed := false
	for n, t := range toks {
		a := off(t.Pos.StartLine, t.Pos.StartCol)
		if t.Type == token.EOF {
			if a != len(src) || t.Pos.EndLine != t.Pos.StartLine || t.Pos.EndCol != t.Pos.StartCol || t.Literal != "" {
				return fail("the end token is not just past the last byte", t)
			}
		} else if a < 0 || a >= len(src) {
			return fail("the start is not the position of a byte", t)
		}
		if a < at {
			return fail("tokens overlap or are out of order", t)
		}
		gap := src[at:a]
		if gap != "" {
			ws := false
			if !wsOrComment(gap, &ws) && !(unclosed && t.Type == token.EOF && !strings.Contains(gap, "--}}")) {
				return fail("a gap holds more than white space and comments", t, "gap", fmt.Sprintf("%q", gap))
			}
			if ws && mode == text && !unclosed {
				return fail("white space of text is in no token", t, "gap", fmt.Sprintf("%q", gap))
			}
			shape.WriteByte(map[bool]byte{true: 'w', false: 'c'}[ws])
		}
		if t.Type == token.EOF {
			spans[n] = span{len(src), len(src)}
			break
		}
		b := off(t.Pos.EndLine, t.Pos.EndCol)
		if b < a || b >= len(src) {
			return fail("the end is not the position of a byte behind the start", t)
		}
		raw := src[a : b+1]
		spans[n] = span{a, b}
		switch t.Type {
		case token.HTML:
			if !textOf(raw, t.Literal) {
				return fail("the bytes of the range are not the text of the token", t, "bytes", fmt.Sprintf("%q", raw))
			}
			if mode == code {
				return fail("text inside code", t)
			}
		case token.STR:
			q := raw[0]
			if len(raw) < 2 || q != '\'' && q != '"' || raw[len(raw)-1] != q || strings.ReplaceAll(raw[1:len(raw)-1], "\\"+string(q), string(q)) != t.Literal {
				return fail("the bytes of the range are not the text of the token", t, "bytes", fmt.Sprintf("%q", raw))
			}
			for k := 1; k < len(raw)-1; k++ {
				if raw[k] == q && raw[k-1] != '\\' {
					return fail("a string contains its own quote", t, "bytes", fmt.Sprintf("%q", raw))
				}
			}
		default:
			if raw != t.Literal {
				return fail("the bytes of the range are not the text of the token", t, "bytes", fmt.Sprintf("%q", raw))
			}
		}
		if unclosed {
			return fail("a token inside an unclosed comment", t)
		}
		switch t.Type {
		case token.LBRACES:
			if mode == code {
				mode = unknown
			} else if mode == text {
				mode, braces = code, true
			}
		case token.RBRACES:
			if mode == code && braces {
				mode, braces = text, false
			} else {
				mode = unknown
			}
		case token.IF, token.ELSE_IF, token.FOR, token.EACH, token.USE, token.INSERT, token.RESERVE, token.COMPONENT, token.BREAK_IF, token.CONTINUE_IF, token.DUMP, token.SLOT:
			if t.Type == token.SLOT && (b+1 >= len(src) || src[b+1] != '(') {
				break
			}
			if mode == text {
				mode, dir, depth = code, true, 0
			}
		case token.LPAREN:
			if dir {
				depth++
			}
		case token.RPAREN:
			if dir {
				depth--
				if depth == 0 {
					dir = false
					if mode == code {
						mode = text
					}
				}
			}
		case token.ILLEGAL:
			if strings.HasPrefix(t.Literal, "{{--") {
				unclosed = true
			}
		}
		fmt.Fprintf(&shape, "%d.", t.Type)
		if strings.Contains(raw, "\n") {
			shape.WriteByte('n')
		}
		at = b + 1
	}
	if at > len(src) {
		return fail("tokens run past the end", last)
	}
	if len(toks) > 3 {
		w.Key(shape.String())
	}
	if !cursors && len(src) > 200 {
		// sampled cursors
		for n := 0; n < 40 && len(src) > 0; n++ {
			if !w.cursor(src, lineStart, toks, func(k int) (int, int) { return spans[k].a, spans[k].b }, w.R.IntN(len(src))) {
				return false
			}
		}
		return true
	}
	if len(src) > 4000 {
		return true
	}
	for k := 0; k < len(src); k++ {
		if !w.cursor(src, lineStart, toks, func(k int) (int, int) { return spans[k].a, spans[k].b }, k) {
			return false
		}
	}
	// cursors that are on no byte: past the end of a line, past the last line
	for l := 0; l <= len(lineStart); l++ {
		for _, c := range []uint{uint(len(src)) + 1, 1 << 40} {
			in := 0
			for _, t := range toks {
				if t.Pos.Contains(uint(l), c) {
					in++
					if t.Pos.EndLine == uint(l) || l == len(lineStart) {
						return fail("a cursor past the end of the line is inside a token that ends on it", t, "cursor", fmt.Sprint(l, " ", c))
					}
				}
			}
			if in > 1 {
				return fail("a cursor is inside two tokens", last, "cursor", fmt.Sprint(l, " ", c))
			}
		}
	}
	w.Feats["cursor positions"] += int64(len(src))
	return true
}

// cursor checks which tokens contain byte k.
func (w *W) cursor(src string, lineStart []int, toks []token.Token, span func(int) (int, int), k int) bool {
	lo, hi := 0, len(lineStart)-1
	for lo < hi {
		m := (lo + hi + 1) / 2
		if lineStart[m] <= k {
			lo = m
		} else {
			hi = m - 1
		}
	}
	line, col := uint(lo), uint(k-lineStart[lo])
	for n, t := range toks {
		a, b := span(n)
		want := k >= a && k <= b && t.Type != token.EOF
		if got := t.Pos.Contains(line, col); got != want {
			w.Fail("a cursor is attributed to the wrong token", "template", src, "quoted", fmt.Sprintf("%q", src), "cursor", fmt.Sprintf("line %d col %d byte %d", line, col, k), "token", fmt.Sprintf("%s %q %+v", token.String(t.Type), t.Literal, t.Pos), "contains", fmt.Sprint(got))
			return false
		}
	}
	return true
}
