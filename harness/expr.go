package main

import (
	"fmt"
	"html"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
)

// X is an expression of the reference language.
type X struct {
	Op   string // lit var un post bin tern idx dot call arr obj
	Name string // variable, operator, property or function
	V    Val    // literal
	Src  string // source of a literal
	A    []*X
	Keys []string // obj
	T    VK       // static type as generated (best effort)
	Bad  string   // kind of a planted fault
}

func xLit(v Val, src string) *X { return &X{Op: "lit", V: v, Src: src, T: v.K} }
func xInt(i int64) *X {
	if i < 0 {
		if i == math.MinInt64 {
			return &X{Op: "bin", Name: "-", A: []*X{xInt(-math.MaxInt64), xInt(1)}, T: KInt}
		}
		return &X{Op: "un", Name: "-", A: []*X{xInt(-i)}, T: KInt}
	}
	return xLit(vInt(i), strconv.FormatInt(i, 10))
}
func xFloat(f float64) *X {
	if f < 0 {
		return &X{Op: "un", Name: "-", A: []*X{xFloat(-f)}, T: KFloat}
	}
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return xLit(vFloat(f), s)
}
func xBool(b bool) *X { return xLit(vBool(b), strconv.FormatBool(b)) }
func xNil() *X        { return xLit(vNil(), "nil") }
func xVar(n string, t VK) *X {
	return &X{Op: "var", Name: n, T: t}
}
func xBin(op string, a, b *X) *X {
	t := a.T
	if precOf(op) < 4 {
		t = KBool
	}
	return &X{Op: "bin", Name: op, A: []*X{a, b}, T: t}
}
func xUn(op string, a *X) *X       { return &X{Op: "un", Name: op, A: []*X{a}, T: a.T} }
func xTern(c, a, b *X) *X          { return &X{Op: "tern", A: []*X{c, a, b}, T: a.T} }
func xIdx(a, i *X, t VK) *X        { return &X{Op: "idx", A: []*X{a, i}, T: t} }
func xDot(a *X, n string, t VK) *X { return &X{Op: "dot", Name: n, A: []*X{a}, T: t} }
func xCall(r *X, n string, t VK, args ...*X) *X {
	return &X{Op: "call", Name: n, A: append([]*X{r}, args...), T: t}
}
func xArr(e ...*X) *X { return &X{Op: "arr", A: e, T: KArr} }

// xStr makes a string literal in the quotes q. The content must not have a
// backslash before a quote or at its end.
func xStrQ(s string, q byte) *X {
	return &X{Op: "lit", V: vStr(escLit(s)), Src: string(q) + strings.ReplaceAll(s, string(q), "\\"+string(q)) + string(q), T: KStr}
}
func xStr(s string) *X { return xStrQ(s, '"') }

// xOf is a literal expression for v (v's strings are taken as raw text).
func xOf(v Val) *X {
	switch v.K {
	case KBool:
		return xBool(v.B)
	case KInt:
		return xInt(v.I)
	case KFloat:
		return xFloat(v.F)
	case KStr:
		return xStr(v.S)
	case KArr:
		x := xArr()
		for _, e := range v.A {
			x.A = append(x.A, xOf(e))
		}
		return x
	case KObj:
		x := &X{Op: "obj", T: KObj}
		for _, k := range sortedKeys(v.O) {
			x.Keys = append(x.Keys, k)
			x.A = append(x.A, xOf(v.O[k]))
		}
		return x
	}
	return xNil()
}

const (
	pTern = 1 + iota
	pEq
	pCmp
	pAdd
	pMul
	pDot
	pPre
	pIdx
	pPost
	pAtom
)

func precOf(op string) int {
	switch op {
	case "==", "!=":
		return pEq
	case "<", ">", "<=", ">=":
		return pCmp
	case "+", "-":
		return pAdd
	case "*", "/", "%":
		return pMul
	}
	panic("prec " + op)
}

func (x *X) prec() int {
	switch x.Op {
	case "tern":
		return pTern
	case "bin":
		return precOf(x.Name)
	case "dot", "call":
		return pDot
	case "un":
		return pPre
	case "idx":
		return pIdx
	case "post":
		return pPost
	}
	return pAtom
}

// spineMin is the lowest precedence along the left spine of the printed form.
func (x *X) spineMin() int {
	p := x.prec()
	switch x.Op {
	case "tern", "bin", "dot", "call", "idx", "post":
		if q := x.A[0].spineMin(); q < p && !needLeftParen(x.A[0], p) {
			return q
		}
	}
	return p
}

func needLeftParen(l *X, p int) bool {
	switch l.Op {
	case "bin", "tern":
		return l.prec() < p
	case "un":
		return pPre < p
	}
	return false
}

// ---- printing ----

// Style are the layout choices of a printer.
type Style struct {
	Spaces  int     // 0 minimal, 1 single, 2 random, 3 wild (newlines)
	Parens  float64 // probability of redundant parentheses
	NL      string
	OneLine bool
}

// Pr prints expressions and statements as template source.
type Pr struct {
	R    *rand.Rand
	S    Style
	B    strings.Builder
	last byte
	// End is the offset just past the token of a node.
	End map[any]int
	// Iv are the spans of constructs: a source that ends inside one is
	// unterminated.
	Iv [][2]int
	// Tok are the offsets of the code tokens.
	Tok []int
}

func newPr(r *rand.Rand, s Style) *Pr {
	if s.NL == "" {
		s.NL = "\n"
	}
	return &Pr{R: r, S: s, End: map[any]int{}}
}

func (p *Pr) raw(s string) {
	p.B.WriteString(s)
	if s != "" {
		p.last = s[len(s)-1]
	}
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (p *Pr) space() string {
	switch p.S.Spaces {
	case 0:
		return ""
	case 1:
		return " "
	case 2:
		return []string{"", " ", " ", "  ", "\t"}[p.R.IntN(5)]
	}
	if p.S.OneLine {
		return []string{"", " ", "  ", "\t", " \t "}[p.R.IntN(5)]
	}
	return []string{"", " ", "  ", "\t", p.S.NL, p.S.NL + "  ", " " + p.S.NL}[p.R.IntN(7)]
}

func inSet(c byte) bool { return strings.IndexByte("+-<>=!{}", c) >= 0 }

// tok writes one code token with the spacing of the style before it.
func (p *Pr) tok(s string) {
	sp := p.space()
	if sp == "" && s != "" {
		c := s[0]
		if isWord(p.last) && isWord(c) || inSet(p.last) && inSet(c) && !(p.last == '}' && c == '}') ||
			(p.last == '.' && c >= '0' && c <= '9') {
			sp = " "
		}
	}
	p.B.WriteString(sp)
	p.Tok = append(p.Tok, p.B.Len())
	p.raw(s)
}

// span records fn's output from here on as one construct.
func (p *Pr) span(fn func()) {
	i := len(p.Iv)
	p.Iv = append(p.Iv, [2]int{p.B.Len(), 0})
	fn()
	p.Iv[i][1] = p.B.Len()
}

func (p *Pr) mark(x any) { p.End[x] = p.B.Len() }

func (p *Pr) paren(x *X, need bool) {
	if need || p.S.Parens > 0 && p.R.Float64() < p.S.Parens {
		p.tok("(")
		n := 0
		if p.S.Parens > 0 && p.R.IntN(6) == 0 {
			n = 1
			p.tok("(")
		}
		p.expr(x)
		if n > 0 {
			p.tok(")")
		}
		p.tok(")")
		return
	}
	p.expr(x)
}

func (p *Pr) list(xs []*X) {
	for i, e := range xs {
		if i > 0 {
			p.tok(",")
		}
		p.paren(e, false)
	}
}

func (p *Pr) expr(x *X) {
	switch x.Op {
	case "lit":
		p.tok(x.Src)
		p.mark(x)
	case "var":
		p.tok(x.Name)
		p.mark(x)
	case "un":
		p.tok(x.Name)
		p.mark(x)
		p.paren(x.A[0], x.A[0].spineMin() < pPre)
	case "post":
		p.paren(x.A[0], needLeftParen(x.A[0], pPost))
		p.tok(x.Name)
		p.mark(x)
	case "bin":
		pr := x.prec()
		p.paren(x.A[0], needLeftParen(x.A[0], pr))
		p.tok(x.Name)
		p.mark(x)
		p.paren(x.A[1], x.A[1].prec() <= pr)
	case "tern":
		p.paren(x.A[0], needLeftParen(x.A[0], pTern+1))
		p.tok("?")
		p.mark(x)
		p.paren(x.A[1], x.A[1].Op == "tern")
		p.tok(":")
		p.paren(x.A[2], false)
	case "idx":
		p.paren(x.A[0], needLeftParen(x.A[0], pIdx))
		p.tok("[")
		p.mark(x)
		p.paren(x.A[1], false)
		p.tok("]")
	case "dot", "call":
		p.paren(x.A[0], needLeftParen(x.A[0], pDot))
		p.tok(".")
		dotEnd := p.B.Len()
		p.tok(x.Name)
		if x.Op == "call" {
			p.mark(x)
			p.tok("(")
			p.list(x.A[1:])
			p.tok(")")
		} else {
			p.End[x] = dotEnd
		}
	case "arr":
		p.tok("[")
		p.mark(x)
		p.list(x.A)
		if len(x.A) > 0 && p.S.Spaces >= 2 && p.R.IntN(8) == 0 {
			p.tok(",")
		}
		p.tok("]")
	case "obj":
		p.tok("{")
		p.mark(x)
		for i, k := range x.Keys {
			if i > 0 {
				p.tok(",")
			}
			if x.A[i].Op == "var" && x.A[i].Name == k && p.R.IntN(2) == 0 {
				p.tok(k)
				p.mark(x.A[i])
				continue
			}
			if !isIdent(k) || p.R.IntN(4) == 0 {
				p.tok([]string{`"` + k + `"`, "'" + k + "'"}[p.R.IntN(2)])
			} else {
				p.tok(k)
			}
			p.tok(":")
			p.paren(x.A[i], false)
		}
		if len(x.Keys) > 0 && p.S.Spaces >= 2 && p.R.IntN(8) == 0 {
			p.tok(",")
		}
		p.tok("}")
	default:
		panic("print " + x.Op)
	}
}

// braces prints {{ x }}.
func (p *Pr) braces(body func()) {
	p.raw("{{")
	p.span(func() {
		body()
		sp := p.space()
		if sp == "" && p.last == '}' {
			sp = " "
		}
		p.B.WriteString(sp)
		p.Tok = append(p.Tok, p.B.Len())
		p.raw("}}")
	})
}

func exprSrc(x *X) string {
	p := newPr(rand.New(rand.NewPCG(1, 1)), Style{Spaces: 1})
	p.expr(x)
	return strings.TrimSpace(p.B.String())
}

// ---- reference evaluation ----

type evalFail struct {
	X    any
	Kind string
}
type ambiguous struct{ Why string }

type bind struct {
	v    Val
	pass int // pass of the loop in which it was bound, -1: not by the body
}

type Env struct {
	m     map[string]*bind
	outer *Env
	pass  int
	kind  string
}

func newEnv(outer *Env, kind string) *Env {
	return &Env{m: map[string]*bind{}, outer: outer, kind: kind}
}

func (e *Env) visible(n string) *bind {
	for c := e; c != nil; c = c.outer {
		if b, ok := c.m[n]; ok {
			return b
		}
	}
	return nil
}

func (e *Env) find(n string) (*bind, *Env) {
	inside := 0 // scopes of components around a slot body are walked through
	for c := e; c != nil; c = c.outer {
		if c.kind == "slot" {
			inside++
		}
		if b, ok := c.m[n]; ok {
			if inside > 0 {
				panic(ambiguous{"a slot body reads a name that the component binds"})
			}
			return b, c
		}
		if c.kind == "comp" && inside > 0 {
			inside--
		}
	}
	return nil, nil
}

func (e *Env) get(n string) (Val, bool) {
	b, c := e.find(n)
	if b == nil {
		return Val{}, false
	}
	if b.pass >= 0 && b.pass != c.pass {
		panic(ambiguous{"a name bound in an earlier pass of the loop is read"})
	}
	return b.v, true
}

// set binds n in the scope e. It returns the kind of the failure or "".
func (e *Env) set(n string, v Val, body bool) string {
	if n == "loop" {
		return "loop is reserved"
	}
	if b, c := e.find(n); b != nil {
		if b.pass >= 0 && b.pass != c.pass {
			if b.v.K != v.K {
				panic(ambiguous{"a name bound in an earlier pass is bound with another type"})
			}
		} else if b.v.K != v.K {
			return "type mismatch in assignment"
		}
		if body && c == e && b.pass == -1 && e.kind == "for" {
			panic(ambiguous{"the body assigns the loop variable"})
		}
	}
	pass := -1
	if body && (e.kind == "for" || e.kind == "each") {
		pass = e.pass
		if b := e.m[n]; b != nil && b.pass == -1 {
			pass = -1
		}
	}
	e.m[n] = &bind{v, pass}
	return ""
}

// Interp is the reference interpreter.
type Interp struct {
	Env   *Env
	Feats map[string]int
	Steps int
	Fuzzy bool
	Files map[string]*File
	// slots of the component being rendered
	slots   *slotCtx
	inserts map[string]*St
	Funcs   func(r Val, name string, args []Val) (callResult, bool)
}

func (in *Interp) feat(s string) {
	if in.Feats != nil {
		in.Feats[s]++
	}
}

func (in *Interp) tick() {
	in.Steps++
	if in.Steps > 200000 {
		panic(ambiguous{"too long"})
	}
}

func failAt(x any, kind string) { panic(evalFail{x, kind}) }

func (in *Interp) ex(x *X) Val {
	in.tick()
	switch x.Op {
	case "lit":
		if x.Bad == "intrange" {
			failAt(x, "integer literal out of range")
		}
		return x.V
	case "var":
		v, found := in.Env.get(x.Name)
		if !found {
			failAt(x, "undefined identifier")
		}
		return v
	case "un":
		v := in.ex(x.A[0])
		switch {
		case x.Name == "-" && v.K == KInt:
			return vInt(-v.I)
		case x.Name == "-" && v.K == KFloat:
			return vFloat(-v.F)
		case x.Name == "!" && v.K == KBool:
			return vBool(!v.B)
		case x.Name == "!":
			panic(ambiguous{"! on " + v.K.String()})
		}
		failAt(x, "prefix operator on "+v.K.String())
	case "post":
		v := in.ex(x.A[0])
		d := int64(1)
		if x.Name == "--" {
			d = -1
		}
		switch v.K {
		case KInt:
			return vInt(v.I + d)
		case KFloat:
			r := v.F + float64(d)
			if d < 0 && r != decimalMinusOne(v.F) {
				panic(ambiguous{"float -- where IEEE and decimal differ"})
			}
			return vFloat(r)
		}
		failAt(x, "postfix operator on "+v.K.String())
	case "bin":
		a := in.ex(x.A[0])
		b := in.ex(x.A[1])
		return in.bin(x, a, b)
	case "tern":
		c := in.ex(x.A[0])
		if c.Truthy() {
			return in.ex(x.A[1])
		}
		return in.ex(x.A[2])
	case "arr":
		vs := []Val{}
		for _, e := range x.A {
			vs = append(vs, in.ex(e))
		}
		return vArr(vs...)
	case "obj":
		m := map[string]Val{}
		for i, k := range x.Keys {
			m[k] = in.ex(x.A[i])
		}
		return vObj(m)
	case "idx":
		a := in.ex(x.A[0])
		i := in.ex(x.A[1])
		switch {
		case a.K == KArr && i.K == KInt:
			if i.I < 0 || i.I >= int64(len(a.A)) {
				return vNil()
			}
			return a.A[i.I]
		case a.K == KObj && i.K == KStr:
			n := i.S
			if x.A[1].Op == "lit" { // a key as written, not as printed
				n = html.UnescapeString(n)
			}
			return in.prop(x, a, n)
		}
		failAt(x, "index of "+a.K.String()+" by "+i.K.String())
	case "dot":
		a := in.ex(x.A[0])
		if a.K != KObj {
			failAt(x, "property of "+a.K.String())
		}
		return in.prop(x, a, x.Name)
	case "call":
		r := in.ex(x.A[0])
		args := []Val{}
		for _, e := range x.A[1:] {
			args = append(args, in.ex(e))
		}
		var res callResult
		if isBuiltin(r.K, x.Name) {
			res = Call(r, x.Name, args)
		} else if in.Funcs != nil {
			var found bool
			res, found = in.Funcs(r, x.Name, args)
			if !found {
				failAt(x, "unknown function")
			}
		} else {
			failAt(x, "unknown function")
		}
		if res.Ambig != "" || res.Any != nil {
			panic(ambiguous{"call " + x.Name + ": " + res.Ambig})
		}
		if res.Err {
			failAt(x, "wrong arguments")
		}
		return res.V
	}
	panic("eval " + x.Op)
}

func (in *Interp) prop(x *X, a Val, name string) Val {
	if v, found := a.O[name]; found {
		return v
	}
	for k := range a.O {
		if strings.EqualFold(k, name) {
			panic(ambiguous{"property differs in case"})
		}
	}
	failAt(x, "unknown property")
	return Val{}
}

func (in *Interp) bin(x *X, a, b Val) Val {
	if a.K != b.K {
		failAt(x, "type mismatch")
	}
	op := x.Name
	switch a.K {
	case KInt:
		switch op {
		case "+":
			return vInt(a.I + b.I)
		case "-":
			return vInt(a.I - b.I)
		case "*":
			return vInt(a.I * b.I)
		case "/", "%":
			if b.I == 0 {
				failAt(x, "division by zero")
			}
			if b.I == -1 {
				if op == "/" {
					return vInt(-a.I)
				}
				return vInt(0)
			}
			if op == "/" {
				return vInt(a.I / b.I)
			}
			return vInt(a.I % b.I)
		}
		return vBool(cmp(op, a.I < b.I, a.I == b.I, a.I > b.I))
	case KFloat:
		switch op {
		case "+":
			return vFloat(a.F + b.F)
		case "-":
			return vFloat(a.F - b.F)
		case "*":
			return vFloat(a.F * b.F)
		case "/":
			return vFloat(a.F / b.F)
		case "%":
			panic(ambiguous{"float modulo"})
		}
		return vBool(cmp(op, a.F < b.F, a.F == b.F, a.F > b.F))
	case KStr:
		switch op {
		case "+":
			return vStr(a.S + b.S)
		case "==":
			return vBool(a.S == b.S)
		case "!=":
			return vBool(a.S != b.S)
		case "-", "*", "/", "%":
			failAt(x, "operator on strings")
		}
		panic(ambiguous{"string ordering"})
	}
	switch op {
	case "+", "-", "*", "/", "%":
		failAt(x, "arithmetic on "+a.K.String())
	}
	panic(ambiguous{"comparison of " + a.K.String()})
}

func cmp(op string, lt, eq, gt bool) bool {
	switch op {
	case "==":
		return eq
	case "!=":
		return !eq
	case "<":
		return lt
	case ">":
		return gt
	case "<=":
		return lt || eq
	case ">=":
		return gt || eq
	}
	panic("cmp")
}

// decimalMinusOne subtracts one from the shortest decimal spelling of f.
func decimalMinusOne(f float64) float64 {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return f - 1
	}
	r := ratOf(f)
	return r
}

// ---- generator ----

// GVar is a variable that the generator may use.
type GVar struct {
	Name string
	V    Val // shape sample: type is V.K; arrays and objects give their structure
}

// Gen generates expressions.
type Gen struct {
	R    *rand.Rand
	Vars []GVar
	// Fault, when set, asks for exactly one planted fault somewhere.
	NoCalls bool
	Strs    []string
	Small   bool // small integers only
}

func (g *Gen) pick(ss ...string) string { return ss[g.R.IntN(len(ss))] }

var plainStrs = []string{"", "a", "ab", "x y", "Hello", "0", "12", "-3", "1.5", "é", "日本", "q'q", "tru\\e", "line1\nline2", " pad ", "true", "nil", "}}", "{{ x }}", "@if(x)", "{", "+", "a--b", "//", "a;b", "#%"}

func (g *Gen) str() string {
	if g.Strs != nil {
		return g.Strs[g.R.IntN(len(g.Strs))]
	}
	return plainStrs[g.R.IntN(len(plainStrs))]
}

func (g *Gen) intLit() *X {
	if g.Small {
		return xInt(int64(g.R.IntN(7)))
	}
	switch g.R.IntN(12) {
	case 0:
		return xInt(math.MaxInt64)
	case 1:
		return xInt(int64(g.R.Uint64() >> 1))
	case 2:
		return xInt(int64(g.R.Uint32()))
	case 3:
		// decimal whatever digits it begins with
		v := int64(g.R.IntN(1 + g.R.IntN(120)))
		return xLit(vInt(v), strings.Repeat("0", 1+g.R.IntN(3))+strconv.FormatInt(v, 10))
	case 4:
		return xInt(0)
	default:
		return xInt(int64(g.R.IntN(20)))
	}
}

func (g *Gen) floatLit() *X {
	switch g.R.IntN(8) {
	case 0:
		return xFloat(float64(g.R.IntN(1000)))
	case 1:
		return xFloat(float64(g.R.IntN(1000)) / 8)
	case 2:
		return xLit(vFloat(0.10), "0.10")
	case 3:
		return xFloat(math.Round(g.R.Float64()*1e6) / 1e6)
	case 4:
		return xFloat(g.R.Float64())
	case 5:
		return xFloat(0)
	default:
		return xFloat(float64(g.R.IntN(40)) / 4)
	}
}

// paths lists expressions of kind k reachable from the variables.
func (g *Gen) varOf(k VK) *X {
	var cands []*X
	var walk func(x *X, v Val, d int)
	walk = func(x *X, v Val, d int) {
		if v.K == k {
			cands = append(cands, x)
		}
		if d == 0 {
			return
		}
		if v.K == KArr {
			for i := range v.A {
				walk(xIdx(x, xInt(int64(i)), v.A[i].K), v.A[i], d-1)
			}
		}
		if v.K == KObj {
			for _, n := range sortedKeys(v.O) {
				if g.R.IntN(2) == 0 {
					walk(xDot(x, n, v.O[n].K), v.O[n], d-1)
				} else {
					walk(xIdx(x, xStr(n), v.O[n].K), v.O[n], d-1)
				}
			}
		}
	}
	for _, v := range g.Vars {
		walk(xVar(v.Name, v.V.K), v.V, 3)
	}
	if len(cands) == 0 {
		return nil
	}
	return cands[g.R.IntN(len(cands))]
}

// Expr generates an expression of kind k.
func (g *Gen) Expr(k VK, d int) *X {
	if d <= 0 || g.R.IntN(10) == 0 {
		return g.leaf(k)
	}
	r := g.R.IntN(20)
	if r < 2 {
		return xTern(g.Expr(g.condKind(), d-1), g.Expr(k, d-1), g.Expr(k, d-1))
	}
	if r == 2 {
		// element of a fresh array or property of a fresh object
		if g.R.IntN(2) == 0 {
			n := 1 + g.R.IntN(3)
			a := xArr()
			for i := 0; i < n; i++ {
				a.A = append(a.A, g.Expr(k, d-2))
			}
			if g.R.IntN(6) == 0 { // a computed index, which may be out of range
				return xIdx(a, g.Expr(KInt, d-1), k)
			}
			return xIdx(a, xInt(int64(g.R.IntN(n))), k)
		}
		o := &X{Op: "obj", T: KObj}
		for _, n := range []string{"k", "name", "q1"}[:1+g.R.IntN(3)] {
			o.Keys = append(o.Keys, n)
			o.A = append(o.A, g.Expr(k, d-2))
		}
		if !g.Small && g.R.IntN(8) == 0 { // a key that is no name; it is not escaped like printed text
			n := g.pick("a<b", "a&b", "x y", "<", "a.b", "0", "", "é-日")
			at := g.R.IntN(len(o.Keys) + 1)
			o.Keys = append(append(append([]string{}, o.Keys[:at]...), n), o.Keys[at:]...)
			v := g.Expr(k, d-2)
			o.A = append(append(append([]*X{}, o.A[:at]...), v), o.A[at:]...)
			return xIdx(o, xStrQ(n, quote(g.R)), k)
		}
		n := o.Keys[g.R.IntN(len(o.Keys))]
		if g.R.IntN(2) == 0 {
			return xDot(o, n, k)
		}
		if c := g.R.IntN(len(n) + 1); g.R.IntN(4) == 0 {
			return xIdx(o, xBin("+", xStr(n[:c]), xStr(n[c:])), k)
		}
		return xIdx(o, xStr(n), k)
	}
	if r == 3 && !g.NoCalls {
		return xCall(g.Expr(KBool, d-1), "then", k, g.Expr(k, d-1), g.Expr(k, d-1))
	}
	if r == 4 && !g.NoCalls {
		a := xArr(g.Expr(k, d-2), g.Expr(k, d-2))
		switch g.R.IntN(3) {
		case 0:
			return xIdx(xCall(a, "reverse", KArr), xInt(int64(g.R.IntN(2))), k)
		case 1:
			return xIdx(xCall(a, "append", KArr, g.Expr(k, d-2)), xInt(int64(g.R.IntN(3))), k)
		}
		return xIdx(xCall(a, "slice", KArr, xInt(1)), xInt(0), k)
	}
	switch k {
	case KInt:
		switch g.R.IntN(10) {
		case 0:
			return xUn("-", g.Expr(KInt, d-1))
		case 1:
			return &X{Op: "post", Name: g.pick("++", "--"), A: []*X{g.Expr(KInt, d-1)}, T: KInt}
		case 2:
			if !g.NoCalls {
				switch g.R.IntN(6) {
				case 0:
					return xCall(g.Expr(KStr, d-1), "len", KInt)
				case 1:
					return xCall(g.Expr(KFloat, d-1), g.pick("int", "ceil", "floor", "round"), KInt)
				case 2:
					return xCall(g.Expr(KBool, d-1), "binary", KInt)
				case 3:
					return xCall(g.Expr(KArr, d-1), "len", KInt)
				default:
					return xCall(g.Expr(KInt, d-1), g.pick("abs", "len"), KInt)
				}
			}
		}
		op := g.pick("+", "-", "*", "+", "-", "*", "/", "%")
		a := g.Expr(KInt, d-1)
		b := g.Expr(KInt, d-1)
		if (op == "/" || op == "%") && g.R.IntN(8) != 0 {
			b = xInt(int64(1 + g.R.IntN(9)))
			if g.R.IntN(5) == 0 {
				b = xUn("-", b)
			}
		}
		return xBin(op, a, b)
	case KFloat:
		switch g.R.IntN(10) {
		case 0:
			return xUn("-", g.Expr(KFloat, d-1))
		case 1:
			return &X{Op: "post", Name: g.pick("++", "--"), A: []*X{g.Expr(KFloat, d-1)}, T: KFloat}
		case 2:
			if !g.NoCalls {
				if g.R.IntN(2) == 0 {
					return xCall(g.Expr(KInt, d-1), "float", KFloat)
				}
				return xCall(g.Expr(KFloat, d-1), "abs", KFloat)
			}
		}
		return xBin(g.pick("+", "-", "*", "/"), g.Expr(KFloat, d-1), g.Expr(KFloat, d-1))
	case KStr:
		if g.R.IntN(3) == 0 && !g.NoCalls {
			switch g.R.IntN(6) {
			case 0:
				return xCall(g.Expr(KInt, d-1), "str", KStr)
			case 1:
				return xCall(g.Expr(KStr, d-1), "repeat", KStr, xInt(int64(g.R.IntN(4))))
			case 2:
				return xCall(g.Expr(KStr, d-1), g.pick("reverse", "trim", "capitalize"), KStr)
			case 3:
				return xCall(g.Expr(KStr, d-1), "truncate", KStr, xInt(int64(g.R.IntN(5))), g.Expr(KStr, d-2))
			case 4:
				return xCall(xArr(g.Expr(KStr, d-2), g.Expr(KStr, d-2)), "join", KStr, g.Expr(KStr, d-2))
			default:
				return xCall(g.Expr(KStr, d-1), g.pick("upper", "lower"), KStr)
			}
		}
		if g.R.IntN(8) == 0 { // the same operand twice, perhaps a long one
			a := g.Expr(KStr, d-2)
			if g.R.IntN(2) == 0 {
				a = xStr(strings.Repeat(letters(g.R.IntN(700)), 1+g.R.IntN(300)))
			}
			return xBin("+", a, a)
		}
		return xBin("+", g.Expr(KStr, d-1), g.Expr(KStr, d-1))
	case KBool:
		if g.R.IntN(10) == 0 {
			return g.near()
		}
		switch g.R.IntN(8) {
		case 0:
			return xUn("!", g.Expr(KBool, d-1))
		case 1:
			return xBin(g.pick("==", "!="), g.Expr(KStr, d-1), g.Expr(KStr, d-1))
		case 2:
			return xBin(g.pick("==", "!=", "<", ">", "<=", ">="), g.Expr(KFloat, d-1), g.Expr(KFloat, d-1))
		case 3:
			if !g.NoCalls {
				return xCall(g.Expr(KStr, d-1), "contains", KBool, g.Expr(KStr, d-1))
			}
		}
		return xBin(g.pick("==", "!=", "<", ">", "<=", ">="), g.Expr(KInt, d-1), g.Expr(KInt, d-1))
	case KNil: // an index out of range
		a := g.Expr(KArr, d-1)
		switch g.R.IntN(6) {
		case 0:
			return xIdx(a, xUn("-", xInt(int64(1+g.R.IntN(4)))), KNil)
		case 1:
			return xIdx(a, xCall(a, "len", KInt), KNil)
		case 2:
			return xIdx(a, xBin("-", xInt(0), xCall(a, "len", KInt)), KNil)
		case 3:
			return xIdx(xArr(), g.Expr(KInt, d-1), KNil)
		case 4:
			return xIdx(a, xInt([]int64{math.MaxInt64, 1 << 32, 1 << 31, 1 << 33, 1 << 62, 256, 65536}[g.R.IntN(7)]), KNil)
		}
		return xIdx(a, xInt(int64(g.R.IntN(3)+20)), KNil)
	case KArr:
		n := g.R.IntN(4)
		if g.R.IntN(24) == 0 {
			n = 4 + g.R.IntN(30)
		}
		a := xArr()
		ek := VK(1 + g.R.IntN(4))
		for i := 0; i < n; i++ {
			a.A = append(a.A, g.Expr(ek, d-2))
		}
		return a
	case KObj:
		o := &X{Op: "obj", T: KObj}
		if len(g.Vars) > 0 && g.R.IntN(4) == 0 { // keys that are names in scope
			for _, j := range g.R.Perm(len(g.Vars)) {
				if v := g.Vars[j]; len(o.Keys) < 3 && v.Name != "loop" {
					o.Keys = append(o.Keys, v.Name)
					if g.R.IntN(4) == 0 {
						o.A = append(o.A, g.Expr(VK(1+g.R.IntN(4)), d-2))
						continue
					}
					o.A = append(o.A, xVar(v.Name, v.V.K))
				}
			}
			return o
		}
		for _, n := range []string{"a", "bb", "c_c", "D"}[:g.R.IntN(4)] {
			o.Keys = append(o.Keys, n)
			o.A = append(o.A, g.Expr(VK(1+g.R.IntN(4)), d-2))
		}
		return o
	}
	return g.leaf(k)
}

// near compares two values that are equal or nearly so.
func (g *Gen) near() *X {
	op := g.pick("==", "!=", "<", ">", "<=", ">=")
	switch g.R.IntN(3) {
	case 0:
		v := int64(g.R.IntN(4000) - 2000)
		if g.R.IntN(2) == 0 {
			v = []int64{0, 127, 255, 32767, 65535, 1 << 31, 1<<32 - 1, 1 << 53, 1<<53 + 1, 1<<62 - 1, math.MaxInt64 - 1, -1 << 31, -1 << 53, math.MinInt64 + 2}[g.R.IntN(14)]
		}
		b := v + []int64{0, 1, -1, 256, 65536, 1 << 32}[g.R.IntN(6)]
		if (b > v) != (b-v > 0 && b-v < 1<<40) { // wrapped
			b = v
		}
		return xBin(op, xInt(v), xInt(b))
	case 1:
		v := float64(g.R.IntN(4000)-2000) / float64(1+g.R.IntN(9))
		b := v
		switch g.R.IntN(6) {
		case 0, 1:
			b = math.Nextafter(v, v+1)
		case 2:
			b = math.Nextafter(v, v-1)
		case 3:
			b = v + 1e-9
		case 4:
			b = float64(float32(v))
		}
		return xBin(op, xFloat(v), xFloat(b))
	}
	s := g.pick("", "a", "ab c", "Straße", "é", "0", "1.0", "true", "nil", " ", "a\nb", "日本", "<b>", "a&b", "x'y", "\x00", "ſ")
	b := s
	switch g.R.IntN(8) {
	case 0:
		b = s + g.pick(" ", "\n", "\t", "\u00a0", "\x00", "\u200b", "a", ".0")
	case 1:
		b = g.pick(" ", "\n", "\ufeff", "0", "+", "\x00") + s
	case 2:
		b = strings.ToUpper(s)
	case 3:
		b = strings.ToLower(s)
	case 4:
		b = strings.ReplaceAll(strings.ReplaceAll(s, "é", "e\u0301"), "ſ", "s")
	case 5:
		b = strings.ReplaceAll(strings.ReplaceAll(s, "<", "&lt;"), "&", "&amp;")
	}
	if g.R.IntN(2) == 0 {
		s, b = b, s
	}
	return xBin(g.pick("==", "!="), xStrQ(s, g.quote()), xStrQ(b, g.quote()))
}

func (g *Gen) quote() byte {
	if g.R.IntN(2) == 0 {
		return '"'
	}
	return '\''
}

// big is a long or deep expression of kind k (which it may change).
func (g *Gen) big(k VK) *X {
	n := 20 + g.R.IntN(200)
	if g.R.IntN(8) == 0 {
		n = 400 + g.R.IntN(1600)
	}
	deep := 10 + g.R.IntN(60)
	x := g.Expr(k, 1)
	switch g.R.IntN(9) {
	case 0: // one operator level, left to right
		if k != KFloat && k != KStr {
			k, x = KInt, g.Expr(KInt, 1)
		}
		for i := 0; i < n; i++ {
			op := "+"
			if k != KStr {
				op = g.pick("+", "-", "*", "-")
			}
			b := g.Expr(k, g.R.IntN(2))
			if k == KInt && g.R.IntN(6) == 0 {
				op, b = g.pick("/", "%"), xInt(int64(1+g.R.IntN(5)))
			}
			x = xBin(op, x, b)
		}
	case 1: // nested to the right: a - (b - (c - ...))
		if k != KFloat {
			k, x = KInt, g.Expr(KInt, 1)
		}
		for i := 0; i < deep; i++ {
			x = xBin(g.pick("-", "+", "*"), g.leaf(k), x)
		}
	case 2: // ternary chain
		for i := 0; i < deep; i++ {
			c := g.Expr(g.condKind(), 1)
			if g.R.IntN(4) > 0 {
				c = xBin("==", g.leaf(KInt), xInt(-1))
			}
			x = xTern(c, g.Expr(k, 1), x)
		}
	case 3: // nested ternaries in the consequence and condition
		for i := 0; i < deep/2; i++ {
			switch g.R.IntN(3) {
			case 0:
				x = xTern(xBool(true), x, g.leaf(k))
			case 1:
				x = xTern(xTern(g.leaf(KBool), xInt(int64(i)), g.leaf(KStr)), x, g.Expr(k, 1))
			default:
				x = xTern(xBin("<", g.leaf(KInt), g.leaf(KInt)), x, g.leaf(k))
			}
		}
	case 4: // long literal and access near its end
		a := xArr()
		for i := 0; i < n; i++ {
			a.A = append(a.A, g.Expr(k, g.R.IntN(2)))
		}
		x = a
		if g.R.IntN(3) > 0 {
			x = xIdx(a, xInt(int64(n-1-g.R.IntN(5))), k)
		}
	case 5:
		o := &X{Op: "obj", T: KObj}
		for i := 0; i < n; i++ {
			o.Keys = append(o.Keys, "k"+letters(i))
			o.A = append(o.A, g.Expr(k, g.R.IntN(2)))
		}
		x = o
		if g.R.IntN(3) > 0 {
			x = xDot(o, o.Keys[n-1-g.R.IntN(5)], k)
		}
	case 6: // deep literal and its access path
		path := ""
		for i := 0; i < deep; i++ {
			if g.R.IntN(2) == 0 {
				x, path = xArr(x), path+"a"
			} else {
				x, path = &X{Op: "obj", Keys: []string{"p"}, A: []*X{x}, T: KObj}, path+"o"
			}
		}
		for i := len(path) - 1; i >= 0; i-- {
			switch {
			case path[i] == 'a':
				x = xIdx(x, xInt(0), k)
			case g.R.IntN(2) == 0:
				x = xDot(x, "p", k)
			default:
				x = xIdx(x, xStr("p"), k)
			}
		}
	case 7: // prefixes and postfixes
		if g.R.IntN(2) == 0 {
			x = g.Expr(KBool, 1)
			for i := 0; i < deep; i++ {
				x = xUn("!", x)
			}
			break
		}
		x = g.Expr(KInt, 1)
		for i := 0; i < deep; i++ {
			if g.R.IntN(2) == 0 {
				x = xUn("-", x)
			} else {
				x = &X{Op: "post", Name: g.pick("++", "--"), A: []*X{x}, T: KInt}
			}
		}
	default: // a chain of calls
		if g.NoCalls {
			return x
		}
		for i := 0; i < deep; i++ {
			switch x.T {
			case KStr:
				switch g.R.IntN(6) {
				case 0:
					x = xCall(x, "len", KInt)
				case 1:
					x = xBin("+", x, g.leaf(KStr))
				default:
					x = xCall(x, g.pick("trim", "reverse", "upper", "lower"), KStr)
				}
			case KInt:
				x = xCall(x, g.pick("abs", "str", "float"), KInt)
				x.T = map[string]VK{"abs": KInt, "str": KStr, "float": KFloat}[x.Name]
			case KFloat:
				x = xCall(x, g.pick("abs", "int", "round"), KInt)
				x.T = map[string]VK{"abs": KFloat, "int": KInt, "round": KInt}[x.Name]
			case KBool:
				x = xCall(x, "binary", KInt)
			case KArr:
				x = xCall(x, g.pick("reverse", "len"), KArr)
				if x.Name == "len" {
					x.T = KInt
				}
			default:
				return x
			}
		}
	}
	return x
}

func (g *Gen) condKind() VK {
	return []VK{KBool, KBool, KBool, KInt, KStr, KFloat, KArr, KNil, KObj}[g.R.IntN(9)]
}

func (g *Gen) leaf(k VK) *X {
	if g.R.IntN(2) == 0 {
		if v := g.varOf(k); v != nil {
			return v
		}
	}
	switch k {
	case KInt:
		return g.intLit()
	case KFloat:
		return g.floatLit()
	case KBool:
		return xBool(g.R.IntN(2) == 0)
	case KStr:
		q := byte('"')
		if g.R.IntN(2) == 0 {
			q = '\''
		}
		return xStrQ(g.str(), q)
	case KArr:
		a := xArr()
		for i := g.R.IntN(3); i > 0; i-- {
			a.A = append(a.A, g.intLit())
		}
		return a
	case KObj:
		return &X{Op: "obj", Keys: []string{"a"}, A: []*X{g.intLit()}, T: KObj}
	}
	return xNil()
}

// walk visits every node of x.
func (x *X) walk(fn func(parent *X, i int, n *X)) {
	for i, c := range x.A {
		fn(x, i, c)
		c.walk(fn)
	}
}

func (x *X) size() int {
	n := 1
	for _, c := range x.A {
		n += c.size()
	}
	return n
}

func (x *X) clone() *X {
	c := *x
	c.A = make([]*X, len(x.A))
	for i, a := range x.A {
		c.A[i] = a.clone()
	}
	return &c
}

// Plant replaces a random subexpression so that something is wrong there;
// the reference decides whether the fault is reached.
func (g *Gen) Plant(x *X) (*X, string) {
	x = x.clone()
	type slot struct {
		p *X
		i int
	}
	var slots []slot
	x.walk(func(p *X, i int, n *X) { slots = append(slots, slot{p, i}) })
	kind := g.pick("undef", "mixed", "mixed", "divzero", "intrange", "undef", "nofunc", "noprop", "prefix", "badidx")
	var n *X
	old := x
	var s slot
	if len(slots) > 0 && g.R.IntN(8) != 0 {
		s = slots[g.R.IntN(len(slots))]
		old = s.p.A[s.i]
	}
	switch kind {
	case "undef":
		n = xVar(g.pick("undefinedX", "nope", "zz9", "Loop"), old.T)
	case "mixed":
		k := old.T
		o := VK(1 + g.R.IntN(4))
		for o == k {
			o = VK(1 + g.R.IntN(4))
		}
		op := g.pick("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=")
		if k == KInt && g.R.IntN(2) == 0 {
			op = "%"
		}
		n = xBin(op, old, g.leaf(o))
		if g.R.IntN(2) == 0 {
			n = xBin(op, g.leaf(o), old)
		}
		n.T = old.T
	case "divzero":
		n = xBin(g.pick("/", "%"), g.Expr(KInt, 1), xInt(0))
		if g.R.IntN(2) == 0 {
			n.A[1] = xBin("-", xInt(5), xInt(5))
		}
	case "intrange":
		n = &X{Op: "lit", Src: g.pick("9223372036854775808", "18446744073709551616", "99999999999999999999999", "9999999999999999999"), T: KInt, Bad: "intrange"}
		if g.R.IntN(3) == 0 {
			n = xUn("-", n)
		}
	case "nofunc":
		n = xCall(old, g.pick("nosuch", "Len", "size", "float2"), old.T)
	case "noprop":
		n = xDot(&X{Op: "obj", Keys: []string{"a"}, A: []*X{old}, T: KObj}, "zz", old.T)
	case "prefix":
		n = xUn("-", g.leaf([]VK{KStr, KBool, KArr, KNil, KObj}[g.R.IntN(5)]))
	case "badidx":
		n = xIdx(g.leaf([]VK{KStr, KBool, KInt, KFloat}[g.R.IntN(4)]), xInt(0), old.T)
	}
	if old == x {
		return n, kind
	}
	s.p.A[s.i] = n
	return x, kind
}

// staticFault tells that the source of x has a literal that cannot be parsed.
func (x *X) staticFault() bool {
	if x.Bad == "intrange" {
		return true
	}
	for _, c := range x.A {
		if c.staticFault() {
			return true
		}
	}
	return false
}

func (x *X) shape() string {
	var b strings.Builder
	var rec func(x *X, d int)
	rec = func(x *X, d int) {
		b.WriteString(x.Op)
		if x.Op == "bin" || x.Op == "un" || x.Op == "post" || x.Op == "call" {
			b.WriteString(x.Name)
		}
		if d == 0 || len(x.A) == 0 {
			return
		}
		b.WriteByte('(')
		for _, c := range x.A {
			rec(c, d-1)
			b.WriteByte(' ')
		}
		b.WriteByte(')')
	}
	rec(x, 4)
	return b.String()
}

var _ = fmt.Sprint
