package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// GS generates statements and tracks which names are visible.
type GS struct {
	R      *rand.Rand
	G      *Gen
	Scopes [][]GVar
	Loop   int  // loop nesting
	Each   int  // each nesting
	Budget int  // statements left
	Assign bool // generate assignments
	Faulty float64
	W      map[string]int // statement weights
	n      int
	// NoCF forbids control flow (inside components and slots)
	NoCF bool
	Comp func(gs *GS, depth int) *St
	// LoopNames and Prefix are the names that the block may bind
	LoopNames []string
	Prefix    string
	NoShadow  bool
	Special   func(gs *GS, d int) *St // weight "special"
	Hide      map[string]int          // names that expressions do not read
	Big       bool                    // long chains, arrays and loops
}

func newGS(r *rand.Rand, vars []GVar) *GS {
	return &GS{R: r, G: &Gen{R: r}, Scopes: [][]GVar{vars}, Budget: 40, Assign: true,
		W: map[string]int{"text": 6, "print": 5, "assign": 2, "if": 4, "for": 2, "each": 3, "comment": 1, "brk": 3, "seq": 1}}
}

func (g *GS) vars() []GVar {
	seen := map[string]bool{}
	var out []GVar
	for i := len(g.Scopes) - 1; i >= 0; i-- {
		for j := len(g.Scopes[i]) - 1; j >= 0; j-- {
			v := g.Scopes[i][j]
			if !seen[v.Name] && g.Hide[v.Name] == 0 {
				seen[v.Name] = true
				out = append(out, v)
			}
		}
	}
	return out
}

func (g *GS) push() { g.Scopes = append(g.Scopes, nil) }
func (g *GS) pop()  { g.Scopes = g.Scopes[:len(g.Scopes)-1] }
func (g *GS) bind(n string, v Val) {
	i := len(g.Scopes) - 1
	g.Scopes[i] = append(g.Scopes[i], GVar{n, v})
}

var textPieces = []string{" ", "\n", "x", "<p>", "</p>", "word ", "}", "}}", "{ ", "é", "日本 ", "a@b.c ", "@", "\\ ", "\t", "&amp;", "<", "'", "\"", "-", "--", "\r\n", "$5 ", "#", "(y)", ";", "1, 2", "//", "{}"}

// Text is a text run that has no Textwire syntax, whatever stands around it.
func (g *GS) Text() *St {
	return tText(genText(g.R))
}

func genText(r *rand.Rand) string {
	if r.IntN(8) == 0 {
		return []string{" ", "\n", "\n\t ", "x", "<br>", "}", "}}", "\r\n", ".", "é"}[r.IntN(10)]
	}
	s := []string{"a", "b", "\n", " ", "<", "}", "é", "Z", ".", "\r\n"}[r.IntN(10)]
	for i := 1 + r.IntN(4); i > 0; i-- {
		s += textPieces[r.IntN(len(textPieces))]
	}
	return s + []string{".", "\n", " ", ">", "x", "é", "}", "  \n"}[r.IntN(8)]
}

func (g *GS) expr(k VK, d int) *X {
	g.G.Vars = g.vars()
	if g.Each > 0 && g.R.IntN(4) == 0 {
		switch k {
		case KInt:
			return xDot(xVar("loop", KObj), g.G.pick("index", "iter"), KInt)
		case KBool:
			return xDot(xVar("loop", KObj), g.G.pick("first", "last"), KBool)
		}
	}
	return g.G.Expr(k, d)
}

func (g *GS) anyKind() VK {
	return []VK{KInt, KInt, KInt, KStr, KStr, KBool, KFloat, KArr, KObj}[g.R.IntN(9)]
}

func (g *GS) cond(d int) *X {
	g.G.Vars = g.vars()
	return g.expr(g.G.condKind(), d)
}

func (g *GS) fresh(prefix string) string {
	g.n++
	if g.n%8 == 5 {
		prefix += "WithALongerName_"
	}
	return fmt.Sprintf("%s%s", prefix, letters(g.n))
}

func letters(n int) string {
	s := ""
	for {
		s = string(rune('a'+n%26)) + s
		n /= 26
		if n == 0 {
			return s
		}
	}
}

// Block generates a block in a new scope.
func (g *GS) Block(d int) []*St {
	g.push()
	defer g.pop()
	return g.Stmts(d, 1+g.R.IntN(4))
}

func (g *GS) Stmts(d, n int) []*St {
	var out []*St
	for i := 0; i < n && g.Budget > 0; i++ {
		g.Budget--
		out = append(out, g.Stmt(d))
	}
	if len(out) == 0 && g.R.IntN(3) > 0 {
		out = append(out, g.Text())
	}
	return out
}

func (g *GS) choose() string {
	t := 0
	for _, k := range sortedKeys(g.W) {
		t += g.W[k]
	}
	x := g.R.IntN(t)
	for _, k := range sortedKeys(g.W) {
		if x < g.W[k] {
			return k
		}
		x -= g.W[k]
	}
	return "text"
}

func (g *GS) Stmt(d int) *St {
	k := g.choose()
	if d <= 0 && (k == "if" || k == "for" || k == "each" || k == "comp") {
		k = "print"
	}
	switch k {
	case "print":
		return tPrint(g.expr(g.anyKind(), 2))
	case "comment":
		return &St{K: "comment", Text: g.G.pick("", " c ", " {{ x }} @if(", "@end", "\n\n", " - ", "\\")}
	case "seq":
		s := &St{K: "seq"}
		for i := 1 + g.R.IntN(3); i > 0; i-- {
			if g.R.IntN(2) == 0 && g.Assign {
				s.Seq = append(s.Seq, g.assign())
			} else {
				s.Seq = append(s.Seq, tPrint(g.expr(g.anyKind(), 1)))
			}
		}
		return s
	case "assign":
		if g.Assign {
			return g.assign()
		}
	case "if":
		s := &St{K: "if"}
		n := 1 + g.R.IntN(3)
		if g.Big && g.R.IntN(2) == 0 {
			n = 5 + g.R.IntN(60)
		}
		for i := n; i > 0; i-- {
			if n > 4 && g.R.IntN(8) > 0 {
				// mostly false, so that the chain is walked
				s.Conds = append(s.Conds, xBin("==", xInt(int64(i)), xInt(-1)))
				s.Blocks = append(s.Blocks, []*St{tText(fmt.Sprint("b", i, "."))})
				continue
			}
			s.Conds = append(s.Conds, g.cond(2))
			s.Blocks = append(s.Blocks, g.Block(d-1))
		}
		if g.R.IntN(2) == 0 {
			s.HasEl = true
			s.Else = g.Block(d - 1)
		}
		return s
	case "for":
		return g.forLoop(d)
	case "each":
		return g.eachLoop(d)
	case "brk":
		if g.Loop > 0 && !g.NoCF {
			switch g.R.IntN(6) {
			case 0:
				return &St{K: "break"}
			case 1:
				return &St{K: "continue"}
			case 2, 3:
				return &St{K: "breakif", X: g.cond(1)}
			default:
				return &St{K: "contif", X: g.cond(1)}
			}
		}
	case "special":
		return g.Special(g, d)
	case "comp":
		if g.Comp != nil {
			return g.Comp(g, d)
		}
	}
	return g.Text()
}

func (g *GS) assign() *St {
	vs := g.vars()
	if len(vs) > 0 && !g.NoShadow && g.R.IntN(2) == 0 {
		v := vs[g.R.IntN(len(vs))]
		k := v.V.K
		if g.R.Float64() < g.Faulty {
			k = g.anyKind()
		}
		var x *X
		if k == KArr || k == KObj {
			x = xOf(v.V)
			if k != v.V.K {
				x = g.expr(k, 1)
			}
		} else {
			x = g.expr(k, 2)
		}
		nv := v.V
		g.bind(v.Name, nv)
		return tAssign(v.Name, x)
	}
	n := g.fresh(g.Prefix + g.G.pick("v", "w_", "x", "y"))
	k := []VK{KInt, KStr, KFloat, KBool, KArr}[g.R.IntN(5)]
	v := sampleVal(g.R, k)
	var x *X
	if k == KArr {
		x = xOf(v)
	} else {
		x = g.expr(k, 2)
	}
	g.bind(n, v)
	return tAssign(n, x)
}

func sampleVal(r *rand.Rand, k VK) Val {
	switch k {
	case KInt:
		return vInt(int64(r.IntN(30) - 8))
	case KFloat:
		return vFloat(float64(r.IntN(64)-20) / 4)
	case KBool:
		return vBool(r.IntN(2) == 0)
	case KStr:
		return vStr([]string{"", "s", "abc", "x y", "é", "0"}[r.IntN(6)])
	case KArr:
		a := Val{K: KArr, A: []Val{}}
		ek := VK(1 + r.IntN(4))
		for i := r.IntN(5); i > 0; i-- {
			a.A = append(a.A, sampleVal(r, ek))
		}
		return a
	case KObj:
		o := map[string]Val{}
		for _, n := range []string{"id", "name", "tags", "in_", "ok"}[:1+r.IntN(5)] {
			o[n] = sampleVal(r, VK(1+r.IntN(5)))
		}
		return vObj(o)
	}
	return vNil()
}

// sampleData makes a data map with values of every kind.
func sampleData(r *rand.Rand) (map[string]Val, []GVar) {
	d := map[string]Val{}
	for _, e := range []struct {
		n string
		k VK
	}{{"n", KInt}, {"m", KInt}, {"f", KFloat}, {"s", KStr}, {"t", KStr}, {"b", KBool}, {"ok", KBool}, {"arr", KArr}, {"list", KArr}, {"obj", KObj}, {"user", KObj}, {"none", KNil}} {
		if r.IntN(4) > 0 {
			d[e.n] = sampleVal(r, e.k)
		}
	}
	if r.IntN(2) == 0 {
		d["objs"] = vArr(vObj(map[string]Val{"id": vInt(1), "name": vStr("n1"), "kids": vArr(vInt(1), vInt(2))}),
			vObj(map[string]Val{"id": vInt(2), "name": vStr("n2"), "kids": vArr()}),
			vObj(map[string]Val{"id": vInt(0), "name": vStr(""), "kids": vArr(vInt(5))}))
	}
	if r.IntN(4) == 0 {
		// other names: such that begin with a keyword, contain digits, capitals and underscores
		for _, k := range sortedKeys(d) {
			if n := oddVars[r.IntN(len(oddVars))]; r.IntN(2) == 0 {
				if _, used := d[n]; !used {
					d[n] = d[k]
					delete(d, k)
				}
			}
		}
	}
	if r.IntN(40) == 0 { // many
		for j := 60 + r.IntN(200); j > 0; j-- {
			d["many_"+letters(r.IntN(5000))] = sampleVal(r, VK(1+r.IntN(5)))
		}
	}
	var vs []GVar
	for _, k := range sortedKeys(d) {
		vs = append(vs, GVar{k, d[k]})
	}
	return d, vs
}

var oddVars = []string{"inner", "nilly", "trueX", "falsey", "iff", "loopx", "_", "__x", "x1", "X", "aB_9", "index", "first", "iter", "len", "each", "end", "component", "in1", "nil_", "true1", "E5", "i64", "raw", "N", "NIL", "Nil", "True", "TRUE", "False", "IN", "In", "Obj", "ARR", "aVeryLongVariableNameThatGoesOnAndOnAndOnAndOnForSixtyFourCharsX1"}

// leaf is a cheap element of a long array.
func (g *GS) leaf(k VK, i int) *X {
	switch k {
	case KInt:
		return xInt(int64(i * 3 % 1000))
	case KStr:
		return xStr("e" + letters(i))
	}
	return xOf(sampleVal(g.R, k))
}

func (g *GS) loopVar() string {
	if g.LoopNames != nil {
		return g.LoopNames[g.R.IntN(len(g.LoopNames))]
	}
	if g.R.IntN(6) == 0 && !g.NoShadow {
		if vs := g.vars(); len(vs) > 0 {
			return vs[g.R.IntN(len(vs))].Name
		}
	}
	if g.R.IntN(12) == 0 {
		return g.G.pick("index", "first", "last", "iter", "aLongLoopVariableName", "i2", "_", "I", "loopVar", "value")
	}
	return g.G.pick("i", "j", "k", "item", "e")
}

func (g *GS) forLoop(d int) *St {
	s := &St{K: "for"}
	g.push()
	defer g.pop()
	n := g.G.pick("i", "j", "k", "idx")
	if g.LoopNames != nil {
		n = g.loopVar()
	} else if g.R.IntN(8) == 0 {
		n = g.loopVar()
	}
	lo, hi := int64(g.R.IntN(4)-1), int64(g.R.IntN(6)-1)
	if g.Big && g.Loop == 0 {
		hi = int64(20 + g.R.IntN(1200))
	}
	s.Init = tAssign(n, xInt(lo))
	if g.R.IntN(4) == 0 {
		s.Init.X = xBin("+", xInt(lo-1), xInt(1))
	}
	g.bind(n, vInt(lo))
	v := xVar(n, KInt)
	switch g.R.IntN(7) {
	case 0:
		s.X = xBin(">", xInt(hi), v)
		s.Post = tAssign(n, xBin("+", v, xInt(1)))
	case 1:
		s.Init.X = xInt(hi)
		s.X = xBin(">=", v, xInt(lo))
		s.Post = tPrint(&X{Op: "post", Name: "--", A: []*X{v}, T: KInt})
	case 2:
		s.X = xBin("<=", v, xInt(hi))
		s.Post = tAssign(n, xBin("+", v, xInt(int64(1+g.R.IntN(2)))))
	case 3:
		s.X = xBin("!=", v, xInt(lo+int64(g.R.IntN(4))))
		if g.Big && g.Loop == 0 {
			s.X = xBin("!=", v, xInt(hi))
		}
		s.Post = tPrint(&X{Op: "post", Name: "++", A: []*X{v}, T: KInt})
	case 4:
		// counts down to zero by truthiness
		s.Init.X = xInt(int64(g.R.IntN(4)))
		s.X = v
		s.Post = tPrint(&X{Op: "post", Name: "--", A: []*X{v}, T: KInt})
	default:
		s.X = xBin("<", v, xInt(hi))
		s.Post = tPrint(&X{Op: "post", Name: "++", A: []*X{v}, T: KInt})
	}
	var other string
	if g.R.IntN(5) == 0 {
		if g.R.IntN(6) == 0 {
			other = g.otherFor(s, n)
		} else {
			g.oddFor(s, n)
		}
	}
	if g.R.IntN(3) == 0 {
		s.HasEl = true
		g.push()
		s.Else = g.Stmts(d-1, 1+g.R.IntN(2))
		g.pop()
	}
	g.Loop++
	s.Blocks = [][]*St{g.Block(d - 1)}
	g.Loop--
	if other != "" {
		// the variable exists around the loop, and is unchanged after it
		return &St{K: "each", Name: other, X: xArr(xInt(0)), Blocks: [][]*St{{s, tPrint(xVar(other, KInt))}}}
	}
	return s
}

// otherFor gives the loop s a header that steps a variable that exists
// around the loop, with or without another one of its own.
func (g *GS) otherFor(s *St, n string) string {
	o := g.fresh(g.Prefix + "z_")
	v := xVar(o, KInt)
	g.bind(o, vInt(0))
	s.X = xBin("<", v, xInt(int64(g.R.IntN(4))))
	s.Post = tPrint(&X{Op: "post", Name: "++", A: []*X{v}, T: KInt})
	if g.R.IntN(2) == 0 {
		s.Post = tAssign(o, xBin("+", v, xInt(1)))
	}
	if g.R.IntN(2) == 0 {
		s.Init = nil
	}
	return o
}

// oddFor gives the loop s another header: variables of other kinds, any
// truthy condition, and headers that fail at the entry or in a later pass.
func (g *GS) oddFor(s *St, n string) {
	r := g.R
	post := func(op string, k VK) *St {
		return tPrint(&X{Op: "post", Name: op, A: []*X{xVar(n, k)}, T: k})
	}
	set := func(init, cond *X, post *St, v Val) {
		s.Init, s.X, s.Post = tAssign(n, init), cond, post
		g.bind(n, v)
	}
	hi := int64(r.IntN(5))
	v := xVar(n, KInt)
	switch r.IntN(13) {
	case 0: // string
		v := xVar(n, KStr)
		set(xStr(""), xBin("!=", v, xStr(strings.Repeat("ab", int(hi)))), tAssign(n, xBin("+", v, xStr("ab"))), vStr(""))
	case 1: // float
		v := xVar(n, KFloat)
		set(xFloat(0.5), xBin("<", v, xFloat(float64(hi)+0.5)), post("++", KFloat), vFloat(0.5))
	case 2: // float down to 0.0 by truthiness
		set(xFloat(float64(hi)), xVar(n, KFloat), post("--", KFloat), vFloat(1))
	case 3: // boolean flag
		set(xBool(r.IntN(3) > 0), xVar(n, KBool), tAssign(n, xBool(false)), vBool(true))
	case 4: // growing array
		v := xVar(n, KArr)
		set(xArr(xInt(1)), xBin("<", xCall(v, "len", KInt), xInt(hi)), tAssign(n, xCall(v, "append", KArr, xInt(2))), vArr(vInt(1)))
	case 5: // walks an array until an element is falsy or missing
		a := xArr()
		for i := int64(0); i < hi; i++ {
			a.A = append(a.A, xInt(1+r.Int64N(5)))
		}
		a.A = append(a.A, []*X{xInt(0), xNil(), xStr(""), xBool(false), xFloat(0)}[r.IntN(5)], xInt(3))
		set(xInt(0), xIdx(a, v, KInt), post("++", KInt), vInt(0))
	case 6: // the condition fails later
		set(xInt(0), xBin("!=", xBin(g.G.pick("/", "%"), xInt(60), xBin("-", xInt(hi), v)), xInt(-7)), post("++", KInt), vInt(0))
	case 7:
		set(xInt(0), xTern(xBin("<", v, xInt(hi)), xBool(true), xVar("undefinedX", KBool)), post("++", KInt), vInt(0))
	case 8: // post fails later
		set(xInt(0), xBin("<", v, xInt(hi+3)), tAssign(n, xBin("+", xBin("+", v, xInt(1)), xBin("*", xInt(0), xBin("/", xInt(9), xBin("-", xInt(hi), v))))), vInt(0))
		if r.IntN(2) == 0 {
			s.Post = tAssign(n, xTern(xBin("<", v, xInt(hi)), xBin("+", v, xInt(1)), xBin("+", xInt(1), xStr("a"))))
		}
	case 9: // post retypes
		set(xInt(0), xBin("<", v, xInt(hi)), tAssign(n, g.G.leaf([]VK{KStr, KFloat, KBool, KArr}[r.IntN(4)])), vInt(0))
		if r.IntN(2) == 0 {
			s.Post = tAssign(n, xTern(xBin("<", v, xInt(hi-1)), xBin("+", v, xInt(1)), xFloat(1.5)))
		}
	case 10: // ternary step and a condition over two names
		set(xInt(0), xTern(xBin("<", v, xInt(hi)), xArr(), xStr("")), tAssign(n, xTern(xBin("==", xBin("%", v, xInt(2)), xInt(0)), xBin("+", v, xInt(1)), xBin("+", v, xInt(2)))), vInt(0))
	case 11: // falsy or failing at the entry
		c := []*X{xNil(), xStr(""), xFloat(0), xBool(false), xInt(0), xVar("undefinedX", KInt), xBin("/", xInt(1), xInt(0))}[r.IntN(7)]
		set(xInt(0), c, post("++", KInt), vInt(0))
	default: // halves
		set(xInt(1<<hi), v, tAssign(n, xBin("/", v, xInt(2))), vInt(1))
	}
}

func (g *GS) eachLoop(d int) *St {
	s := &St{K: "each", Name: g.loopVar()}
	// the array: a data path, a literal, or a built-in on one
	var elem Val
	var arrs []struct {
		x *X
		e Val
	}
	for _, v := range g.vars() {
		if v.V.K == KArr && len(v.V.A) > 0 {
			arrs = append(arrs, struct {
				x *X
				e Val
			}{xVar(v.Name, KArr), v.V.A[0]})
		}
		if v.V.K == KObj {
			for _, n := range sortedKeys(v.V.O) {
				if c := v.V.O[n]; c.K == KArr && len(c.A) > 0 {
					arrs = append(arrs, struct {
						x *X
						e Val
					}{xDot(xVar(v.Name, KObj), n, KArr), c.A[0]})
				}
			}
		}
	}
	if len(arrs) > 0 && g.R.IntN(2) == 0 {
		a := arrs[g.R.IntN(len(arrs))]
		s.X, elem = a.x, a.e
	} else {
		ek := []VK{KInt, KInt, KStr, KBool, KObj, KFloat, KArr}[g.R.IntN(7)]
		a := xArr()
		n := g.R.IntN(5)
		if g.Loop == 0 && g.R.IntN(10) == 0 {
			n = 5 + g.R.IntN(6)
		}
		if g.Big && g.Loop == 0 {
			n = 20 + g.R.IntN(600)
		}
		elem = sampleVal(g.R, ek)
		for i := 0; i < n; i++ {
			switch {
			case ek == KObj || ek == KArr:
				a.A = append(a.A, xOf(elem))
			case n > 10:
				a.A = append(a.A, g.leaf(ek, i))
			default:
				a.A = append(a.A, g.expr(ek, 1))
			}
		}
		s.X = a
	}
	if g.R.IntN(5) == 0 { // the array comes out of an expression
		switch g.R.IntN(7) {
		case 0:
			s.X = xIdx(xArr(s.X), xInt(0), KArr)
		case 1:
			s.X = xIdx(xArr(xArr(xInt(1)), s.X), xInt(1), KArr)
		case 2:
			o := &X{Op: "obj", T: KObj, Keys: []string{"k", "list"}, A: []*X{xInt(1), s.X}}
			if s.X = xDot(o, "list", KArr); g.R.IntN(2) == 0 {
				s.X = xIdx(o, xStr("list"), KArr)
			}
		case 3:
			s.X = xTern(g.cond(1), s.X, s.X)
		case 4:
			s.X = xCall(s.X, "slice", KArr, xInt(0))
		case 5:
			s.X = xCall(s.X, "reverse", KArr)
		default:
			s.X = xCall(xCall(s.X, "reverse", KArr), "slice", KArr, xInt(1))
		}
	}
	if g.R.IntN(6) == 0 && g.R.Float64() < g.Faulty {
		s.X = g.expr([]VK{KInt, KStr, KObj, KNil, KBool}[g.R.IntN(5)], 1)
	}
	if g.R.IntN(3) == 0 {
		s.HasEl = true
		g.push()
		s.Else = g.Stmts(d-1, 1+g.R.IntN(2))
		g.pop()
	}
	g.push()
	g.bind(s.Name, elem)
	g.Loop++
	g.Each++
	s.Blocks = [][]*St{g.Block(d - 1)}
	g.Each--
	g.Loop--
	g.pop()
	return s
}
