package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// St is a statement of the reference language.
type St struct {
	K      string // text print assign seq if for each break continue breakif contif comp slot reserve insert use comment
	Text   string
	X      *X
	Name   string
	Conds  []*X
	Blocks [][]*St // if branches; body of loops and inserts in Blocks[0]
	Else   []*St
	HasEl  bool
	Init   *St
	Post   *St
	Args   *X // obj
	Slots  []*SlotDef
	Alias  bool // component or layout written with ~
	Seq    []*St
	Quote  byte
	Inner  string // whitespace between a component and its slots
}

// SlotDef is a slot body passed to a component.
type SlotDef struct {
	Name string
	Body []*St
	Ws   string // whitespace before the slot
}

// File is a template file.
type File struct {
	Name  string
	Stmts []*St
}

func tText(s string) *St         { return &St{K: "text", Text: s} }
func tPrint(x *X) *St            { return &St{K: "print", X: x} }
func tAssign(n string, x *X) *St { return &St{K: "assign", Name: n, X: x} }
func tIf(c *X, body ...*St) *St  { return &St{K: "if", Conds: []*X{c}, Blocks: [][]*St{body}} }

// ---- printing ----

func (p *Pr) stmts(ss []*St) {
	for _, s := range ss {
		p.stmt(s)
	}
}

// dirParen prints ( args ).
func (p *Pr) dirParen(body func()) {
	p.raw("(")
	p.span(func() {
		body()
		p.B.WriteString(p.space())
		p.Tok = append(p.Tok, p.B.Len())
		p.raw(")")
	})
}

func (p *Pr) code(s *St) {
	switch s.K {
	case "print":
		p.paren(s.X, false)
	case "assign":
		p.tok(s.Name)
		p.mark(s)
		p.tok("=")
		p.paren(s.X, false)
	default:
		panic("code " + s.K)
	}
}

func (p *Pr) str(s string, q byte) {
	if q == 0 {
		q = '"'
	}
	p.tok(string(q) + s + string(q))
}

func (p *Pr) dir(s *St, name string) {
	p.raw("@" + name)
	p.mark(s)
}

// needsParens are the directives that need an argument list.
var needsParens = map[string]bool{"if": true, "for": true, "each": true, "reserve": true, "use": true, "insert": true, "dump": true, "breakif": true, "contif": true}

func (p *Pr) stmt(s *St) {
	if !needsParens[s.K] {
		p.stmt1(s)
		return
	}
	i := len(p.Iv)
	p.Iv = append(p.Iv, [2]int{})
	from := p.B.Len()
	p.stmt1(s)
	// the construct is recognised at the end of its keyword
	kw := from
	for kw++; kw < p.B.Len() && isLetter(p.B.String()[kw]); {
		kw++
	}
	p.Iv[i] = [2]int{kw, p.B.Len()}
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func (p *Pr) stmt1(s *St) {
	switch s.K {
	case "text":
		p.raw(s.Text)
	case "comment":
		p.raw("{{")
		p.span(func() { p.raw("--" + s.Text + "--}}") })
	case "print", "assign":
		p.braces(func() { p.code(s) })
	case "seq":
		p.braces(func() {
			for i, c := range s.Seq {
				if i > 0 {
					p.tok(";")
				}
				p.code(c)
			}
		})
	case "if":
		for i, c := range s.Conds {
			if i == 0 {
				p.dir(s, "if")
			} else {
				p.raw("@elseif")
			}
			p.dirParen(func() { p.paren(c, false) })
			p.stmts(s.Blocks[i])
		}
		if s.HasEl {
			p.raw("@else")
			p.stmts(s.Else)
		}
		p.raw("@end")
	case "for":
		p.dir(s, "for")
		p.dirParen(func() {
			if s.Init != nil {
				p.code(s.Init)
			}
			p.tok(";")
			p.paren(s.X, false)
			p.tok(";")
			if s.Post != nil {
				p.code(s.Post)
			}
		})
		p.stmts(s.Blocks[0])
		if s.HasEl {
			p.raw("@else")
			p.stmts(s.Else)
		}
		p.raw("@end")
	case "each":
		p.dir(s, "each")
		p.dirParen(func() {
			p.tok(s.Name)
			p.tok("in")
			p.paren(s.X, false)
		})
		p.stmts(s.Blocks[0])
		if s.HasEl {
			p.raw("@else")
			p.stmts(s.Else)
		}
		p.raw("@end")
	case "dump":
		p.dir(s, "dump")
		p.dirParen(func() { p.list(s.Args.A) })
	case "for9":
		p.dir(s, "for")
		p.dirParen(func() {
			if s.Init != nil {
				p.code(s.Init)
			}
			p.tok(";")
			if s.X != nil {
				p.paren(s.X, false)
			}
			p.tok(";")
			if s.Post != nil {
				p.code(s.Post)
			}
		})
		p.stmts(s.Blocks[0])
		if s.HasEl {
			p.raw("@else")
			p.stmts(s.Else)
		}
		p.raw("@end")
	case "break", "continue":
		p.dir(s, s.K)
	case "breakif", "contif":
		p.dir(s, map[string]string{"breakif": "breakIf", "contif": "continueIf"}[s.K])
		p.dirParen(func() { p.paren(s.X, false) })
	case "comp":
		p.dir(s, "component")
		p.dirParen(func() {
			p.str(aliasName(s.Name, s.Alias, "components/"), s.Quote)
			if s.Args != nil {
				p.tok(",")
				p.expr(s.Args)
			}
		})
		// complete after its arguments, and again with its slots
		p.Iv = append(p.Iv, [2]int{p.End[s], p.B.Len()})
		if len(s.Slots) > 0 {
			iv := len(p.Iv)
			p.Iv = append(p.Iv, [2]int{p.B.Len() + len(s.Slots[0].Ws) + len("@slot"), 0})
			defer func() { p.Iv[iv][1] = p.B.Len() }()
			for _, sl := range s.Slots {
				p.raw(sl.Ws)
				p.raw("@slot")
				p.mark(sl)
				if sl.Name != "" {
					p.dirParen(func() { p.str(sl.Name, s.Quote) })
				}
				p.stmts(sl.Body)
				p.raw("@end")
			}
			p.raw(s.Inner)
			p.raw("@end")
		}
	case "slot":
		p.dir(s, "slot")
		if s.Name != "" {
			p.dirParen(func() { p.str(s.Name, s.Quote) })
		}
	case "reserve":
		p.dir(s, "reserve")
		p.dirParen(func() { p.str(s.Name, s.Quote) })
	case "use":
		p.dir(s, "use")
		p.dirParen(func() { p.str(aliasName(s.Name, s.Alias, "layouts/"), s.Quote) })
	case "insert":
		p.dir(s, "insert")
		p.dirParen(func() {
			p.str(s.Name, s.Quote)
			if s.X != nil {
				p.tok(",")
				p.paren(s.X, false)
			}
		})
		if s.X == nil {
			p.stmts(s.Blocks[0])
			p.raw("@end")
		}
	default:
		panic("stmt " + s.K)
	}
}

func aliasName(n string, alias bool, dir string) string {
	if alias && strings.HasPrefix(n, dir) {
		return "~" + strings.TrimPrefix(n, dir)
	}
	return n
}

// Source prints ss.
func Source(r *rand.Rand, st Style, ss []*St) (string, *Pr) {
	p := newPr(r, st)
	p.stmts(ss)
	return p.B.String(), p
}

func randStyle(r *rand.Rand) Style {
	st := Style{Spaces: r.IntN(4)}
	if r.IntN(3) == 0 {
		st.Parens = 0.2
	}
	if r.IntN(5) == 0 {
		st.NL = "\r\n"
	}
	return st
}

// ---- interpretation ----

type signal int

const (
	sNone signal = iota
	sBreak
	sContinue
)

type slotCtx struct {
	bodies map[string][]*St
	outer  *slotCtx
}

func (in *Interp) block(ss []*St, out *strings.Builder) signal {
	for _, s := range ss {
		if sig := in.st(s, out); sig != sNone {
			return sig
		}
	}
	return sNone
}

func (in *Interp) scoped(kind string, fn func() signal) signal {
	old := in.Env
	in.Env = newEnv(old, kind)
	defer func() { in.Env = old }()
	return fn()
}

func (in *Interp) print(v Val, out *strings.Builder) {
	if v.hasFuzzy() {
		in.Fuzzy = true
	}
	s := v.Print()
	if out.Len()+len(s) > 1<<20 {
		panic(ambiguous{"output too long"})
	}
	out.WriteString(s)
}

func (in *Interp) st(s *St, out *strings.Builder) signal {
	in.tick()
	switch s.K {
	case "text":
		out.WriteString(s.Text)
	case "comment", "insert":
	case "print":
		in.print(in.ex(s.X), out)
	case "assign":
		v := in.ex(s.X)
		if why := in.Env.set(s.Name, v, true); why != "" {
			failAt(s, why)
		}
	case "seq":
		for _, c := range s.Seq {
			in.st(c, out)
		}
	case "if":
		for i, c := range s.Conds {
			if in.ex(c).Truthy() {
				in.feat(fmt.Sprintf("if branch %d", min(i, 3)))
				return in.scoped("if", func() signal { return in.block(s.Blocks[i], out) })
			}
		}
		if s.HasEl {
			in.feat("if else")
			return in.scoped("if", func() signal { return in.block(s.Else, out) })
		}
		in.feat("if none")
	case "for":
		return in.scoped("for", func() signal {
			if s.Init != nil {
				in.code(s.Init)
			}
			if !in.ex(s.X).Truthy() {
				if s.HasEl {
					in.feat("for else")
					return in.block(s.Else, out)
				}
				return sNone
			}
			for n := 0; ; n++ {
				if n > 2500 {
					panic(ambiguous{"long loop"})
				}
				in.Env.pass = n
				sig := in.block(s.Blocks[0], out)
				if sig != sNone {
					in.feat(fmt.Sprintf("for signal %d", sig))
				}
				if sig == sBreak {
					break
				}
				in.code(s.Post)
				if !in.ex(s.X).Truthy() {
					break
				}
			}
			return sNone
		})
	case "each":
		return in.scoped("each", func() signal {
			a := in.ex(s.X)
			if a.K != KArr {
				failAt(s.X, "iterating "+a.K.String())
			}
			if len(a.A) == 0 {
				if s.HasEl {
					in.feat("each else")
					return in.block(s.Else, out)
				}
				return sNone
			}
			for _, e := range a.A {
				if e.K != a.A[0].K {
					panic(ambiguous{"array of mixed types is iterated"})
				}
			}
			for i, e := range a.A {
				in.Env.pass = i
				if why := in.Env.set(s.Name, e, false); why != "" {
					failAt(s, why)
				}
				in.Env.m["loop"] = &bind{vObj(map[string]Val{
					"index": vInt(int64(i)), "iter": vInt(int64(i + 1)),
					"first": vBool(i == 0), "last": vBool(i == len(a.A)-1)}), -1}
				sig := in.block(s.Blocks[0], out)
				if sig != sNone {
					in.feat(fmt.Sprintf("each signal %d", sig))
				}
				if sig == sBreak {
					break
				}
			}
			return sNone
		})
	case "break":
		return sBreak
	case "continue":
		return sContinue
	case "breakif":
		if in.ex(s.X).Truthy() {
			return sBreak
		}
	case "contif":
		if in.ex(s.X).Truthy() {
			return sContinue
		}
	case "comp":
		f := in.Files[s.Name]
		if f == nil {
			failAt(s, "missing component")
		}
		in.feat("component")
		args := map[string]Val{}
		if s.Args != nil {
			for i, k := range s.Args.Keys {
				args[k] = in.ex(s.Args.A[i])
			}
		}
		bodies := map[string][]*St{}
		for _, sl := range s.Slots {
			bodies[sl.Name] = sl.Body
		}
		sig := in.scoped("comp", func() signal {
			for _, k := range sortedKeys(args) {
				if k == "loop" {
					failAt(s, "loop is reserved")
				}
				if b := in.Env.visible(k); b != nil && b.v.K != args[k].K {
					panic(ambiguous{"component argument of another type than a visible name"})
				}
				in.Env.m[k] = &bind{args[k], -1}
			}
			old := in.slots
			in.slots = &slotCtx{bodies, old}
			defer func() { in.slots = old }()
			return in.block(f.Stmts, out)
		})
		if sig != sNone {
			panic(ambiguous{"control flow out of a component"})
		}
	case "slot":
		if in.slots == nil {
			return sNone
		}
		if b, found := in.slots.bodies[s.Name]; found {
			in.feat("slot filled")
			old := in.slots
			in.slots = old.outer
			defer func() { in.slots = old }()
			if in.scoped("slot", func() signal { return in.block(b, out) }) != sNone {
				panic(ambiguous{"control flow out of a slot"})
			}
		} else {
			in.feat("slot empty")
		}
	case "reserve":
		ins := in.inserts[s.Name]
		if ins == nil {
			in.feat("reserve empty")
			return sNone
		}
		in.feat("reserve filled")
		if ins.X != nil {
			in.print(in.ex(ins.X), out)
			return sNone
		}
		if in.block(ins.Blocks[0], out) != sNone {
			panic(ambiguous{"control flow out of an insert"})
		}
	case "use":
	default:
		panic("exec " + s.K)
	}
	return sNone
}

// code runs the init or post clause of a loop.
func (in *Interp) code(s *St) {
	if s == nil {
		return
	}
	if s.K == "assign" {
		v := in.ex(s.X)
		if why := in.Env.set(s.Name, v, false); why != "" {
			failAt(s, why)
		}
		return
	}
	// i++ and i--
	v := in.ex(s.X)
	if s.X.Op == "post" && s.X.A[0].Op == "var" {
		if why := in.Env.set(s.X.A[0].Name, v, false); why != "" {
			failAt(s, why)
		}
	}
}

// Outcome is what the reference expects from a render.
type Outcome struct {
	Out   string
	Fail  bool
	Kind  string
	At    any
	Ambig string
	Fuzzy bool
}

// RunRef interprets ss with data.
func RunRef(in *Interp, ss []*St, data map[string]Val) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case evalFail:
				o = Outcome{Fail: true, Kind: e.Kind, At: e.X}
			case ambiguous:
				o = Outcome{Ambig: e.Why}
			default:
				panic(r)
			}
		}
	}()
	in.Env = newEnv(nil, "root")
	for k, v := range data {
		if why := in.Env.set(k, v, false); why != "" {
			return Outcome{Fail: true, Kind: why}
		}
	}
	var out strings.Builder
	body := ss
	for _, s := range ss {
		if s.K == "use" {
			l := in.Files[s.Name]
			if l == nil {
				return Outcome{Fail: true, Kind: "missing layout"}
			}
			in.inserts = map[string]*St{}
			collectInserts(ss, in.inserts)
			body = l.Stmts
		}
	}
	if in.block(body, &out) != sNone {
		return Outcome{Ambig: "control flow outside of loops"}
	}
	return Outcome{Out: out.String(), Fuzzy: in.Fuzzy}
}

func collectInserts(ss []*St, m map[string]*St) {
	for _, s := range ss {
		if s.K == "insert" {
			m[s.Name] = s
		}
	}
}

func goData(d map[string]Val) map[string]any {
	m := map[string]any{}
	for k, v := range d {
		m[k] = v.Go()
	}
	return m
}

// eachX visits the expressions of the statements.
func eachX(ss []*St, fn func(x **X)) {
	for _, s := range ss {
		if s.X != nil {
			fn(&s.X)
		}
		for i := range s.Conds {
			fn(&s.Conds[i])
		}
		if s.Args != nil {
			for i := range s.Args.A {
				fn(&s.Args.A[i])
			}
		}
		if s.Init != nil {
			eachX([]*St{s.Init}, fn)
		}
		if s.Post != nil {
			eachX([]*St{s.Post}, fn)
		}
		for _, b := range s.Blocks {
			eachX(b, fn)
		}
		eachX(s.Else, fn)
		eachX(s.Seq, fn)
		for _, sl := range s.Slots {
			eachX(sl.Body, fn)
		}
	}
}

func staticFault(ss []*St) bool {
	f := false
	eachX(ss, func(x **X) { f = f || (*x).staticFault() })
	return f
}

// shapeOf is the nesting skeleton of the statements.
func shapeOf(ss []*St) string {
	var b strings.Builder
	var rec func(ss []*St)
	rec = func(ss []*St) {
		for _, s := range ss {
			b.WriteString(s.K[:2])
			for _, bl := range s.Blocks {
				b.WriteByte('[')
				rec(bl)
				b.WriteByte(']')
			}
			if s.HasEl {
				b.WriteByte('<')
				rec(s.Else)
				b.WriteByte('>')
			}
			for _, sl := range s.Slots {
				b.WriteByte('(')
				rec(sl.Body)
				b.WriteByte(')')
			}
		}
	}
	rec(ss)
	return b.String()
}
