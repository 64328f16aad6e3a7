package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"github.com/textwire/textwire/v2/fail"
)

type dirTree struct {
	Dir   string // relative to the working directory
	Ext   string
	Files map[string]string // name -> source
}

func (w *W) writeTree(t *dirTree) {
	names := sortedKeys(t.Files)
	if w.Round%2 == 1 { // the order of creation must not matter
		sort.Sort(sort.Reverse(sort.StringSlice(names)))
	}
	for _, n := range names {
		s := t.Files[n]
		p := filepath.Join(w.Dir, t.Dir, n+t.Ext)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	if len(t.Files) == 0 {
		os.MkdirAll(filepath.Join(w.Dir, t.Dir), 0o755)
	}
}

func (w *W) rmTree(t *dirTree) {
	if t.Dir != "" && !strings.HasPrefix(t.Dir, "/") {
		os.RemoveAll(filepath.Join(w.Dir, strings.SplitN(filepath.Clean(t.Dir), "/", 2)[0]))
	}
}

// load loads the tree; ok is false after a panic.
func (w *W) load(t *dirTree) (tpl *textwire.Template, err error, ok bool) {
	ok = w.Guard("NewTemplate "+t.dump(), func() {
		w.Evals++
		tpl, err = textwire.NewTemplate(&config.Config{TemplateDir: t.Dir, TemplateExt: t.Ext})
	})
	return
}

func (w *W) render(tpl *textwire.Template, t *dirTree, name string, data map[string]any) (out string, ferr *fail.Error, ok bool) {
	ok = w.Guard("String("+name+") "+t.dump(), func() {
		w.Evals++
		out, ferr = tpl.String(name, data)
	})
	return
}

func (t *dirTree) dump() string {
	var b strings.Builder
	for _, n := range sortedKeys(t.Files) {
		fmt.Fprintf(&b, "----- %s/%s%s\n%s\n", t.Dir, n, t.Ext, t.Files[n])
	}
	return b.String()
}

func ferrStr(e *fail.Error) string {
	if e == nil {
		return ""
	}
	return fmt.Sprintf("%s (line %d, file %s)", e.Message(), e.Line(), e.Filepath())
}

// ---- generated projects ----

// CompSig is a generated component.
type CompSig struct {
	Name  string
	Args  []GVar // names and sample values
	Slots []string
	File  *File
	Amb   string // a variable that the place of use has to bind
	AmbK  VK
}

var ambKinds = map[string]VK{"ambInt": KInt, "ambStr": KStr, "ambBool": KBool, "ambArr": KArr}

// Proj is a generated set of templates.
type Proj struct {
	Files map[string]*File
	Comps []*CompSig
	Pages []string
	Data  map[string]Val
	Vars  []GVar
	R     *rand.Rand
	// options
	Assign bool
}

func newProj(r *rand.Rand) *Proj {
	p := &Proj{Files: map[string]*File{}, R: r}
	p.Data, p.Vars = sampleData(r)
	if r.IntN(2) == 0 { // outer variables named like component arguments
		for j, a := range argPool {
			if r.IntN(2) == 0 {
				p.Data[a] = sampleVal(r, argKinds[j])
				p.Vars = append(p.Vars, GVar{a, p.Data[a]})
			}
		}
	}
	return p
}

func (p *Proj) add(f *File) { p.Files[f.Name] = f }

var argPool = []string{"title", "count", "flag", "items", "item_obj", "rate", "label", "amount", "caption", "blank"}
var argKinds = []VK{KStr, KInt, KBool, KArr, KObj, KFloat, KStr, KInt, KStr, KNil}

// genComp makes a component file.
func (p *Proj) genComp(i int) *CompSig {
	names := []string{"components/card", "components/ui/box", "widget", "components/list", "partials/x-y", "components/a.b"}
	if p.R.IntN(4) == 0 {
		names[i%len(names)] = []string{"components/~c", "components/c~d", "components/two words", "components/é-日", "components/components/in", "components/Card", "card", "layouts/comp"}[i%8]
	}
	c := &CompSig{Name: names[i%len(names)]}
	for j, a := range argPool {
		if p.R.IntN(3) == 0 {
			c.Args = append(c.Args, GVar{a, sampleVal(p.R, argKinds[j])})
		}
	}
	if p.R.IntN(3) > 0 {
		for _, s := range []string{"", "head", "foot", "a b", "Head", "head ", "default"} {
			if p.R.IntN(2) == 0 && (s != "head " && s != "default" || p.R.IntN(3) == 0) {
				c.Slots = append(c.Slots, s)
			}
		}
	}
	if p.R.IntN(12) == 0 { // long names
		for _, s := range []string{"a slot name that goes on and on and on and on and on for 64 letters A", "a slot name that goes on and on and on and on and on for 64 letters B"} {
			if p.R.IntN(2) == 0 {
				c.Slots = append(c.Slots, s)
			}
		}
	}
	if p.R.IntN(40) == 0 { // many
		for n := 5 + p.R.IntN(25); n > 0; n-- {
			c.Args = append(c.Args, GVar{"many_" + letters(n), sampleVal(p.R, argKinds[n%3])})
			if n%2 == 0 {
				c.Slots = append(c.Slots, "many "+letters(n))
			}
		}
	}
	var vars []GVar
	outer := p.R.IntN(5) == 0
	for _, v := range p.Vars {
		if outer || !slices.Contains(argPool, v.Name) {
			vars = append(vars, v)
		}
	}
	vars = append(vars, c.Args...)
	if p.R.IntN(4) == 0 {
		c.Amb = sortedKeys(ambKinds)[p.R.IntN(len(ambKinds))]
		c.AmbK = ambKinds[c.Amb]
		vars = append(vars, GVar{c.Amb, sampleVal(p.R, c.AmbK)})
	}
	g := newGS(p.R, vars)
	g.LoopNames = []string{"ci", "cj"}
	g.Prefix = "c_"
	g.NoShadow = true
	g.Budget = 12
	g.W = map[string]int{"text": 6, "print": 6, "if": 2, "each": 1, "for": 1, "comment": 1, "brk": 1}
	if p.R.IntN(2) == 0 {
		g.W["assign"] = 1
	}
	var left []string
	left = append(left, c.Slots...)
	if len(left) > 0 {
		g.W["special"] = 3
		g.Special = func(g *GS, d int) *St {
			if len(left) == 0 {
				return g.Text()
			}
			s := &St{K: "slot", Name: left[0], Quote: quote(p.R)}
			if p.R.IntN(8) > 0 {
				left = left[1:]
			}
			return s
		}
	}
	ss := g.Stmts(2, 2+p.R.IntN(5))
	for _, a := range c.Args {
		if p.R.IntN(2) == 0 {
			ss = append(ss, tText(a.Name+"="), tPrint(xVar(a.Name, a.V.K)), tText(";"))
		}
	}
	if c.Amb != "" {
		at := p.R.IntN(len(ss) + 1)
		ss = append(append(append([]*St{}, ss[:at]...), tText("amb "), tPrint(xVar(c.Amb, c.AmbK)), tText(".")), ss[at:]...)
	}
	for _, s := range left {
		ss = append(ss, tText("<"), &St{K: "slot", Name: s, Quote: quote(p.R)}, tText(">"))
	}
	if len(c.Slots) > 0 && p.R.IntN(6) == 0 { // many placeholders of one slot
		n := c.Slots[p.R.IntN(len(c.Slots))]
		for k := 2 + p.R.IntN(12); k > 0; k-- {
			s := &St{K: "slot", Name: n, Quote: quote(p.R)}
			if p.R.IntN(4) == 0 {
				s = tIf(xBool(p.R.IntN(3) > 0), s)
			}
			at := p.R.IntN(len(ss) + 1)
			ss = append(append(append([]*St{}, ss[:at]...), tText("<"), s, tText(">")), ss[at:]...)
		}
	}
	c.File = &File{c.Name, ss}
	p.add(c.File)
	p.Comps = append(p.Comps, c)
	return c
}

func quote(r *rand.Rand) byte {
	if r.IntN(2) == 0 {
		return '\''
	}
	return '"'
}

var wsPool = []string{"", " ", "\n", "\n    ", "\r\n\t"}

// useComp makes a use of a random component.
func (p *Proj) useComp(g *GS, d int) *St {
	c := p.Comps[p.R.IntN(len(p.Comps))]
	s := &St{K: "comp", Name: c.Name, Alias: p.R.IntN(2) == 0, Quote: quote(p.R)}
	if len(c.Args) > 0 || p.R.IntN(6) == 0 {
		s.Args = &X{Op: "obj", T: KObj}
		for _, i := range p.R.Perm(len(c.Args)) {
			a := c.Args[i]
			if _, outer := p.Data[a.Name]; (outer && p.R.IntN(4) == 0) || p.R.IntN(25) == 0 {
				continue
			}
			var x *X
			switch a.V.K {
			case KArr, KObj:
				x = xOf(a.V)
				if a.V.K == KArr {
					// other elements of the same kind
					if len(a.V.A) > 0 && p.R.IntN(2) == 0 {
						x = xCall(x, "append", KArr, xOf(a.V.A[0]))
					}
				}
			default:
				x = g.expr(a.V.K, 2)
				if p.R.IntN(3) == 0 {
					// a variable that may be named like an argument
					var same []string
					for _, v := range g.vars() {
						for _, n := range argPool {
							if v.V.K == a.V.K && v.Name == n {
								same = append(same, n)
							}
						}
					}
					if len(same) > 0 {
						x = xVar(same[p.R.IntN(len(same))], a.V.K)
					}
				}
			}
			s.Args.Keys = append(s.Args.Keys, a.Name)
			s.Args.A = append(s.Args.A, x)
		}
	}
	for _, i := range p.R.Perm(len(c.Slots)) {
		if p.R.IntN(4) == 0 {
			continue
		}
		sl := &SlotDef{Name: c.Slots[i], Ws: wsPool[p.R.IntN(len(wsPool))]}
		oa, oc, ol := g.Assign, g.NoCF, g.LoopNames
		sw := g.W["seq"]
		g.Assign, g.LoopNames = false, []string{"si", "sj"}
		if g.Hide == nil {
			g.Hide = map[string]int{}
		}
		for _, a := range c.Args {
			g.Hide[a.Name]++
		}
		g.W["seq"] = 0
		loop := g.Loop
		g.Loop = 0
		nd := d - 1
		sl.Body = g.Block(min(nd, 1))
		g.Loop = loop
		for _, a := range c.Args {
			g.Hide[a.Name]--
		}
		g.Assign, g.NoCF, g.LoopNames = oa, oc, ol
		g.W["seq"] = sw
		s.Slots = append(s.Slots, sl)
	}
	s.Inner = wsPool[p.R.IntN(len(wsPool))]
	if c.Amb != "" && p.R.IntN(30) > 0 {
		return p.bindAmb(c, s)
	}
	return s
}

// bindAmb puts the use into a construct that binds the variable which the
// component reads from the place of use, with several values.
func (p *Proj) bindAmb(c *CompSig, s *St) *St {
	val := func() *X {
		switch c.AmbK {
		case KInt:
			return xInt(int64(p.R.IntN(100)))
		case KStr:
			return xStr("s" + letters(p.R.IntN(700)))
		case KBool:
			return xBool(p.R.IntN(2) == 0)
		}
		return xArr(xInt(int64(p.R.IntN(9))), xInt(int64(p.R.IntN(9))))
	}
	v := xVar(c.Amb, c.AmbK)
	switch p.R.IntN(6) {
	case 0:
		if c.AmbK == KInt {
			return &St{K: "for", Init: tAssign(c.Amb, xInt(0)), X: xBin("<", v, xInt(int64(1+p.R.IntN(4)))), Post: tPrint(&X{Op: "post", Name: "++", A: []*X{v}, T: KInt}), Blocks: [][]*St{{s, tText("/")}}}
		}
	case 1: // nested: the inner value counts
		in := &St{K: "each", Name: c.Amb, X: xArr(val(), val()), Blocks: [][]*St{{s}}}
		return &St{K: "each", Name: c.Amb, X: xArr(val(), val()), Blocks: [][]*St{{in, tPrint(v), s}}}
	}
	a := xArr()
	for n := 1 + p.R.IntN(4); n > 0; n-- {
		a.A = append(a.A, val())
	}
	return &St{K: "each", Name: c.Amb, X: a, Blocks: [][]*St{{s, tText("/")}}}
}

// genLayout makes a layout with the given reserves.
func (p *Proj) genLayout(name string, reserves []string) {
	g := newGS(p.R, p.Vars)
	g.LoopNames = []string{"li", "lj"}
	g.Prefix = "l_"
	g.NoShadow = true
	g.Budget = 14
	g.W = map[string]int{"text": 6, "print": 3, "if": 2, "each": 1, "for": 1, "comment": 1, "special": 4, "brk": 1}
	if p.R.IntN(2) == 0 {
		g.W["assign"] = 1
	}
	left := append([]string{}, reserves...)
	g.Special = func(g *GS, d int) *St {
		if len(left) == 0 {
			return g.Text()
		}
		s := &St{K: "reserve", Name: left[0], Quote: quote(p.R)}
		left = left[1:]
		return s
	}
	ss := g.Stmts(2, 3+p.R.IntN(5))
	for _, n := range left {
		ss = append(ss, tText("["), &St{K: "reserve", Name: n, Quote: quote(p.R)}, tText("]"))
	}
	p.add(&File{name, ss})
}

// genPage makes a page; layout may be "".
func (p *Proj) genPage(name, layout string, reserves []string) {
	g := newGS(p.R, p.Vars)
	g.Budget = 25
	g.NoShadow = true
	if len(p.Comps) > 0 {
		g.W["comp"] = 6
		g.Comp = p.useComp
	}
	g.W["seq"] = 0
	if layout == "" {
		p.add(&File{name, g.Stmts(2+p.R.IntN(2), 2+p.R.IntN(5))})
		p.Pages = append(p.Pages, name)
		return
	}
	much := p.R.IntN(12) == 0
	var junk func() []*St
	junk = func() []*St {
		if much {
			much = false
			g.push()
			ss := g.Stmts(1, 4+p.R.IntN(12))
			g.pop()
			much = true
			return ss
		}
		switch p.R.IntN(4) {
		case 0:
			return []*St{tText("\n")}
		case 1:
			return []*St{g.Text()}
		case 2:
			return []*St{tText("JUNK"), tPrint(xInt(123456)), {K: "comment", Text: " c "}}
		}
		return nil
	}
	use := &St{K: "use", Name: layout, Alias: p.R.IntN(2) == 0, Quote: quote(p.R)}
	var ins []*St
	for _, i := range p.R.Perm(len(reserves)) {
		if p.R.IntN(5) == 0 {
			continue
		}
		s := &St{K: "insert", Name: reserves[i], Quote: quote(p.R)}
		if p.R.IntN(3) == 0 {
			s.X = g.expr(g.anyKind(), 2)
		} else {
			g.n += 100
			s.Blocks = [][]*St{g.Block(2)}
		}
		ins = append(ins, s)
	}
	ss := junk()
	at := 0
	if p.R.IntN(4) == 0 {
		at = p.R.IntN(len(ins) + 1)
	}
	for i := 0; i <= len(ins); i++ {
		if i == at {
			ss = append(ss, use)
			ss = append(ss, junk()...)
		}
		if i < len(ins) {
			ss = append(ss, ins[i])
			ss = append(ss, junk()...)
		}
	}
	p.add(&File{name, ss})
	p.Pages = append(p.Pages, name)
}

// plant puts a fault that shows when it is evaluated into one file in five
// projects; the reference decides which pages reach it.
func (p *Proj) plant(w *W) {
	if w.R.IntN(5) > 0 {
		return
	}
	names := sortedKeys(p.Files)
	f := p.Files[names[w.R.IntN(len(names))]]
	plantIn(w, &Gen{R: w.R}, f.Stmts)
	w.Feat("planted")
}

// static tells that a file of the project cannot be parsed.
func (p *Proj) static() bool {
	for _, f := range p.Files {
		if staticFault(f.Stmts) {
			return true
		}
	}
	return false
}

// print writes the project as a tree of sources.
func (p *Proj) tree(dir, ext string) *dirTree {
	t := &dirTree{Dir: dir, Ext: ext, Files: map[string]string{}}
	for _, n := range sortedKeys(p.Files) {
		src, _ := Source(p.R, randStyle(p.R), p.Files[n].Stmts)
		t.Files[n] = src
	}
	return t
}

func (p *Proj) ref(page string) (Outcome, map[string]int) {
	in := &Interp{Files: p.Files, Feats: map[string]int{}}
	return RunRef(in, p.Files[page].Stmts, p.Data), in.Feats
}

var extPool = []string{".tw.html", ".tw", ".tw.html", ".html.tw", ".t"}

// checkPages renders every page and compares with the reference.
func (p *Proj) checkPages(w *W, tpl *textwire.Template, t *dirTree, rounds int, nontrivial func(map[string]int) bool) bool {
	gd := goData(p.Data)
	for r := 0; r < rounds; r++ {
		for _, n := range p.Pages {
			o, feats := p.ref(n)
			if o.Ambig != "" {
				w.Skip(strings.SplitN(o.Ambig, ":", 2)[0])
				continue
			}
			if o.Fuzzy {
				w.Skip("spelling of a float")
				continue
			}
			out, ferr, fine := w.render(tpl, t, n, gd)
			if !fine {
				return false
			}
			var err error
			if ferr != nil {
				err = ferr.Error()
			}
			if why := judge(o, out, err); why != "" {
				w.Fail(why, "template", t.dump(), "page", n, "data", string(mustJSON2(gd)), "expected", o.Out+o.Kind, "got", out, "error", ferrStr(ferr))
				return false
			}
			for k := range feats {
				w.Feat(k)
			}
			if r == 0 && nontrivial(feats) {
				w.Key(shapeOf(p.Files[n].Stmts) + strings.Join(sortedKeys(feats), ",") + o.Kind)
			}
			if o.Fail {
				w.Feat("must-fail: " + o.Kind)
			} else {
				w.Feat("rendered")
			}
		}
	}
	return true
}
