package main

import (
	"fmt"
	"strings"
	"sync"

	textwire "github.com/textwire/textwire/v2"
)

// stmtCase renders ss in a few layouts and compares with the reference.
func stmtCase(w *W, ss []*St, data map[string]Val, layouts int, key bool) (o Outcome, done bool) {
	in := &Interp{Feats: map[string]int{}}
	o = RunRef(in, ss, data)
	if staticFault(ss) {
		o = Outcome{Fail: true, Kind: "integer literal out of range"}
	}
	if o.Ambig != "" {
		w.Skip(strings.SplitN(o.Ambig, ":", 2)[0])
		return o, false
	}
	if o.Fuzzy {
		w.Skip("spelling of a float")
		return o, false
	}
	gd := goData(data)
	for l := 0; l < layouts; l++ {
		src, _ := Source(w.R, randStyle(w.R), ss)
		out, err, fine := w.Eval(src, gd)
		if !fine {
			return o, false
		}
		if l == 0 {
			w.Sample(src + "   =>   " + o.Out + o.Kind)
		}
		if why := judge(o, out, err); why != "" {
			w.Fail(why, "template", src, "data", string(mustJSON2(gd)), "expected", o.Out+o.Kind, "got", out, "error", errStr(err))
			return o, false
		}
	}
	for k := range in.Feats {
		w.Feat(k)
	}
	if o.Fail {
		w.Feat("must-fail: " + o.Kind)
	} else {
		w.Feat("rendered")
	}
	if key {
		fs := strings.Join(sortedKeys(in.Feats), ",")
		w.Key(shapeOf(ss) + "|" + fs + "|" + o.Kind)
	}
	return o, true
}

// plantIn puts a fault into a random expression of ss.
func plantIn(w *W, g *Gen, ss []*St) {
	var xs []**X
	eachX(ss, func(x **X) { xs = append(xs, x) })
	if len(xs) == 0 {
		return
	}
	x := xs[w.R.IntN(len(xs))]
	if (*x).Op == "post" {
		return
	}
	*x, _ = g.Plant(*x)
}

func init() {
	register(&Prop{
		ID: "C02", Quick: 150000, Thorough: 1500000,
		Rule:        "random trees of @if/@elseif/@else (nested to depth 4, 1 in 60 to depth 45, 1 in 100 with chains of up to 65 branches; inside loops too) whose conditions have every type and truthiness, 1 in 3 with a fault planted in some condition or body that may or may not be reached; 1 in 16 is a nest of chains whose conditions and bodies call a recording function, so that an evaluation that leaves no other trace is seen; non-trivial = has an @if, @breakIf, @continueIf or ternary; distinct = nesting skeleton + branches taken + failure kind",
		Assumptions: []string{"the reference interpreter implements the property text"},
		Setup:       c02Setup,
		Run: func(w *W, i int) {
			if i%16 == 15 {
				c02Ticks(w)
				return
			}
			data, vars := sampleData(w.R)
			g := newGS(w.R, vars)
			g.W = map[string]int{"text": 5, "print": 3, "if": 9, "each": 1, "for": 1, "brk": 2, "comment": 1, "assign": 1}
			g.Budget = 6 + w.R.IntN(30)
			if w.R.IntN(100) == 0 {
				g.Big = true
				w.Feat("long")
			}
			ss := g.Stmts(1+w.R.IntN(4), 1+w.R.IntN(4))
			if w.R.IntN(60) == 0 { // deep
				for d := 5 + w.R.IntN(40); d > 0; d-- {
					s := &St{K: "if", Conds: []*X{xOf(sampleVal(w.R, VK(1+w.R.IntN(5))))}, Blocks: [][]*St{{tText("a"), {K: "comment", Text: "-"}}}, HasEl: true, Else: []*St{tText(" b")}}
					if w.R.IntN(2) == 0 {
						s.Blocks[0] = append(s.Blocks[0], ss...)
					} else {
						s.Else = append(s.Else, ss...)
					}
					ss = []*St{tText("<"), s, tText(">")}
				}
				w.Feat("deep")
			}
			if w.R.IntN(3) == 0 {
				g.G.Vars = vars
				plantIn(w, g.G, ss)
			}
			if w.R.IntN(4) == 0 {
				// truthiness table: each kind of value in each kind of place
				ss = append(ss, truthTable(w, g)...)
			}
			stmtCase(w, ss, data, 2, strings.Contains(shapeOf(ss), "if"))
		},
	})
}

func truthTable(w *W, g *GS) []*St {
	var ss []*St
	vals := []*X{xBool(false), xBool(true), xNil(), xInt(0), xInt(1), xInt(-1), xFloat(0), xFloat(0.5), xFloat(-0.001), xStr(""), xStr("0"), xStr(" "), xStr("\x00"), xStr("\n"), xStr("nil"), xStr("\x00\x00"), xStr("\u200b"), xStr("\xff"), xInt(256), xInt(1 << 32), xInt(-1<<63 + 1), xFloat(5e-324), xStr("false"), xArr(), xArr(xInt(0)), {Op: "obj", T: KObj}, {Op: "obj", Keys: []string{"a"}, A: []*X{xNil()}, T: KObj}, xBin("-", xInt(2), xInt(2)), xBin("-", xFloat(0.5), xFloat(0.5)), xUn("-", xFloat(0)), xUn("!", xBool(true))}
	v := vals[w.R.IntN(len(vals))]
	ss = append(ss, &St{K: "if", Conds: []*X{v}, Blocks: [][]*St{{tText("T")}}, HasEl: true, Else: []*St{tText("F")}})
	ss = append(ss, &St{K: "if", Conds: []*X{xBool(false), v}, Blocks: [][]*St{{tText("x")}, {tText("T")}}})
	ss = append(ss, tPrint(xTern(v, xStr("t"), xStr("f"))))
	ss = append(ss, &St{K: "each", Name: "q", X: xArr(xInt(1), xInt(2)), Blocks: [][]*St{{tPrint(xVar("q", KInt)), {K: "breakif", X: v}, tText("y")}}})
	ss = append(ss, &St{K: "for", Init: tAssign("z", xInt(0)), X: xBin("<", xVar("z", KInt), xInt(2)), Post: tPrint(&X{Op: "post", Name: "++", A: []*X{xVar("z", KInt)}, T: KInt}),
		Blocks: [][]*St{{tPrint(xVar("z", KInt)), {K: "contif", X: v}, tText("y")}}})
	return ss
}

// ---- which conditions and bodies are evaluated ----

var c02Log struct {
	sync.Mutex
	ids []int
}

func c02Setup(w *W) {
	rec := func(args []any) {
		c02Log.Lock()
		defer c02Log.Unlock()
		id := -1
		if len(args) > 0 {
			switch n := args[0].(type) {
			case int:
				id = n
			case int64:
				id = int(n)
			}
		}
		c02Log.ids = append(c02Log.ids, id)
	}
	must(textwire.RegisterStrFunc("vhtick", func(s string, a ...any) string { rec(a); return s }))
	must(textwire.RegisterIntFunc("vhtick", func(n int, a ...any) int { rec(a); return n }))
	must(textwire.RegisterFloatFunc("vhtick", func(n float64, a ...any) float64 { rec(a); return n }))
	must(textwire.RegisterBoolFunc("vhtick", func(b bool, a ...any) bool { rec(a); return b }))
	must(textwire.RegisterArrFunc("vhtick", func(x []any, a ...any) []any { rec(a); return x }))
}

type c02Nest struct {
	w     *W
	next  int
	b     strings.Builder
	out   strings.Builder
	calls []int
}

// chain writes an @if chain; live tells whether it is reached.
func (k *c02Nest) chain(depth int, live bool) {
	r := k.w.R
	n := 1 + r.IntN(5)
	chosen := -1
	cond := func(truthy bool) string {
		id := k.next
		k.next++
		v := []string{"false", "0", "0.0", "''", "f", "z", "e", "(1 == 2)", "(0.5 - 0.5)"}
		if truthy {
			v = []string{"true", "1", "0.5", "'x'", "t", "n", "s", "[]", "[0]", "(1 == 1)", "l", "' '", "m"}
		}
		return fmt.Sprintf("%s.vhtick(%d)", v[r.IntN(len(v))], id)
	}
	body := func(live bool) {
		m := fmt.Sprintf("<%d>", k.next)
		k.b.WriteString(m)
		if live {
			k.out.WriteString(m)
		}
		if r.IntN(3) == 0 {
			id := k.next
			k.next++
			fmt.Fprintf(&k.b, "{{ 'p'.vhtick(%d) }}", id)
			if live {
				k.calls = append(k.calls, id)
				k.out.WriteString("p")
			}
		}
		if depth > 0 && r.IntN(3) == 0 {
			k.chain(depth-1, live)
		}
		k.b.WriteString(";")
		if live {
			k.out.WriteString(";")
		}
	}
	for j := 0; j < n; j++ {
		id := k.next
		truthy := r.IntN(3) == 0
		c := cond(truthy)
		fmt.Fprintf(&k.b, "%s(%s)", map[bool]string{true: "@if", false: "@elseif"}[j == 0], c)
		if live && chosen < 0 {
			k.calls = append(k.calls, id)
		}
		here := truthy && chosen < 0
		if here {
			chosen = j
		}
		body(live && here)
	}
	if r.IntN(2) == 0 {
		k.b.WriteString("@else")
		body(live && chosen < 0)
	}
	k.b.WriteString("@end")
	k.w.Feat(fmt.Sprintf("recorded chain: branch %d of %d", chosen, n))
}

func c02Ticks(w *W) {
	k := &c02Nest{w: w}
	for n := 1 + w.R.IntN(3); n > 0; n-- {
		k.b.WriteString("[")
		k.out.WriteString("[")
		k.chain(w.R.IntN(4), true)
		k.b.WriteString("]")
		k.out.WriteString("]")
	}
	data := map[string]any{"f": false, "z": 0, "e": "", "t": true, "n": 7, "s": "s", "l": []int{}, "m": -0.5}
	c02Log.ids = nil
	src := k.b.String()
	out, err, fine := w.Eval(src, data)
	if !fine {
		return
	}
	w.Key(src)
	w.Sample(src + "   =>   " + k.out.String())
	if err != nil || out != k.out.String() {
		w.Fail("wrong output", "template", src, "expected", k.out.String(), "got", out, "error", errStr(err))
		return
	}
	if fmt.Sprint(c02Log.ids) != fmt.Sprint(k.calls) {
		w.Fail("other conditions or bodies are evaluated", "template", src, "expected", fmt.Sprint(k.calls), "got", fmt.Sprint(c02Log.ids))
	}
}
