package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C03", Quick: 150000, Thorough: 1500000,
		Rule:        "enumerated: arrays and counts of 255..100003 passes in 7 forms of loops, every pass checked; random nests of @each/@for (depth to 4) over arrays of every element type and length 0..4 (1 in 100: arrays and loops of up to 1200 passes; 1 in 60: nested to depth 20), with loop.* printed, @break/@continue/@breakIf/@continueIf under nested @ifs and in @else bodies, faults planted 1 in 6; non-trivial = has a loop; distinct = nesting skeleton + loop events + failure kind",
		Assumptions: []string{"the reference interpreter implements the property text", "bindings made by a loop body are assumed neither to survive nor to vanish between two passes (cases that depend on it are discarded)"},
		Run: func(w *W, i int) {
			if i < len(c03Sizes)*c03Forms {
				c03Long(w, c03Sizes[i/c03Forms], i%c03Forms)
				return
			}
			data, vars := sampleData(w.R)
			g := newGS(w.R, vars)
			g.W = map[string]int{"text": 5, "print": 5, "if": 3, "each": 5, "for": 4, "brk": 5, "assign": 1, "comment": 1}
			g.Budget = 8 + w.R.IntN(30)
			if w.R.IntN(6) == 0 {
				g.Faulty = 0.3
			}
			if w.R.IntN(100) == 0 {
				g.Big = true
				g.Budget = 6
				w.Feat("long")
			}
			ss := g.Stmts(2+w.R.IntN(3), 1+w.R.IntN(3))
			if w.R.IntN(100) == 0 { // wide: many statements before the last one of a body
				var bodies []*[]*St
				var find func(ss []*St)
				find = func(ss []*St) {
					for _, s := range ss {
						for k := range s.Blocks {
							if len(s.Blocks[k]) > 0 {
								bodies = append(bodies, &s.Blocks[k])
							}
							find(s.Blocks[k])
						}
						find(s.Else)
					}
				}
				find(ss)
				if len(bodies) > 0 {
					b := bodies[w.R.IntN(len(bodies))]
					var pre []*St
					for n := 20 + w.R.IntN(400); n > 0; n-- {
						pre = append(pre, tPrint(xInt(int64(n%10))))
					}
					at := w.R.IntN(len(*b))
					*b = append(append(append([]*St{}, (*b)[:at]...), pre...), (*b)[at:]...)
					w.Feat("wide")
				}
			}
			if w.R.IntN(60) == 0 { // deep
				n := 0
				for d := 5 + w.R.IntN(12); d > 0; d-- {
					n++
					a := xArr(xInt(int64(d)))
					if d%4 == 0 {
						a.A = append(a.A, xInt(0))
					}
					l := &St{K: "each", Name: "deep" + letters(n), X: a, Blocks: [][]*St{append(append([]*St{tText("(")}, ss...), tPrint(xDot(xVar("loop", KObj), "iter", KInt)), tPrint(xVar("deep"+letters(n), KInt)), tText(")"))}}
					if d%5 == 0 {
						v := xVar("deep"+letters(n), KInt)
						l = &St{K: "for", Init: tAssign(v.Name, xInt(0)), X: xBin("<", v, xInt(1)), Post: tPrint(&X{Op: "post", Name: "++", A: []*X{v}, T: KInt}), Blocks: [][]*St{append(append([]*St{}, ss...), tPrint(v))}}
					}
					ss = []*St{l}
				}
				w.Feat("deep")
			}
			if w.R.IntN(2) == 0 {
				ss = append(ss, metaLoop(w, g)...)
			}
			if w.R.IntN(6) == 0 {
				g.G.Vars = vars
				plantIn(w, g.G, ss)
			}
			sh := shapeOf(ss)
			stmtCase(w, ss, data, 2, strings.Contains(sh, "ea") || strings.Contains(sh, "fo"))
		},
	})
}

var c03Sizes = []int{1, 2, 255, 256, 257, 999, 1000, 1001, 1024, 1025, 2049, 4097, 10001, 32769, 65535, 65536, 65537, 100003}

const c03Forms = 7

// c03Long checks every pass of one long loop.
func c03Long(w *W, n, form int) {
	var src string
	var want strings.Builder
	ints, strs := make([]int, n), make([]string, n)
	for i := range ints {
		ints[i], strs[i] = i*7%1000, letters(i)
	}
	data := map[string]any{"a": ints, "s": strs, "n": n, "two": []int{1, 2}}
	b := func(v bool) string {
		if v {
			return "1"
		}
		return "0"
	}
	meta := func(i int) string { return fmt.Sprint("(", i, " ", i+1, " ", b(i == 0), b(i == n-1), ")") }
	m := "({{ loop.index }} {{ loop.iter }} {{ loop.first }}{{ loop.last }})"
	switch form {
	case 0:
		src = "@each(v in a)" + m + "{{ v }};@else none@end"
		for i, v := range ints {
			want.WriteString(meta(i) + fmt.Sprint(v, ";"))
		}
	case 1: // a loop in every pass, the metadata restored after it
		src = "@each(v in s)@each(t in two){{ loop.index }}{{ loop.last }}@end" + m + "{{ v }};@end"
		for i, v := range strs {
			want.WriteString("0011" + meta(i) + v + ";")
		}
	case 2: // continue in all passes but some
		src = "@each(v in a){{ v }}@continueIf(loop.iter % 256 != 0)" + m + "@end."
		for i, v := range ints {
			want.WriteString(fmt.Sprint(v))
			if (i+1)%256 == 0 {
				want.WriteString(meta(i))
			}
		}
		want.WriteString(".")
	case 3: // break in the last pass
		src = "@each(v in a)@if(loop.last)last@break @end{{ v }},@end."
		for _, v := range ints[:n-1] {
			want.WriteString(fmt.Sprint(v, ","))
		}
		want.WriteString("last.")
	case 4: // the first one only, by index
		src = "@each(v in a)@if(loop.first)F@end@if(loop.index == n - 1)L@end@end"
		want.WriteString("FL")
	case 5:
		src = "@for(i = 0; i < n; i++){{ i }},@else none@end"
		for i := range ints {
			want.WriteString(fmt.Sprint(i, ","))
		}
	case 6:
		src = "@for(i = n; i > 0; i = i - 1)@continueIf(i % 255 == 0)@if(i == 1)one@break @end{{ i }},@end"
		for i := n; i > 0; i-- {
			switch {
			case i%255 == 0:
			case i == 1:
				want.WriteString("one")
			default:
				want.WriteString(fmt.Sprint(i, ","))
			}
		}
	}
	out, err, fine := w.Eval(src, data)
	if !fine {
		return
	}
	if err != nil || out != want.String() {
		d := 0
		for d < len(out) && d < want.Len() && out[d] == want.String()[d] {
			d++
		}
		w.Fail("wrong output of a long loop", "template", src, "passes", fmt.Sprint(n), "first difference at byte", fmt.Sprint(d),
			"expected there", cut(want.String(), d), "got there", cut(out, d), "error", errStr(err))
		return
	}
	w.Feat("long loop enumerated")
	w.Key(fmt.Sprint("long", n, form))
}

func cut(s string, at int) string {
	return fmt.Sprintf("%q", s[max(0, min(at-20, len(s))):min(len(s), at+40)])
}

// metaLoop prints all loop metadata around nested loops.
func metaLoop(w *W, g *GS) []*St {
	meta := func() []*St {
		l := xVar("loop", KObj)
		return []*St{tText("("), tPrint(xDot(l, "index", KInt)), tText(" "), tPrint(xDot(l, "iter", KInt)), tText(" "),
			tPrint(xDot(l, "first", KBool)), tPrint(xDot(l, "last", KBool)), tText(")")}
	}
	arr := func() *X {
		a := xArr()
		for i := w.R.IntN(5); i > 0; i-- {
			a.A = append(a.A, xInt(int64(w.R.IntN(9))))
		}
		return a
	}
	ctl := func(v string) []*St {
		switch w.R.IntN(5) {
		case 0:
			k := []string{"break", "continue"}[w.R.IntN(2)]
			in := []*St{tText("!"), {K: k}, tText("?")}
			for d := w.R.IntN(3); d > 0; d-- {
				in = []*St{tText("<"), tIf(xBin(">", xVar(v, KInt), xInt(int64(w.R.IntN(4)))), in...), tText(">")}
			}
			return []*St{tIf(xBin(g.G.pick(">", "==", "<"), xVar(v, KInt), xInt(int64(w.R.IntN(9)))), in...)}
		case 1:
			return []*St{{K: []string{"breakif", "contif"}[w.R.IntN(2)], X: xBin(g.G.pick(">", "==", "<"), xVar(v, KInt), xInt(int64(w.R.IntN(9))))}}
		}
		return nil
	}
	inner := &St{K: "each", Name: "b", X: arr(), Blocks: [][]*St{append(append(meta(), ctl("b")...), tPrint(xVar("b", KInt)), tText(","))}}
	if w.R.IntN(3) == 0 {
		v := xVar("b", KInt)
		inner = &St{K: "for", Init: tAssign("b", xInt(0)), X: xBin("<", v, xInt(int64(w.R.IntN(5)))), Post: tPrint(&X{Op: "post", Name: "++", A: []*X{v}, T: KInt}),
			Blocks: [][]*St{append(append(meta(), ctl("b")...), tPrint(v), tText(","))}}
	}
	if w.R.IntN(2) == 0 {
		inner.HasEl = true
		inner.Else = []*St{tText("empty")}
		if w.R.IntN(3) == 0 {
			inner.Else = append(inner.Else, ctl("a")...)
		}
		inner.Else = append(inner.Else, tText("."))
	}
	body := append(meta(), ctl("a")...)
	body = append(body, inner)
	body = append(body, meta()...)
	body = append(body, ctl("a")...)
	body = append(body, tText(";"))
	outer := &St{K: "each", Name: "a", X: arr(), Blocks: [][]*St{body}}
	if w.R.IntN(2) == 0 {
		outer.HasEl = true
		outer.Else = []*St{tText("none")}
	}
	return []*St{outer}
}
