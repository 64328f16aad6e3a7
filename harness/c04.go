package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C04", Quick: 300000, Thorough: 4000000,
		Rule:        "random programs dense in assignments over a small pool of names (data, loop variables, block variables) at every nesting depth (1 in 30 inside 5..64 scopes; 1 in 5 also in component files and slot bodies), each name probed by printing inside and after every block; 1 in 3 with re-assignments of random types, reads of vanished names, or the reserved name loop in code or data; 1 in 15 with no data at all; non-trivial = assigns or binds a name; distinct = nesting skeleton + probe outcome kinds",
		Assumptions: []string{"the reference interpreter implements the property text", "whether a binding made by a loop body survives into the next pass is unspecified: such cases are discarded"},
		Run:         c04,
	})
}

func c04(w *W, i int) {
	data, vars := sampleData(w.R)
	if w.R.IntN(15) == 0 { // nothing in the root scope
		data, vars = map[string]Val{}, nil
		w.Feat("no data")
	}
	g := newGS(w.R, vars)
	g.Budget = 8 + w.R.IntN(25)
	names := []string{"n", "s", "p", "q", "i", "item"}
	if w.R.IntN(4) == 0 { // other names, some nearly the same
		odd := []string{"currentUserProfile", "currentUserProfiles", "N", "S", "nn", "n_", "_", "_n", "i2", "index", "iter", "first", "last", "Item", "items", "ITEM", "x1", "x2", "loopIndex", "Loop", "isLoop", "aVeryLongVariableNameThatGoesOnAndOnAndOnAndOnForSixtyFourCharsX1", "aVeryLongVariableNameThatGoesOnAndOnAndOnAndOnForSixtyFourCharsX2", "nilly", "inner", "trueX", "NIL", "Nil", "True", "TRUE", "False", "IN", "LOOP"}
		for j, k := range w.R.Perm(len(odd))[:4] {
			names[2+j] = odd[k]
		}
		if w.R.IntN(3) == 0 { // each a beginning of the next
			long := "someLongPrefixOfAVariableNameThatGoesOnForManyMoreLetters"
			for j, at := 2, 0; j < 6; j++ {
				at += []int{1, 2, 4, 8, 7, 12}[w.R.IntN(6)]
				names[j] = long[:at]
			}
		}
	}
	faulty := w.R.IntN(3) == 0
	tree := w.R.IntN(5) == 0
	p := &Proj{Files: map[string]*File{}, Data: data, R: w.R, Pages: []string{"page"}}
	noComp, noAssign := false, false
	var block func(d int, vis map[string]VK) []*St
	probe := func(vis map[string]VK) *St {
		ks := sortedKeys(vis)
		if faulty && w.R.IntN(12) == 0 || len(ks) == 0 {
			return tPrint(xVar(names[w.R.IntN(len(names))], KInt))
		}
		return tPrint(xVar(ks[w.R.IntN(len(ks))], KInt))
	}
	cp := func(m map[string]VK) map[string]VK {
		c := map[string]VK{}
		for k, v := range m {
			c[k] = v
		}
		return c
	}
	lit := func(k VK) *X {
		if k == KArr || k == KObj || k == KNil {
			return xOf(sampleVal(w.R, k))
		}
		g.G.Vars = nil
		return g.G.leaf(k)
	}
	assign := func(vis map[string]VK) *St {
		n := names[w.R.IntN(len(names))]
		k, seen := vis[n]
		if !seen || faulty && w.R.IntN(8) == 0 {
			k = []VK{KInt, KStr, KBool, KFloat, KArr, KObj, KNil}[w.R.IntN(7)]
		}
		if faulty && w.R.IntN(25) == 0 {
			n = "loop"
		}
		if _, seen := vis[n]; !seen {
			vis[n] = k
		}
		x := lit(k)
		if seen && w.R.IntN(2) == 0 && (k == KInt || k == KStr || k == KFloat) {
			x = xBin("+", xVar(n, k), lit(k))
		}
		return tAssign(n, x)
	}
	block = func(d int, outer map[string]VK) []*St {
		top := noAssign
		noAssign = false
		vis := cp(outer)
		var ss []*St
		for j := 2 + w.R.IntN(4); j > 0 && g.Budget > 0; j-- {
			g.Budget--
			r := w.R.IntN(12)
			if tree && !noComp && d > 0 && w.R.IntN(4) == 0 {
				// a component: it sees what is visible at its use, and nothing it binds survives
				name := fmt.Sprint("components/c", len(p.Files))
				s := &St{K: "comp", Name: name, Alias: w.R.IntN(2) == 0, Quote: quote(w.R), Inner: " "}
				in := cp(vis)
				noComp = true
				if w.R.IntN(2) == 0 {
					s.Args = &X{Op: "obj", T: KObj}
					for _, k := range w.R.Perm(len(names))[:w.R.IntN(3)] {
						n := names[k]
						t, seen := vis[n]
						if !seen {
							t = []VK{KInt, KStr, KBool}[w.R.IntN(3)]
						}
						s.Args.Keys = append(s.Args.Keys, n)
						s.Args.A = append(s.Args.A, lit(t))
						in[n] = t
					}
				}
				var slot []*St
				if w.R.IntN(3) == 0 {
					// whether an assignment of a slot body ends with it is not specified
					noAssign = true
					s.Slots = []*SlotDef{{Name: "s", Body: block(d-1, vis)}}
					slot = []*St{tText("<"), {K: "slot", Name: "s"}, tText(">")}
				}
				body := block(d-1, in)
				at := w.R.IntN(len(body) + 1)
				body = append(append(append([]*St{}, body[:at]...), slot...), body[at:]...)
				noComp = false
				p.add(&File{name, body})
				ss = append(ss, s, tText("|"), probe(vis), tText("|"), probe(vis))
				if again := w.R.IntN(3) == 0; again {
					t := *s
					ss = append(ss, &t, probe(vis))
				}
				continue
			}
			switch {
			case r < 3 && !top:
				ss = append(ss, assign(vis))
			case r < 6 || d == 0:
				ss = append(ss, tText("|"), probe(vis))
			case r < 8:
				s := &St{K: "if"}
				for c := 1 + w.R.IntN(2); c > 0; c-- {
					s.Conds = append(s.Conds, xBool(w.R.IntN(3) > 0))
					s.Blocks = append(s.Blocks, block(d-1, vis))
				}
				if w.R.IntN(2) == 0 {
					s.HasEl = true
					s.Else = block(d-1, vis)
				}
				ss = append(ss, s, tText("|"), probe(vis), probe(vis))
			case r < 10:
				s := &St{K: "each", Name: names[w.R.IntN(len(names))], X: xArr()}
				k, seen := vis[s.Name]
				if !seen || faulty && w.R.IntN(5) == 0 || k == KNil || k == KObj || k == KArr {
					k = []VK{KInt, KStr, KBool}[w.R.IntN(3)]
				}
				if !faulty && seen && vis[s.Name] != k {
					s.Name = "fresh"
				}
				for c := w.R.IntN(4); c > 0; c-- {
					s.X.A = append(s.X.A, lit(k))
				}
				if faulty && w.R.IntN(25) == 0 {
					s.Name = "loop"
				}
				in := cp(vis)
				in[s.Name] = k
				if w.R.IntN(4) == 0 {
					s.HasEl = true
					s.Else = block(d-1, vis)
				}
				s.Blocks = [][]*St{block(d-1, in)}
				ss = append(ss, s, tText("|"), probe(vis), probe(vis))
			default:
				n := []string{"i", "k", "n"}[w.R.IntN(3)]
				if k, seen := vis[n]; seen && k != KInt && !faulty {
					n = "fresh2"
				}
				v := xVar(n, KInt)
				s := &St{K: "for", Init: tAssign(n, xInt(0)), X: xBin("<", v, xInt(int64(w.R.IntN(4)))), Post: tPrint(&X{Op: "post", Name: "++", A: []*X{v}, T: KInt})}
				in := cp(vis)
				in[n] = KInt
				s.Blocks = [][]*St{block(d-1, in)}
				if w.R.IntN(4) == 0 {
					s.HasEl = true
					s.Else = block(d-1, vis)
				}
				ss = append(ss, s, tText("|"), probe(vis), probe(vis))
			}
		}
		return ss
	}
	vis := map[string]VK{}
	for _, v := range vars {
		if !v.V.hasFuzzy() {
			vis[v.Name] = v.V.K
		}
	}
	// deep nests a block in n scopes of every kind
	var deep func(n int, vis map[string]VK) []*St
	deep = func(n int, outer map[string]VK) []*St {
		if n == 0 {
			return block(1, outer)
		}
		vis := cp(outer)
		ss := []*St{tText("\n"), probe(vis)}
		if w.R.IntN(3) == 0 {
			ss = append(ss, assign(vis))
		}
		v := "deep_" + letters(n)
		var s *St
		switch w.R.IntN(4) {
		case 0:
			s = &St{K: "if", Conds: []*X{xBool(true)}, Blocks: [][]*St{deep(n-1, vis)}}
		case 1:
			s = &St{K: "if", Conds: []*X{xBool(false)}, Blocks: [][]*St{{tText("no")}}, HasEl: true, Else: deep(n-1, vis)}
		case 2:
			in := cp(vis)
			in[v] = KInt
			s = &St{K: "each", Name: v, X: xArr(xInt(int64(n))), Blocks: [][]*St{deep(n-1, in)}}
		default:
			in := cp(vis)
			in[v] = KInt
			x := xVar(v, KInt)
			s = &St{K: "for", Init: tAssign(v, xInt(int64(n))), X: xBin("<", x, xInt(int64(n+1))), Post: tPrint(&X{Op: "post", Name: "++", A: []*X{x}, T: KInt}), Blocks: [][]*St{deep(n-1, in)}}
		}
		return append(ss, s, tText("|"), probe(vis), probe(vis))
	}
	var ss []*St
	if !tree && w.R.IntN(30) == 0 {
		ss = deep(5+w.R.IntN(60), vis)
		w.Feat("deep")
	} else {
		ss = block(1+w.R.IntN(4), vis)
	}
	if faulty && w.R.IntN(3) == 0 {
		// a name bound inside a construct is gone after it
		n := "gone"
		var s *St
		switch w.R.IntN(4) {
		case 0:
			s = tIf(xBool(true), tAssign(n, xInt(1)), tPrint(xVar(n, KInt)))
		case 1:
			s = &St{K: "each", Name: n, X: xArr(xInt(1), xInt(2)), Blocks: [][]*St{{tPrint(xVar(n, KInt))}}}
		case 2:
			s = &St{K: "for", Init: tAssign(n, xInt(0)), X: xBin("<", xVar(n, KInt), xInt(2)), Post: tPrint(&X{Op: "post", Name: "++", A: []*X{xVar(n, KInt)}, T: KInt}), Blocks: [][]*St{{tText("x")}}}
		default:
			s = &St{K: "each", Name: "u", X: xArr(xInt(1)), Blocks: [][]*St{{tPrint(xDot(xVar("loop", KObj), "index", KInt))}}}
			n = "loop"
		}
		ss = append(ss, s, tPrint(xVar(n, KInt)))
	}
	if faulty && w.R.IntN(15) == 0 {
		data["loop"] = sampleVal(w.R, VK(w.R.IntN(7)))
	}
	sh := shapeOf(ss)
	if len(p.Files) > 0 {
		p.add(&File{"page", ss})
		t := p.tree(fmt.Sprintf("c04-%d", i), ".tw")
		w.writeTree(t)
		defer w.rmTree(t)
		tpl, err, fine := w.load(t)
		if !fine {
			return
		}
		if err != nil {
			w.Fail("templates do not load", "template", t.dump(), "error", err.Error())
			return
		}
		p.checkPages(w, tpl, t, 2, func(map[string]int) bool { return true })
		return
	}
	stmtCase(w, ss, data, 2, strings.Contains(sh, "as") || strings.Contains(sh, "ea") || strings.Contains(sh, "fo"))
}
