package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C06", Quick: 24000, Thorough: 400000,
		Rule:        "generated directory trees with 1-3 layouts (reserves at top level and inside blocks), 1-4 pages (inserts in any order, block and expression form, missing inserts, junk outside inserts, @use at any position, ~ alias) sharing layouts, plus components; every page is rendered twice; 1 in 3 trees has one fault (unknown insert, duplicate insert, missing layout, layout that uses a layout), planted at random depth, also in code that never runs; non-trivial = a reserve was met or a fault was planted; distinct = page skeleton + events",
		Assumptions: []string{"the reference interpreter implements the property text", "a fault may be reported when loading or when rendering the page"},
		Run:         c06,
	})
	register(&Prop{
		ID: "C07", Quick: 24000, Thorough: 400000,
		Rule:        "generated directory trees with 1-4 components (arguments of every type, named/default slots at top level and inside blocks, repeated placeholders) used from pages at top level, in branches, loops, inserts and slot bodies, several times each; every page is rendered twice; 1 in 3 trees has one fault (undeclared slot, duplicate slot, missing component) that has to be reported while loading and name the component, wherever and however often it is planted; non-trivial = a component was rendered or a fault was planted; distinct = page skeleton + events",
		Assumptions: []string{"the reference interpreter implements the property text", "slot bodies use no name that the component binds itself; a component argument that changes the type of a visible name is not specified and discarded"},
		Run:         c07,
	})
}

var reserveNames = []string{"title", "body", "head", "foot", "side bar", "x", "Body", "~x", "é", "head ", "a.b/c", "a reserve name that goes on and on and on and on for 64 letters A", "a reserve name that goes on and on and on and on for 64 letters B"}

func randReserves(w *W) []string {
	var rs []string
	for _, i := range w.R.Perm(len(reserveNames))[:w.R.IntN(5)] {
		rs = append(rs, reserveNames[i])
	}
	if w.R.IntN(40) == 0 { // many
		for n := 5 + w.R.IntN(40); n > 0; n-- {
			rs = append(rs, "many"+letters(n))
		}
	}
	return rs
}

func c06(w *W, i int) {
	p := newProj(w.R)
	if w.R.IntN(2) == 0 {
		for c := 1 + w.R.IntN(2); c > 0; c-- {
			p.genComp(c)
		}
	}
	layouts := []string{"layouts/main", "layouts/sub/alt", "base"}
	if w.R.IntN(3) == 0 {
		odd := []string{"layouts/~t", "layouts/x~y", "layouts/a.b", "layouts/two words", "layouts/é-日", "layouts/layouts/in", "layouts/Main", "components/lay", "x~y/z", "main"}
		for k := range layouts {
			if w.R.IntN(2) == 0 {
				layouts[k] = odd[w.R.IntN(len(odd))]
			}
		}
	}
	res := map[string][]string{}
	var ls []string
	for _, l := range layouts {
		if _, used := res[l]; !used && (len(ls) == 0 || w.R.IntN(2) == 0) {
			ls = append(ls, l)
			res[l] = randReserves(w)
			p.genLayout(l, res[l])
		}
	}
	for n := 1 + w.R.IntN(4); n > 0; n-- {
		l := ls[w.R.IntN(len(ls))]
		p.genPage([]string{"home", "blog/post", "about", "deep/er/page"}[n-1], l, res[l])
	}
	fault := ""
	page := p.Pages[w.R.IntN(len(p.Pages))]
	pf := p.Files[page]
	if w.R.IntN(3) == 0 {
		switch fault = []string{"unknown insert", "duplicate insert", "missing layout", "nested layout"}[w.R.IntN(4)]; fault {
		case "unknown insert":
			s := &St{K: "insert", Name: "nosuch", X: xInt(1)}
			if w.R.IntN(2) == 0 {
				s = &St{K: "insert", Name: "nosuch", Blocks: [][]*St{{tText("x")}}}
			}
			if w.R.IntN(4) == 0 {
				s.Name = "Title"
			}
			at := w.R.IntN(len(pf.Stmts) + 1)
			pf.Stmts = append(append(append([]*St{}, pf.Stmts[:at]...), s), pf.Stmts[at:]...)
		case "duplicate insert":
			var ins *St
			for _, s := range pf.Stmts {
				if s.K == "insert" {
					ins = s
				}
			}
			if ins == nil {
				return
			}
			d := &St{K: "insert", Name: ins.Name, X: xInt(1)}
			if w.R.IntN(2) == 0 {
				d = &St{K: "insert", Name: ins.Name, Blocks: [][]*St{{tText("x")}}}
			}
			pf.Stmts = append(pf.Stmts, d)
			if w.R.IntN(2) == 0 {
				pf.Stmts = append([]*St{d}, pf.Stmts[:len(pf.Stmts)-1]...)
			}
		case "missing layout":
			for _, s := range pf.Stmts {
				if s.K == "use" {
					s.Name = "layouts/missing"
				}
			}
		case "nested layout":
			for _, s := range pf.Stmts {
				if s.K == "use" {
					l := p.Files[s.Name]
					p.add(&File{"layouts/outer", []*St{tText("o"), {K: "reserve", Name: "zz"}}})
					u := &St{K: "use", Name: "layouts/outer"}
					at := w.R.IntN(len(l.Stmts) + 1)
					l.Stmts = append(append(append([]*St{}, l.Stmts[:at]...), u), l.Stmts[at:]...)
				}
			}
		}
	}
	if fault == "" {
		p.plant(w)
	}
	t := p.tree(fmt.Sprintf("c06-%d", i), extPool[w.R.IntN(len(extPool))])
	w.writeTree(t)
	defer w.rmTree(t)
	tpl, err, fine := w.load(t)
	if !fine {
		return
	}
	w.Sample(t.dump())
	if fault != "" {
		w.Feat("fault: " + fault)
		w.Key(fault + shapeOf(pf.Stmts))
		if err == nil {
			out, ferr, fine := w.render(tpl, t, page, goData(p.Data))
			if fine && ferr == nil {
				w.Fail("a faulty tree is not reported: "+fault, "template", t.dump(), "page", page, "got", out)
			}
		} else if tpl != nil {
			w.Fail("load returned a template and an error", "template", t.dump(), "error", err.Error())
		}
		return
	}
	if p.static() {
		w.Feat("fault: unreadable literal")
		if err == nil || tpl != nil {
			w.Fail("a literal out of range is not reported while loading", "template", t.dump())
		}
		return
	}
	if err != nil {
		w.Fail("load failed", "template", t.dump(), "error", err.Error())
		return
	}
	p.checkPages(w, tpl, t, 2, func(f map[string]int) bool { return f["reserve filled"]+f["reserve empty"] > 0 })
}

func c07(w *W, i int) {
	p := newProj(w.R)
	for c := 1 + w.R.IntN(4); c > 0; c-- {
		p.genComp(c)
	}
	all := p.Comps
	var res []string
	if w.R.IntN(2) == 0 {
		res = randReserves(w)
		p.genLayout("layouts/main", res)
	}
	for n := 1 + w.R.IntN(3); n > 0; n-- {
		l := ""
		if res != nil && w.R.IntN(2) == 0 {
			l = "layouts/main"
		}
		p.genPage([]string{"home", "blog/post", "about"}[n-1], l, res)
	}
	// the same component twice in a row and in a loop, with different
	// arguments and slot bodies
	if w.R.IntN(2) == 0 {
		c := p.Comps[w.R.IntN(len(p.Comps))]
		p.Comps = []*CompSig{c}
		g := newGS(w.R, p.Vars)
		g.NoShadow = true
		g.W["seq"] = 0
		g.Comp = p.useComp
		var ss []*St
		uses := 2 + w.R.IntN(3)
		if i%16 == 5 {
			uses = 10 + w.R.IntN(60)
			w.Feat("many uses")
		}
		for k := uses; k > 0; k-- {
			ss = append(ss, p.useComp(g, 1), tText("|"))
		}
		if w.R.IntN(2) == 0 {
			g.push()
			g.bind("it", vInt(3))
			g.Loop++
			g.Each++
			ss = append(ss, &St{K: "each", Name: "it", X: xArr(xInt(3), xInt(0), xInt(7)), Blocks: [][]*St{{p.useComp(g, 1), tText(","), p.useComp(g, 1)}}})
			g.Loop--
			g.Each--
			g.pop()
		}
		// argument names vanish after the use
		if len(c.Args) > 0 && w.R.IntN(3) == 0 {
			ss = append(ss, tPrint(xVar(c.Args[0].Name, KInt)))
		}
		p.add(&File{"twice", ss})
		p.Pages = append(p.Pages, "twice")
	}
	p.Comps = all
	fault, where := "", ""
	if w.R.IntN(3) == 0 {
		var uses []*St
		var find func(ss []*St)
		find = func(ss []*St) {
			for _, s := range ss {
				if s.K == "comp" {
					uses = append(uses, s)
				}
				for _, b := range s.Blocks {
					find(b)
				}
				find(s.Else)
				for _, sl := range s.Slots {
					find(sl.Body)
				}
			}
		}
		for _, n := range p.Pages {
			find(p.Files[n].Stmts)
		}
		if len(uses) > 0 {
			u := uses[w.R.IntN(len(uses))]
			where = u.Name
			switch fault = []string{"undeclared slot", "duplicate slot", "missing component"}[w.R.IntN(3)]; fault {
			case "undeclared slot":
				n := []string{"undeclared", "", "default", "slot", "HEAD", " head"}[w.R.IntN(6)]
				for _, c := range p.Comps {
					if c.Name == u.Name {
						for _, s := range c.Slots {
							if s == n {
								n = "undeclared"
							}
						}
					}
				}
				at := w.R.IntN(len(u.Slots) + 1)
				u.Slots = append(append(append([]*SlotDef{}, u.Slots[:at]...), &SlotDef{Name: n, Body: [][]*St{{tText("x")}, {}, {tText(" ")}, {tPrint(xInt(1))}, {{K: "comment", Text: "c"}}}[w.R.IntN(5)]}), u.Slots[at:]...)
			case "duplicate slot":
				if len(u.Slots) == 0 {
					fault = ""
					break
				}
				n := u.Slots[w.R.IntN(len(u.Slots))].Name
				for k := 1 + w.R.IntN(3)*w.R.IntN(2); k > 0; k-- {
					at := w.R.IntN(len(u.Slots) + 1)
					u.Slots = append(append(append([]*SlotDef{}, u.Slots[:at]...), &SlotDef{Name: n, Body: []*St{tText("x")}, Ws: " "}), u.Slots[at:]...)
				}
			case "missing component":
				u.Name = "components/absent"
				where = "components/absent"
			}
		}
	}
	if fault == "" {
		p.plant(w)
	}
	t := p.tree(fmt.Sprintf("c07-%d", i), extPool[w.R.IntN(len(extPool))])
	w.writeTree(t)
	defer w.rmTree(t)
	tpl, err, fine := w.load(t)
	if !fine {
		return
	}
	w.Sample(t.dump())
	if fault != "" {
		w.Feat("fault: " + fault)
		w.Key(fault + where + shapeOf(p.Files[p.Pages[0]].Stmts))
		base := where[strings.LastIndex(where, "/")+1:]
		if err == nil || tpl != nil {
			w.Fail("a faulty tree is not reported while loading: "+fault, "template", t.dump(), "error", errStr(err))
		} else if !strings.Contains(err.Error(), base) {
			w.Fail("the load error does not name the component "+where, "template", t.dump(), "error", errStr(err))
		}
		return
	}
	if p.static() {
		w.Feat("fault: unreadable literal")
		if err == nil || tpl != nil {
			w.Fail("a literal out of range is not reported while loading", "template", t.dump())
		}
		return
	}
	if err != nil {
		w.Fail("load failed", "template", t.dump(), "error", err.Error())
		return
	}
	p.checkPages(w, tpl, t, 2, func(f map[string]int) bool { return f["component"] > 0 })
}
