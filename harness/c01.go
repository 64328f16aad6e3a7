package main

import (
	"math"
	"strconv"
	"strings"
)

// compareOut judges a render against the reference outcome. It returns the
// kind of the disagreement or "".
func judge(o Outcome, out string, err error) string {
	switch {
	case o.Fail && err == nil:
		return "rendered although it has to fail (" + o.Kind + ")"
	case o.Fail && out != "":
		return "failed with an error and with output"
	case o.Fail:
		return ""
	case err != nil:
		return "failed although it has to render"
	case out != o.Out:
		return "wrong output"
	}
	return ""
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 200000, Thorough: 2000000,
		Rule: "random typed expression trees (all operators, literals, variables, built-in calls, nested data paths; 1 in 4 with a planted fault) are printed in 3 layouts and rendered as print, assignment value or statement sequence; " +
			"a case is non-trivial when the tree has at least one operator; distinct = operator skeleton to depth 4 + outcome class",
		Assumptions: []string{"the reference evaluator implements the property text", "comparisons other than ==/!= on strings, comparisons on bool/nil/array/object, ! on non-bool and the spelling of huge floats are not specified and discarded"},
		Run:         c01,
	})
}

func c01(w *W, i int) {
	data, vars := sampleData(w.R)
	if w.R.IntN(3) == 0 {
		data["big"] = vInt(math.MaxInt64 - int64(w.R.IntN(3)))
		data["low"] = vInt(math.MinInt64 + int64(w.R.IntN(3)))
		data["huge"] = vFloat(math.Pow(10, float64(w.R.IntN(600)-300)))
		for _, k := range []string{"big", "low", "huge"} {
			vars = append(vars, GVar{k, data[k]})
		}
	}
	g := &Gen{R: w.R, Vars: vars}
	k := []VK{KInt, KInt, KInt, KInt, KFloat, KFloat, KStr, KBool, KBool, KArr, KObj, KNil}[w.R.IntN(12)]
	x := g.Expr(k, 1+w.R.IntN(5))
	if i%64 == 63 {
		x = g.big(k)
		w.Feat("big expression")
	}
	if w.R.IntN(4) == 0 {
		var kind string
		x, kind = g.Plant(x)
		w.Feat("planted " + kind)
	}
	ss := []*St{tText("["), tPrint(x), tText("]")}
	switch w.R.IntN(5) {
	case 0:
		ss = []*St{tText("["), tAssign("vv", x), tPrint(xVar("vv", x.T)), tText("]")}
	case 1:
		ss = []*St{{K: "seq", Seq: []*St{tPrint(xStr("[")), tAssign("vv", x), tPrint(xVar("vv", x.T))}}, tText("]")}
	}
	in := &Interp{}
	o := RunRef(in, ss, data)
	if staticFault(ss) {
		o = Outcome{Fail: true, Kind: "integer literal out of range"}
	}
	if o.Ambig != "" {
		w.Skip(strings.SplitN(o.Ambig, ":", 2)[0])
		return
	}
	gd := goData(data)
	for l := 0; l < 3; l++ {
		st := Style{Spaces: l}
		if l == 2 {
			st = Style{Spaces: 2 + w.R.IntN(2), Parens: 0.3}
			if w.R.IntN(4) == 0 {
				st.NL = "\r\n"
			}
		}
		src, _ := Source(w.R, st, ss)
		out, err, fine := w.Eval(src, gd)
		if !fine {
			return
		}
		why := judge(o, out, err)
		if why == "wrong output" && o.Fuzzy {
			if x.T == KFloat && sameFloat(out, o.Out) {
				why = ""
				w.Feat("float compared by value")
			} else if x.T != KFloat {
				w.Skip("spelling of a float inside a composite")
				return
			}
		}
		if l == 0 {
			w.Sample(src + "   =>   " + o.Out + o.Kind)
		}
		if why != "" {
			w.Fail(why, "template", src, "data", string(mustJSON2(gd)), "expected", o.Out+o.Kind, "got", out, "error", errStr(err))
			return
		}
	}
	if o.Fail {
		w.Feat("must-fail")
	} else {
		w.Feat("value")
	}
	if x.size() > 1 {
		w.Key(x.shape() + o.Kind)
	}
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// sameFloat compares two renderings that contain one float each.
func sameFloat(a, b string) bool {
	trim := func(s string) string { return strings.Trim(s, "[]|") }
	a, b = trim(a), trim(b)
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	return e1 == nil && e2 == nil && (x == y || x != x && y != y)
}
