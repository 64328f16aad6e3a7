package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"
	"unicode/utf8"

	textwire "github.com/textwire/textwire/v2"
)

func init() {
	register(&Prop{
		ID: "C11", Quick: c11Enum + c11Slices + 1200000, Thorough: c11Enum + c11Slices + 8000000,
		Rule: "enumeration: 31 receivers of every kind x every built-in name x all tuples of up to 2 arguments of 14 kinds/boundaries, and slice/at/truncate/repeat over all small (length, start, end); then random calls (receiver and arguments as data, as literals and as variables) and programs of 3-8 chained calls over shared arrays; rand() and shuffle() of 1..8 elements are observed 600 times each; a recording function gives the exact kind and value of the result, of the receiver and of the arguments after the call; " +
			"monitors: contract of the call, receiver and arguments unchanged, valid UTF-8 stays valid, the caller's data deep-equal; in every second process all built-in names are also registered as custom functions and have to stay hidden; non-trivial = the contract fixes the result; distinct = call text with kinds",
		Assumptions: []string{"contracts as in DESIGN.md; oversized counts, float to integer conversion out of range, abs of the least integer and case mapping outside Latin, Greek and Cyrillic are not specified"},
		Setup:       c11Setup,
		Run:         c11,
	})
}

const c11Enum = 31 * 33
const c11Slices = 8

var c11Rec []any // what the recording function saw last

func c11Setup(w *W) {
	must(textwire.RegisterArrFunc("vhprobe", func(a []any, args ...any) []any {
		c11Rec = append([]any{}, a...)
		return a
	}))
	if w.Shard%2 == 0 {
		return
	}
	for _, n := range allBuiltins() {
		if n == "nosuch" {
			continue
		}
		must(textwire.RegisterStrFunc(n, func(string, ...any) string { return "CUSTOM" }))
		must(textwire.RegisterArrFunc(n, func([]any, ...any) []any { return []any{"CUSTOM"} }))
		must(textwire.RegisterIntFunc(n, func(int, ...any) int { return 424242 }))
		must(textwire.RegisterFloatFunc(n, func(float64, ...any) float64 { return 424242 }))
		must(textwire.RegisterBoolFunc(n, func(b bool, _ ...any) bool { return b }))
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// valOf is the reference value of a plain Go value.
func valOf(x any) Val {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Invalid:
		return vNil()
	case reflect.Bool:
		return vBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return vInt(v.Int())
	case reflect.Float32, reflect.Float64:
		return vFloat(v.Float())
	case reflect.String:
		return vStr(v.String())
	case reflect.Slice:
		a := []Val{}
		for i := 0; i < v.Len(); i++ {
			a = append(a, valOf(v.Index(i).Interface()))
		}
		return vArr(a...)
	case reflect.Map:
		m := map[string]Val{}
		for _, k := range v.MapKeys() {
			m[k.String()] = valOf(v.MapIndex(k).Interface())
		}
		return vObj(m)
	}
	return vStr(fmt.Sprintf("?%T", x))
}

// same is structural equality with NaN equal to itself and -0 equal to 0.
func same(a, b Val) bool {
	if a.K == KFloat && b.K == KFloat && a.F != a.F && b.F != b.F {
		return true
	}
	if a.K != b.K || len(a.A) != len(b.A) || len(a.O) != len(b.O) {
		return false
	}
	switch a.K {
	case KArr:
		for i := range a.A {
			if !same(a.A[i], b.A[i]) {
				return false
			}
		}
		return true
	case KObj:
		for k, e := range a.O {
			f, found := b.O[k]
			if !found || !same(e, f) {
				return false
			}
		}
		return true
	}
	return a.Equal(b)
}

func utf8OK(v Val) bool {
	if v.K == KStr && !utf8.ValidString(v.S) {
		return false
	}
	for _, e := range v.A {
		if !utf8OK(e) {
			return false
		}
	}
	for k, e := range v.O {
		if !utf8OK(e) || !utf8.ValidString(k) {
			return false
		}
	}
	return true
}

func (w *W) custom() bool { return w.Shard%2 == 1 }

// litOf is a literal for v, or "" when v has none with the same value.
func litOf(v Val) string {
	switch v.K {
	case KStr:
		if escLit(v.S) != v.S || strings.Contains(v.S, "\\") {
			return ""
		}
		return litSrc(v.S, '\'')
	case KInt:
		if v.I < 0 {
			if v.I == math.MinInt64 {
				return ""
			}
			return fmt.Sprintf("(-%d)", -v.I)
		}
		return fmt.Sprint(v.I)
	case KFloat:
		if fuzzyFloat(v.F) || v.F < 0 {
			return ""
		}
		return xFloat(v.F).Src
	case KBool:
		return fmt.Sprint(v.B)
	case KNil:
		return "nil"
	case KArr:
		ss := []string{}
		for _, e := range v.A {
			s := litOf(e)
			if s == "" {
				return ""
			}
			ss = append(ss, s)
		}
		return "[" + strings.Join(ss, ", ") + "]"
	}
	ss := []string{}
	for _, k := range sortedKeys(v.O) {
		s := litOf(v.O[k])
		if s == "" || !isIdent(k) {
			return ""
		}
		ss = append(ss, k+": "+s)
	}
	return "{" + strings.Join(ss, ", ") + "}"
}

func isIdent(s string) bool {
	if s == "" || s[0] >= '0' && s[0] <= '9' || s == "true" || s == "false" || s == "nil" || s == "in" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !isWord(s[i]) {
			return false
		}
	}
	return true
}

// checkCall runs one call in a template and judges everything that can be seen.
func (w *W) checkCall(r Val, name string, args []Val, form int) bool {
	data := map[string]any{"r": r.Go()}
	rs := "r"
	if l := litOf(r); form == 1 && l != "" {
		rs = l
		if r.K == KFloat || r.K == KObj {
			rs = "(" + l + ")"
		}
	}
	var as []string
	for i, a := range args {
		n := "a" + letters(i)
		data[n] = a.Go()
		if l := litOf(a); form == 1 && l != "" {
			n = l
		}
		as = append(as, n)
	}
	watch := []string{"r"}
	for i := range args {
		watch = append(watch, "a"+letters(i))
	}
	call := rs + "." + name + "(" + strings.Join(as, ", ") + ")"
	src := "{{ x = " + call + " }}{{ x }}|{{ pr = [x, " + strings.Join(watch, ", ") + "].vhprobe(); pr.len() }}"
	if form == 2 {
		src = "{{ y = r; x = y." + name + "(" + strings.Join(as, ", ") + "); x }}|{{ [x, " + strings.Join(watch, ", ") + "].vhprobe().len() }}"
	}
	if name == "vhprobe" {
		return true
	}
	c11Rec = nil
	out, err, fine := w.Eval(src, data)
	if !fine {
		return false
	}
	info := []string{"template", src, "receiver", r.GoString(), "arguments", fmt.Sprintf("%#v", args), "got", out, "error", errStr(err)}
	// the caller's data
	for i, v := range append([]Val{r}, args...) {
		if !same(valOf(data[watch[i]]), v) {
			w.Fail("the caller's data is changed", info...)
			return false
		}
	}
	if !isBuiltin(r.K, name) {
		if err == nil && !w.custom() {
			w.Fail("an unknown function does not fail", info...)
			return false
		}
		w.Skip("not a built-in")
		return true
	}
	if err == nil && !utf8.ValidString(out) && utf8OK(r) && utf8OK(vArr(args...)) {
		w.Fail("invalid UTF-8 from valid input", info...)
		return false
	}
	var got Val
	if err == nil {
		if len(c11Rec) != len(watch)+1 {
			w.Fail("the recording function was not called with the values", info...)
			return false
		}
		got = valOf(c11Rec[0])
		info = append(info, "result", got.GoString())
		for i, v := range append([]Val{r}, args...) {
			if !same(valOf(c11Rec[i+1]), v) {
				w.Fail("the receiver or an argument is changed by the call", append(info, "value", watch[i], "now", valOf(c11Rec[i+1]).GoString())...)
				return false
			}
		}
		if !utf8OK(got) && utf8OK(r) && utf8OK(vArr(args...)) {
			w.Fail("invalid UTF-8 from valid input", info...)
			return false
		}
	}
	c := Call(r, name, args)
	switch {
	case c.Ambig == "error-or-value":
		if err == nil && !same(got, c.V) {
			w.Fail("wrong result", append(info, "expected", "an error or "+c.V.GoString())...)
			return false
		}
	case c.Ambig != "":
		w.Skip(c.Ambig)
		return true
	case c.Err:
		if err == nil {
			w.Fail("wrong arguments are not an error", info...)
			return false
		}
		w.Feat("wrong arguments")
	case err != nil:
		w.Fail("a call with a fixed result fails", append(info, "expected", c.V.GoString())...)
		return false
	case c.Any != nil:
		if !c.Any(got) {
			w.Fail("wrong result", info...)
			return false
		}
	default:
		if !same(got, c.V) {
			w.Fail("wrong result", append(info, "expected", c.V.GoString())...)
			return false
		}
		if want := c.V.Print() + "|"; !c.V.hasFuzzy() && !strings.HasPrefix(out, want) {
			w.Fail("the result prints differently", append(info, "expected", want)...)
			return false
		}
	}
	ks := r.K.String()
	for _, a := range args {
		ks += a.K.String()
	}
	w.Key(call + ks)
	w.Feat(r.K.String() + "." + name)
	return true
}

var c11Strs = []string{"", "a", "abc", "Hello World", "é", "éa", "日本語", "😀x😀", "e\u0301", "  pad\t\n", "a,b,,c", "aXbXc", "ababab", "ñandú", "ÉCOLE", "straße", "ñ", "12", "-7", "0", "007", "3.14", "12a", "-", "&amp;", "<b>", "a&b", "&lt;i&gt;", "привет", "Ωμέγα", "ǅ", "\x00", "line1\nline2", "x y z", "aaa", "'q'", "{}", "99999999999999999999", "日", "ab日cd", "\u2028", "𝒳𝒴", "\r\nx \r", "\rcr\r", "\t\r\n\n y"}
var c11Floats = []float64{0, math.Copysign(0, -1), 0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 0.49999999999999994, 1e-9, -1e-9, 3, -3, 3.999999, 1e14 + 0.5, 123456789.25, -0.1, 1e15, 9e18, -9e18, 4503599627370495.5, 0.1, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN(), math.SmallestNonzeroFloat64, 99.99, 1e-7, 2.9999999999999996, 3.0000000000000004, -2.9999999999999996, -3.0000000000000004, 2.4999999999999996, 2.5000000000000004, 1.0000000000000002, 0.9999999999999999, -0.49999999999999994, 1e14 + 0.984375, 2147483647.5, 2147483648.5, -2147483649.5, 4294967296.25}
var c11Ints = []int64{0, 1, -1, 2, 3, 5, 7, -2, -3, 10, 100, -10, 1 << 31, -(1 << 31), 1 << 53, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 4, 6, 9, 99, 1000}

func c11Str(r *rand.Rand) string {
	if r.IntN(400) == 0 { // long
		s := strings.Repeat(c11Strs[r.IntN(len(c11Strs))]+[]string{"", ",", "é", " "}[r.IntN(4)], 1+r.IntN(200))
		if r.IntN(2) == 0 {
			s += c11Strs[r.IntN(len(c11Strs))]
		}
		return s
	}
	if r.IntN(2) == 0 {
		return c11Strs[r.IntN(len(c11Strs))]
	}
	s := ""
	for n := r.IntN(9); n > 0; n-- {
		s += []string{"a", "b", "A", "é", "日", "😀", " ", ",", "X", "0", "7", "\n", "É", "ß", "e\u0301", "-", ".", "&", "<"}[r.IntN(19)]
	}
	return s
}

func c11Val(r *rand.Rand, k VK, d int) Val {
	switch k {
	case KBool:
		return vBool(r.IntN(2) == 0)
	case KInt:
		if r.IntN(2) == 0 {
			return vInt(int64(r.IntN(14)) - 4)
		}
		if r.IntN(4) == 0 {
			return vInt(int64(r.Uint64()))
		}
		return vInt(c11Ints[r.IntN(len(c11Ints))])
	case KFloat:
		if r.IntN(3) == 0 {
			return vFloat((r.Float64() - 0.5) * math.Pow(10, float64(r.IntN(18))))
		}
		if r.IntN(3) == 0 {
			return vFloat(float64(r.IntN(4000)-2000) / 8)
		}
		if r.IntN(6) == 0 { // next to an integer or a half
			f := float64(r.IntN(400)-200) / 2
			for n := r.IntN(4); n > 0; n-- {
				f = math.Nextafter(f, math.Inf(1))
			}
			for n := r.IntN(4); n > 0; n-- {
				f = math.Nextafter(f, math.Inf(-1))
			}
			return vFloat(f)
		}
		return vFloat(c11Floats[r.IntN(len(c11Floats))])
	case KStr:
		return vStr(c11Str(r))
	case KArr:
		var a []Val
		n := r.IntN(6)
		ek := VK(r.IntN(7))
		if d > 0 && r.IntN(300) == 0 { // long
			n = 10 + r.IntN(300)
			ek = VK(r.IntN(4))
		}
		for i := 0; i < n; i++ {
			if n < 10 && r.IntN(4) == 0 {
				ek = VK(r.IntN(7))
			}
			if d <= 0 && ek >= KArr {
				ek = KInt
			}
			if i > 0 && r.IntN(4) == 0 {
				a = append(a, a[r.IntN(i)])
				continue
			}
			a = append(a, c11Val(r, ek, d-1))
		}
		return vArr(a...)
	case KObj:
		m := map[string]Val{}
		for n := r.IntN(4); n > 0; n-- {
			ek := VK(r.IntN(7))
			if d <= 0 && ek >= KArr {
				ek = KStr
			}
			m[[]string{"a", "b", "name", "Name", "k1", "z"}[r.IntN(6)]] = c11Val(r, ek, d-1)
		}
		return vObj(m)
	}
	return vNil()
}

// c11Args draws an argument list that fits mostly.
func c11Args(r *rand.Rand, rec Val, name string) []Val {
	any1 := func() Val {
		if rec.K == KArr && len(rec.A) > 0 && r.IntN(2) == 0 {
			e := rec.A[r.IntN(len(rec.A))]
			if r.IntN(3) == 0 { // nearly equal
				switch e.K {
				case KArr:
					return vArr(append(append([]Val{}, e.A...), vNil())...)
				case KInt:
					return vFloat(float64(e.I))
				case KObj:
					m := map[string]Val{}
					for k, v := range e.O {
						m[k] = v
					}
					m["extra"] = vInt(1)
					return vObj(m)
				case KStr:
					return vStr(strings.ToUpper(e.S))
				}
			}
			return e
		}
		return c11Val(r, VK(r.IntN(7)), 1)
	}
	small := func() Val {
		if n := len(rec.A) + len(rec.S); n > 12 {
			return vInt(int64(r.IntN(2*n+10)) - int64(n))
		}
		return vInt(int64(r.IntN(16)) - 5)
	}
	sub := func() Val {
		rs := []rune(rec.S)
		if rec.K == KStr && len(rs) > 0 && r.IntN(3) > 0 {
			i := r.IntN(len(rs))
			return vStr(string(rs[i : i+1+r.IntN(len(rs)-i)]))
		}
		return vStr(c11Str(r))
	}
	var out []Val
	switch name {
	case "split", "trim", "trimLeft", "trimRight":
		if r.IntN(4) > 0 {
			out = []Val{sub()}
		}
	case "join":
		if r.IntN(4) > 0 {
			out = []Val{vStr(c11Str(r))}
		}
	case "contains":
		if rec.K == KStr {
			out = []Val{sub()}
		} else {
			out = []Val{any1()}
		}
	case "truncate":
		out = []Val{small()}
		if r.IntN(2) == 0 {
			out = append(out, vStr(c11Str(r)))
		}
	case "at", "repeat":
		out = []Val{small()}
		if r.IntN(6) == 0 {
			out = []Val{c11Val(r, KInt, 0)}
		}
	case "slice":
		out = []Val{small()}
		if r.IntN(4) > 0 {
			out = append(out, small())
		}
		if r.IntN(6) == 0 {
			out[len(out)-1] = c11Val(r, KInt, 0)
		}
	case "append", "prepend", "then":
		for n := 1 + r.IntN(3); n > 0; n-- {
			out = append(out, any1())
		}
	case "decimal":
		if r.IntN(3) > 0 {
			out = append(out, vStr(c11Str(r)))
			if r.IntN(2) == 0 {
				out = append(out, vInt(int64(r.IntN(9))))
			}
		}
	}
	if r.IntN(6) == 0 { // wrong counts and kinds
		switch r.IntN(3) {
		case 0:
			out = out[:r.IntN(len(out)+1)]
		case 1:
			if len(out) > 0 {
				out[r.IntN(len(out))] = c11Val(r, VK(r.IntN(7)), 1)
			}
		default:
			out = append(out, c11Val(r, VK(r.IntN(7)), 1))
		}
	}
	return out
}

func c11(w *W, i int) {
	if i < c11Enum {
		r, name := c09Vals[i/33], allBuiltins()[i%33]
		w.checkCall(r, name, nil, i%3)
		for _, a := range c09Args {
			w.checkCall(r, name, []Val{a}, i%3)
			for _, b := range c09Args {
				if !w.checkCall(r, name, []Val{a, b}, i%3) {
					return
				}
			}
		}
		w.Feat("enumerated")
		return
	}
	if i < c11Enum+c11Slices {
		c11Small(w, i-c11Enum)
		c11Random(w, i-c11Enum+1)
		return
	}
	if i%4 == 0 {
		c11Chain(w)
		return
	}
	k := []VK{KStr, KStr, KStr, KArr, KArr, KArr, KInt, KFloat, KBool}[w.R.IntN(9)]
	r := c11Val(w.R, k, 2)
	name := builtins[k][w.R.IntN(len(builtins[k]))]
	w.checkCall(r, name, c11Args(w.R, r, name), w.R.IntN(3))
}

// c11Random observes many results of rand() and shuffle() of n elements: all
// of them occur, at every position (missed by chance with a probability below
// 1e-30).
func c11Random(w *W, n int) {
	const times = 600
	var arr []int
	for j := 0; j < n; j++ {
		arr = append(arr, j*j+5)
	}
	out, err, fine := w.Eval("@for(i = 0; i < 600; i++){{ a.rand() }},@end|@for(i = 0; i < 600; i++){{ a.shuffle().join('.') }},@end", map[string]any{"a": arr})
	if !fine {
		return
	}
	rs, ss, _ := strings.Cut(out, "|")
	seen := map[string]int{}
	for _, s := range strings.Split(strings.TrimSuffix(rs, ","), ",") {
		seen[s]++
	}
	at := map[string]bool{}
	for _, s := range strings.Split(strings.TrimSuffix(ss, ","), ",") {
		for p, e := range strings.Split(s, ".") {
			at[fmt.Sprint(p, "=", e)] = true
		}
	}
	missing := ""
	for p, e := range arr {
		if seen[fmt.Sprint(e)] == 0 {
			missing = fmt.Sprint("rand() never gives element ", p)
		}
		for q := range arr {
			if !at[fmt.Sprint(q, "=", e)] {
				missing = fmt.Sprint("shuffle() never moves element ", p, " to ", q)
			}
		}
	}
	if err != nil || len(seen) != n || len(at) != n*n || missing != "" {
		w.Fail("rand() or shuffle() is not random over the elements", "array", fmt.Sprint(arr), "missing", missing, "got", out, "error", errStr(err))
	}
	w.Feat("random functions observed")
}

// c11Small enumerates the small numeric domains.
func c11Small(w *W, part int) {
	rs := []string{"a", "é", "日", "😀", "e", "x", "y"}
	for n := 0; n <= 7; n++ {
		s := strings.Join(rs[:n], "")
		var arr []Val
		for j := 0; j < n; j++ {
			arr = append(arr, vInt(int64(j)))
		}
		bounds := []int64{math.MinInt64, math.MinInt64 + 1, -(1 << 32), 1 << 31, 1 << 32, math.MaxInt64, math.MaxInt64 - 1}
		for x := int64(-10); x <= 10; x++ {
			bounds = append(bounds, x)
		}
		for k, a := range bounds {
			if k%c11Slices != part {
				continue
			}
			for _, name := range []string{"at", "truncate", "repeat"} {
				if !w.checkCall(vStr(s), name, []Val{vInt(a)}, k%3) {
					return
				}
			}
			w.checkCall(vStr(s), "truncate", []Val{vInt(a), vStr("…")}, k%3)
			w.checkCall(vArr(arr...), "slice", []Val{vInt(a)}, k%3)
			for _, b := range bounds {
				if !w.checkCall(vArr(arr...), "slice", []Val{vInt(a), vInt(b)}, k%3) {
					return
				}
			}
		}
	}
	// equality of objects and arrays that differ in one place
	for n := 1 + part; n < 80; n += c11Slices {
		mk := func(odd int, v Val) Val {
			m := map[string]Val{}
			for k := 0; k < n; k++ {
				m["k"+letters(k)] = vInt(int64(k))
			}
			if odd >= 0 {
				m["k"+letters(odd)] = v
			}
			return vObj(m)
		}
		same := mk(-1, vNil())
		for odd := 0; odd <= n; odd += 1 + n/8 { // n itself: one key more
			for _, v := range []Val{vInt(-1), vStr(fmt.Sprint(odd)), vNil(), vFloat(float64(odd)), vArr(vInt(int64(odd)))} {
				o := mk(odd, v)
				if !w.checkCall(vArr(vInt(1), o), "contains", []Val{same}, odd%3) || !w.checkCall(vArr(vInt(1), same), "contains", []Val{o}, odd%3) || !w.checkCall(vArr(o, same), "contains", []Val{mk(odd, v)}, odd%3) || !w.checkCall(vArr(vArr(same)), "contains", []Val{vArr(o)}, odd%3) {
					return
				}
			}
		}
	}
	// lengths and counts around the sizes of narrower integers
	for _, n := range []int64{127, 128, 255, 256, 257, 1023, 1024, 1025, 32767, 32768, 65535, 65536, 65537, 70000} {
		if int(n)%c11Slices != part {
			continue
		}
		w.checkCall(vStr("a"), "repeat", []Val{vInt(n)}, part%3)
		long := vStr(strings.Repeat("aé", int(n)/2) + strings.Repeat("b", int(n)%2))
		for _, c := range []struct {
			name string
			args []Val
		}{{"len", nil}, {"reverse", nil}, {"at", []Val{vInt(n - 1)}}, {"at", []Val{vInt(n)}}, {"at", []Val{vInt(-n)}}, {"truncate", []Val{vInt(n - 1)}}, {"truncate", []Val{vInt(n)}}, {"last", nil}, {"upper", nil}, {"contains", []Val{vStr("b")}}, {"split", []Val{vStr("a")}}, {"split", []Val{vStr("")}}, {"trim", []Val{vStr("a")}}, {"trim", []Val{vStr("éab")}}, {"trimRight", []Val{vStr("bé")}}, {"capitalize", nil}} {
			if c.name == "split" && n > 2000 {
				continue // takes quadratic time
			}
			if !w.checkCall(long, c.name, c.args, 0) {
				return
			}
		}
		arr := Val{K: KArr, A: make([]Val, n)}
		for k := range arr.A {
			arr.A[k] = vInt(int64(k))
		}
		for _, c := range []struct {
			name string
			args []Val
		}{{"len", nil}, {"reverse", nil}, {"slice", []Val{vInt(n - 2)}}, {"slice", []Val{vInt(1), vInt(n - 1)}}, {"append", []Val{vInt(1)}}, {"prepend", []Val{vInt(1)}}, {"contains", []Val{vInt(n - 1)}}, {"contains", []Val{vInt(n)}}, {"join", nil}} {
			if c.name == "join" && n > 2000 {
				continue // takes quadratic time
			}
			if !w.checkCall(arr, c.name, c.args, 0) {
				return
			}
		}
	}
	w.Feat("small domains enumerated")
}

// c11Chain runs programs of calls that share arrays: a call that writes into
// its receiver or its arguments shows in a variable bound earlier.
func c11Chain(w *W) {
	type nv struct {
		n string
		v Val
	}
	data := map[string]any{}
	var vars []nv
	add := func(n string, v Val) { vars = append(vars, nv{n, v}) }
	for j := 0; j < 3; j++ {
		n := "d" + letters(j)
		v := c11Val(w.R, []VK{KArr, KArr, KStr, KInt, KObj}[w.R.IntN(5)], 2)
		data[n] = v.Go()
		add(n, v)
	}
	var src strings.Builder
	steps := 3 + w.R.IntN(6)
	for j := 0; j < steps; j++ {
		r := vars[w.R.IntN(len(vars))]
		if len(builtins[r.v.K]) == 0 {
			continue
		}
		var name string
		var args []Val
		var c callResult
		var as []string
		for try := 0; ; try++ {
			name = builtins[r.v.K][w.R.IntN(len(builtins[r.v.K]))]
			if r.v.K == KArr && w.R.IntN(2) == 0 {
				name = []string{"slice", "append", "prepend", "reverse", "shuffle", "contains"}[w.R.IntN(6)]
			}
			args, as = nil, nil
			for _, a := range c11Args(w.R, r.v, name) {
				// a variable of the same kind where there is one
				done := false
				if w.R.IntN(2) == 0 {
					for _, x := range vars {
						if x.v.K == a.K && w.R.IntN(3) == 0 {
							args, as, done = append(args, x.v), append(as, x.n), true
							break
						}
					}
				}
				if !done {
					if l := litOf(a); l != "" {
						args, as = append(args, a), append(as, l)
					}
				}
			}
			c = Call(r.v, name, args)
			if !c.Err && c.Ambig == "" && (c.Any == nil || name == "shuffle") && len(c.V.Print()) < 2000 {
				break
			}
			if try > 20 {
				name = ""
				break
			}
		}
		if name == "" {
			continue
		}
		if name == "shuffle" {
			fmt.Fprintf(&src, "{{ sh%s = %s.shuffle() }}", letters(j), r.n)
			continue
		}
		n := "v" + letters(j)
		fmt.Fprintf(&src, "{{ %s = %s.%s(%s) }}", n, r.n, name, strings.Join(as, ", "))
		add(n, c.V)
	}
	names := []string{}
	for _, v := range vars {
		names = append(names, v.n)
	}
	src.WriteString("{{ [" + strings.Join(names, ", ") + "].vhprobe().len() }}")
	c11Rec = nil
	out, err, fine := w.Eval(src.String(), data)
	if !fine {
		return
	}
	if err != nil || len(c11Rec) != len(vars) {
		w.Fail("a chain of calls fails", "template", src.String(), "data", string(mustJSON2(data)), "got", out, "error", errStr(err))
		return
	}
	for j, v := range vars {
		if got := valOf(c11Rec[j]); !same(got, v.v) {
			w.Fail("a variable has a wrong value after a chain of calls", "template", src.String(), "data", string(mustJSON2(data)), "variable", v.n, "expected", v.v.GoString(), "got", got.GoString())
			return
		}
		if j < 3 && !same(valOf(data[v.n]), v.v) {
			w.Fail("the caller's data is changed", "template", src.String(), "variable", v.n)
		}
	}
	w.Feat("chain of calls")
	w.Key(src.String())
	w.Sample(src.String())
}
