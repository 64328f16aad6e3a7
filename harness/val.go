package main

import (
	"fmt"
	"html"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// VK is the kind of a reference value.
type VK int

const (
	KNil VK = iota
	KBool
	KInt
	KFloat
	KStr
	KArr
	KObj
)

func (k VK) String() string {
	return [...]string{"nil", "bool", "int", "float", "str", "arr", "obj"}[k]
}

// Val is a value of the reference interpreter.
type Val struct {
	K VK
	B bool
	I int64
	F float64
	S string
	A []Val
	O map[string]Val
}

func vNil() Val            { return Val{K: KNil} }
func vBool(b bool) Val     { return Val{K: KBool, B: b} }
func vInt(i int64) Val     { return Val{K: KInt, I: i} }
func vFloat(f float64) Val { return Val{K: KFloat, F: f} }
func vStr(s string) Val    { return Val{K: KStr, S: s} }
func vArr(a ...Val) Val    { return Val{K: KArr, A: a} }
func vObj(o map[string]Val) Val {
	return Val{K: KObj, O: o}
}

// fuzzyFloat tells that the decimal spelling of f is not fixed by the
// properties (sign of zero, exponent range, infinities).
func fuzzyFloat(f float64) bool {
	return math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) >= 1e15 || (f == 0 && math.Signbit(f))
}

func fmtFloat(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return strconv.FormatFloat(f, 'f', 1, 64)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// hasFuzzy reports whether the printed form of v contains such a float.
func (v Val) hasFuzzy() bool {
	switch v.K {
	case KFloat:
		return fuzzyFloat(v.F)
	case KArr:
		for _, e := range v.A {
			if e.hasFuzzy() {
				return true
			}
		}
	case KObj:
		for _, e := range v.O {
			if e.hasFuzzy() {
				return true
			}
		}
	}
	return false
}

func (v Val) hasNaN() bool {
	if v.K == KFloat && v.F != v.F {
		return true
	}
	for _, e := range v.A {
		if e.hasNaN() {
			return true
		}
	}
	for _, e := range v.O {
		if e.hasNaN() {
			return true
		}
	}
	return false
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Print is the text that {{ v }} has to render.
func (v Val) Print() string {
	switch v.K {
	case KBool:
		if v.B {
			return "1"
		}
		return "0"
	case KInt:
		return strconv.FormatInt(v.I, 10)
	case KFloat:
		return fmtFloat(v.F)
	case KStr:
		return v.S
	case KArr:
		ss := make([]string, len(v.A))
		for i, e := range v.A {
			ss[i] = e.Print()
		}
		return strings.Join(ss, ", ")
	case KObj:
		ss := []string{}
		for _, k := range sortedKeys(v.O) {
			ss = append(ss, k+": "+v.O[k].Print())
		}
		return "{" + strings.Join(ss, ", ") + "}"
	}
	return ""
}

func (v Val) Truthy() bool {
	switch v.K {
	case KNil:
		return false
	case KBool:
		return v.B
	case KInt:
		return v.I != 0
	case KFloat:
		return v.F != 0
	case KStr:
		return v.S != ""
	}
	return true
}

func (v Val) Equal(o Val) bool {
	if v.K != o.K {
		return false
	}
	switch v.K {
	case KNil:
		return true
	case KBool:
		return v.B == o.B
	case KInt:
		return v.I == o.I
	case KFloat:
		return v.F == o.F
	case KStr:
		return v.S == o.S
	case KArr:
		if len(v.A) != len(o.A) {
			return false
		}
		for i := range v.A {
			if !v.A[i].Equal(o.A[i]) {
				return false
			}
		}
		return true
	}
	if len(v.O) != len(o.O) {
		return false
	}
	for k, e := range v.O {
		f, ok := o.O[k]
		if !ok || !e.Equal(f) {
			return false
		}
	}
	return true
}

// Go is the plain Go value of v.
func (v Val) Go() any {
	switch v.K {
	case KBool:
		return v.B
	case KInt:
		return v.I
	case KFloat:
		return v.F
	case KStr:
		return v.S
	case KArr:
		a := make([]any, len(v.A))
		for i, e := range v.A {
			a[i] = e.Go()
		}
		return a
	case KObj:
		m := map[string]any{}
		for k, e := range v.O {
			m[k] = e.Go()
		}
		return m
	}
	return nil
}

// escLit is the stored form of a string literal.
func escLit(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

// ---- built-in functions (contracts) ----

// callResult is the contract of a call: a value, an error, or unspecified.
type callResult struct {
	V     Val
	Err   bool
	Ambig string
	// Any accepts any value for which it returns true (nil: V exactly).
	Any func(Val) bool
}

var builtins = map[VK][]string{
	KStr:   {"len", "split", "raw", "trim", "trimRight", "trimLeft", "upper", "lower", "capitalize", "reverse", "contains", "truncate", "decimal", "at", "first", "last", "repeat"},
	KArr:   {"len", "join", "rand", "reverse", "slice", "shuffle", "contains", "append", "prepend"},
	KFloat: {"int", "str", "abs", "ceil", "floor", "round"},
	KInt:   {"float", "abs", "str", "len", "decimal"},
	KBool:  {"binary", "then"},
}

func isBuiltin(k VK, name string) bool {
	for _, b := range builtins[k] {
		if b == name {
			return true
		}
	}
	return false
}

func ok(v Val) callResult             { return callResult{V: v} }
func bad() callResult                 { return callResult{Err: true} }
func unspecified(s string) callResult { return callResult{Ambig: s} }

func runesOf(s string) []string {
	rs := []string{}
	for len(s) > 0 {
		_, n := utf8.DecodeRuneInString(s)
		rs = append(rs, s[:n])
		s = s[n:]
	}
	return rs
}

func trimSet(s, set string, left, right bool) string {
	in := map[string]bool{}
	for _, r := range runesOf(set) {
		in[r] = true
	}
	rs := runesOf(s)
	i, j := 0, len(rs)
	if left {
		for i < j && in[rs[i]] {
			i++
		}
	}
	if right {
		for j > i && in[rs[j-1]] {
			j--
		}
	}
	return strings.Join(rs[i:j], "")
}

func looksInt(s string) bool {
	if strings.HasPrefix(s, "-") {
		s = s[1:]
	}
	if s == "" {
		return false
	}
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return false
		}
	}
	return len(s) <= 18
}

// odd integer spellings for which decimal() is not specified
func oddInt(s string) bool {
	if looksInt(s) {
		return false
	}
	t := strings.TrimSpace(s)
	t = strings.TrimLeft(t, "+-")
	return t != "" && strings.Trim(t, "0123456789_xXbBoOabcdefABCDEF") == ""
}

// Call is the contract of built-in name on receiver r.
func Call(r Val, name string, args []Val) callResult {
	arg := func(i int) Val {
		if i < len(args) {
			return args[i]
		}
		return vNil()
	}
	n := len(args)
	switch r.K {
	case KStr:
		if !utf8.ValidString(r.S) {
			return unspecified("invalid utf-8 receiver")
		}
		for _, a := range args {
			if a.K == KStr && !utf8.ValidString(a.S) {
				return unspecified("invalid utf-8 argument")
			}
		}
		rs := runesOf(r.S)
		switch name {
		case "len":
			return ok(vInt(int64(len(rs))))
		case "split":
			sep := " "
			if n > 0 {
				if arg(0).K != KStr {
					return bad()
				}
				sep = arg(0).S
			}
			if sep == "" {
				if r.S == "" {
					return unspecified("split of the empty string by the empty string")
				}
				out := []Val{}
				for _, c := range rs {
					out = append(out, vStr(c))
				}
				return ok(vArr(out...))
			}
			out := []Val{}
			rest := r.S
			for {
				i := strings.Index(rest, sep)
				if i < 0 {
					break
				}
				out = append(out, vStr(rest[:i]))
				rest = rest[i+len(sep):]
			}
			return ok(vArr(append(out, vStr(rest))...))
		case "raw":
			return ok(vStr(html.UnescapeString(r.S)))
		case "trim", "trimLeft", "trimRight":
			set := "\t \n\r"
			if n > 0 {
				if arg(0).K != KStr {
					return bad()
				}
				set = arg(0).S
			} else if t := strings.Trim(r.S, set); t != strings.TrimSpace(t) {
				return unspecified("trimming of an unusual space")
			}
			return ok(vStr(trimSet(r.S, set, name != "trimRight", name != "trimLeft")))
		case "upper", "lower":
			var out strings.Builder
			for _, c := range r.S {
				if unicode.IsLetter(c) && c > 0x24f && !(c > 0x370 && c < 0x500 && c != 'Σ' && c != 'ς' && c != 'ΐ' && c != 'ΰ') {
					return unspecified("case mapping outside Latin")
				}
				if name == "upper" {
					out.WriteRune(unicode.ToUpper(c))
				} else {
					out.WriteRune(unicode.ToLower(c))
				}
			}
			return ok(vStr(out.String()))
		case "capitalize":
			if len(rs) == 0 {
				return ok(vStr(""))
			}
			c, _ := utf8.DecodeRuneInString(rs[0])
			return ok(vStr(string(unicode.ToUpper(c)) + strings.Join(rs[1:], "")))
		case "reverse":
			var out strings.Builder
			for i := len(rs) - 1; i >= 0; i-- {
				out.WriteString(rs[i])
			}
			return ok(vStr(out.String()))
		case "contains":
			if n == 0 || arg(0).K != KStr {
				return bad()
			}
			return ok(vBool(strings.Contains(r.S, arg(0).S)))
		case "truncate":
			if n == 0 || arg(0).K != KInt {
				return bad()
			}
			lim := arg(0).I
			if lim >= int64(len(rs)) {
				if n > 1 && arg(1).K != KStr {
					return unspecified("unused argument of a wrong kind")
				}
				return ok(vStr(r.S))
			}
			ell := "..."
			if n > 1 {
				if arg(1).K != KStr {
					return bad()
				}
				ell = arg(1).S
			}
			if lim < 0 {
				res := ok(vStr(ell))
				res.Ambig = "error-or-value"
				return res
			}
			return ok(vStr(strings.Join(rs[:lim], "") + ell))
		case "decimal":
			if !looksInt(r.S) {
				if oddInt(r.S) {
					return unspecified("odd integer spelling")
				}
				if n > 0 {
					return unspecified("decimal arguments on a non-number")
				}
				return ok(vStr(r.S))
			}
			return decimal(r.S, args)
		case "at", "first", "last":
			idx := int64(0)
			if name == "last" {
				idx = -1
			}
			if name == "at" && n > 0 {
				if arg(0).K != KInt {
					return bad()
				}
				idx = arg(0).I
			}
			if name != "at" && n > 0 {
				return unspecified("extra arguments")
			}
			if idx < 0 {
				idx += int64(len(rs))
			}
			if idx < 0 || idx >= int64(len(rs)) {
				return ok(vNil())
			}
			return ok(vStr(rs[idx]))
		case "repeat":
			if n == 0 || arg(0).K != KInt {
				return bad()
			}
			if arg(0).I < 0 {
				res := ok(vStr(""))
				res.Ambig = "error-or-value"
				return res
			}
			if int64(len(r.S)) > 0 && arg(0).I > 100000 {
				return unspecified("oversized repeat count")
			}
			if r.S == "" {
				return ok(vStr(""))
			}
			out := make([]byte, 0, len(r.S)*int(arg(0).I))
			for i := int64(0); i < arg(0).I; i++ {
				out = append(out, r.S...)
			}
			return ok(vStr(string(out)))
		}
	case KArr:
		switch name {
		case "len":
			return ok(vInt(int64(len(r.A))))
		case "join":
			sep := ","
			if n > 0 {
				if arg(0).K != KStr {
					return bad()
				}
				sep = arg(0).S
			}
			if r.hasFuzzy() {
				return unspecified("float spelling")
			}
			ss := []string{}
			for _, e := range r.A {
				ss = append(ss, e.Print())
			}
			return ok(vStr(strings.Join(ss, sep)))
		case "rand":
			if len(r.A) == 0 {
				return ok(vNil())
			}
			return callResult{V: r.A[0], Any: func(v Val) bool {
				for _, e := range r.A {
					if same(e, v) {
						return true
					}
				}
				return false
			}}
		case "reverse":
			out := []Val{}
			for i := len(r.A) - 1; i >= 0; i-- {
				out = append(out, r.A[i])
			}
			return ok(vArr(out...))
		case "shuffle":
			return callResult{V: r, Any: func(v Val) bool { return v.K == KArr && samePermutation(r.A, v.A) }}
		case "slice":
			if n == 0 || arg(0).K != KInt {
				return bad()
			}
			if n > 1 && arg(1).K != KInt {
				return bad()
			}
			ln := int64(len(r.A))
			s, e := arg(0).I, ln
			if s < 0 {
				s = 0
			}
			if s > ln {
				s = ln
			}
			if n > 1 {
				e = arg(1).I
				if e > ln {
					e = ln
				}
				if e < 0 {
					// a negative end means up to the end
					e = ln
				}
			}
			if e < s {
				e = s
			}
			return ok(vArr(append([]Val{}, r.A[s:e]...)...))
		case "contains":
			if n == 0 {
				return bad()
			}
			if arg(0).hasNaN() && r.hasNaN() {
				return unspecified("NaN in contains")
			}
			for _, e := range r.A {
				if e.Equal(arg(0)) {
					return ok(vBool(true))
				}
			}
			return ok(vBool(false))
		case "append":
			if n == 0 {
				return bad()
			}
			return ok(vArr(append(append([]Val{}, r.A...), args...)...))
		case "prepend":
			if n == 0 {
				return bad()
			}
			return ok(vArr(append(append([]Val{}, args...), r.A...)...))
		}
	case KInt:
		switch name {
		case "float":
			return ok(vFloat(float64(r.I)))
		case "abs":
			if r.I == math.MinInt64 {
				return unspecified("abs of the least integer")
			}
			if r.I < 0 {
				return ok(vInt(-r.I))
			}
			return ok(r)
		case "str":
			return ok(vStr(strconv.FormatInt(r.I, 10)))
		case "len":
			return ok(vInt(int64(len(strings.TrimPrefix(strconv.FormatInt(r.I, 10), "-")))))
		case "decimal":
			return decimal(strconv.FormatInt(r.I, 10), args)
		}
	case KFloat:
		conv := func(f float64) callResult {
			if math.IsNaN(f) || f < -9.2e18 || f > 9.2e18 {
				return unspecified("float outside the integer range")
			}
			return ok(vInt(int64(f)))
		}
		switch name {
		case "int":
			return conv(math.Trunc(r.F))
		case "ceil":
			return conv(math.Ceil(r.F))
		case "floor":
			return conv(math.Floor(r.F))
		case "round":
			f := r.F
			if math.Abs(f) < 1e15 {
				// half away from zero, computed exactly
				x := new(big.Rat).SetFloat64(math.Abs(f))
				x.Add(x, big.NewRat(1, 2))
				q := new(big.Int).Quo(x.Num(), x.Denom()).Int64()
				if f < 0 {
					q = -q
				}
				return ok(vInt(q))
			}
			return conv(math.Round(f))
		case "abs":
			return ok(vFloat(math.Abs(r.F)))
		case "str":
			if fuzzyFloat(r.F) || r.F == math.Trunc(r.F) {
				// "1" or "1.0": the numeric value has to be the same
				return callResult{V: vStr(fmtFloat(r.F)), Any: func(v Val) bool {
					p, err := strconv.ParseFloat(v.S, 64)
					return v.K == KStr && err == nil && (p == r.F || p != p && r.F != r.F)
				}}
			}
			return ok(vStr(strconv.FormatFloat(r.F, 'f', -1, 64)))
		}
	case KBool:
		switch name {
		case "binary":
			if r.B {
				return ok(vInt(1))
			}
			return ok(vInt(0))
		case "then":
			if n == 0 {
				return bad()
			}
			if r.B {
				return ok(arg(0))
			}
			return ok(arg(1))
		}
	}
	return bad()
}

func decimal(s string, args []Val) callResult {
	sep, dec := ".", int64(2)
	if len(args) > 2 {
		return bad()
	}
	if len(args) > 0 {
		if args[0].K != KStr {
			return bad()
		}
		sep = args[0].S
	}
	if len(args) > 1 {
		if args[1].K != KInt {
			return bad()
		}
		dec = args[1].I
	}
	if dec < 0 {
		res := ok(vStr(s))
		res.Ambig = "error-or-value"
		return res
	}
	if dec > 100000 {
		return unspecified("oversized decimals")
	}
	if dec == 0 {
		return ok(vStr(s))
	}
	return ok(vStr(s + sep + strings.Repeat("0", int(dec))))
}

func samePermutation(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	for _, x := range a {
		found := false
		for j, y := range b {
			if !used[j] && same(x, y) {
				used[j], found = true, true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func (v Val) GoString() string { return fmt.Sprintf("%s(%q)", v.K, v.Print()) }

// ratOf is the double nearest to (shortest decimal spelling of f) - 1.
func ratOf(f float64) float64 {
	r, okk := new(big.Rat).SetString(strconv.FormatFloat(f, 'f', -1, 64))
	if !okk {
		return f - 1
	}
	r.Sub(r, big.NewRat(1, 1))
	v, _ := r.Float64()
	return v
}
