package main

import (
	"errors"
	"fmt"
	"html"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
	"unsafe"

	textwire "github.com/textwire/textwire/v2"
)

func init() {
	register(&Prop{
		ID: "C12", Quick: 400000, Thorough: 3000000,
		Rule: "Go values of random types built at run time (all integer and float widths, named types with and without methods, pointers, slices, string-keyed maps, structs with exported and unexported fields, tags, embedded values and pointers, interfaces; nil at every position; shared pointers, pointers to a struct and to its fields, overlapping slices), every access path into them in random dot/index/lower-case spelling; 1 in 4 has a value of another kind (chan, func, complex, array, other map keys, unsafe pointer) at a random depth; " +
			"monitors: every leaf prints as the equal literal / its exact bytes, containers have the right length and iterate to the right elements, unexported fields are not reachable and never printed, unsupported values make the call fail, a recording function sees the same structure, the caller's data is unchanged (compared with an independently built twin); distinct = type + spelling of the paths",
		Assumptions: []string{"integers above the int64 range, nil slices and nil maps as containers, and pointers to unsupported kinds that are nil are not specified", "promoted fields of embedded structs are reached through the embedded field"},
		Setup:       c12Setup,
		Run:         c12,
	})
}

func c12Setup(w *W) {
	must(textwire.RegisterArrFunc("vhprobe", func(a []any, args ...any) []any {
		c11Rec = append([]any{}, a...)
		return a
	}))
}

type (
	nInt   int8
	nStr   string
	nBool  bool
	nF32   float32
	nSlice []nInt
	nMap   map[nStr]any
	nStruc struct {
		Title nStr
		title string
		N     *nInt
		Tags  nSlice
		Meta  nMap
		any   any
	}
	nEmb struct {
		nStruc
		NPub
		Own string
	}
	NPub struct {
		Pub  int
		priv string
	}
	NTag struct {
		First string         `json:"f"`
		Age   int            `json:"-"`
		Extra map[string]any `json:",inline" yaml:"e"`
		Own   *int           `json:"first,omitempty"`
	}
	nEmbP struct {
		*NPub
		*NTag
		nSlice
		Own string
	}
	nDeep struct {
		P ***int
		S [][][]string
		M map[string]map[string][]*NPub
		I any
		J *any
		F func() `json:"-"`
	}
)

func (nInt) String() string    { return "STRINGER" }
func (nStr) Error() string     { return "ERRORER" }
func (n NPub) String() string  { return "STRINGER" }
func (n *nEmb) String() string { return "STRINGER" }

var c12Basic = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(0.0),
	reflect.TypeOf(nInt(0)), reflect.TypeOf(nStr("")), reflect.TypeOf(nBool(false)), reflect.TypeOf(nF32(0)), reflect.TypeOf(time.Second),
}
var tAny = reflect.TypeOf((*any)(nil)).Elem()

var c12Fields = []string{"Name", "Age", "Items", "URL", "X", "A1", "Über", "IsOK", "Name_2", "ID", "Loop"}

func c12Type(r *rand.Rand, d int) reflect.Type {
	if d <= 0 || r.IntN(4) == 0 {
		return c12Basic[r.IntN(len(c12Basic))]
	}
	switch r.IntN(12) {
	case 0, 1:
		return reflect.PointerTo(c12Type(r, d-1))
	case 2, 3:
		return reflect.SliceOf(c12Type(r, d-1))
	case 4:
		return reflect.MapOf(reflect.TypeOf(""), c12Type(r, d-1))
	case 5:
		return reflect.MapOf(reflect.TypeOf(nStr("")), c12Type(r, d-1))
	case 6, 7, 8:
		var fs []reflect.StructField
		if r.IntN(40) == 0 {
			for n := 5 + r.IntN(40); n > 0; n-- {
				fs = append(fs, reflect.StructField{Name: "F" + letters(n), Type: c12Type(r, 0)})
			}
		}
		for _, i := range r.Perm(len(c12Fields))[:r.IntN(5)] {
			f := reflect.StructField{Name: c12Fields[i], Type: c12Type(r, d-1)}
			if r.IntN(5) == 0 { // tags do not matter
				f.Tag = reflect.StructTag([]string{`json:"renamed"`, `json:"-"`, `json:",omitempty"`, `json:"name,omitempty" yaml:"n"`, `textwire:"other"`, `tw:"-"`, `db:"age"`, "odd"}[r.IntN(8)])
			}
			fs = append(fs, f)
			if r.IntN(4) == 0 {
				// an unexported field of the same name in lower case
				fs = append(fs, reflect.StructField{Name: lowerFirst(c12Fields[i]), PkgPath: "verif/harness", Type: reflect.TypeOf("")})
			}
		}
		if r.IntN(2) == 0 {
			fs = append(fs, reflect.StructField{Name: "secret", PkgPath: "verif/harness", Type: reflect.TypeOf("")})
		}
		return reflect.StructOf(fs)
	case 9:
		return []reflect.Type{reflect.TypeOf(nStruc{}), reflect.TypeOf(nEmb{}), reflect.TypeOf(NPub{}), reflect.TypeOf(nSlice{}), reflect.TypeOf(nMap{}), reflect.TypeOf(NTag{}), reflect.TypeOf(nEmbP{}), reflect.TypeOf(&nEmbP{})}[r.IntN(8)]
	default:
		return tAny
	}
}

func lowerFirst(s string) string {
	c, n := utf8.DecodeRuneInString(s)
	return string(unicode.ToLower(c)) + s[n:]
}

var c12Strs = []string{"", "plain", "<b>&amp;</b>", "é日😀", "\xff\xfe", "a\x00b", "{{ x }} @if(1)", "line\r\nline", "'\"", "  ", "&lt;", "%d%s", "SEP"}
var c12Keys = []string{"k", "a", "Name", "name", "long_key", "x1", "é", "with space", "<k>", "", "a.b", "0", "true", "loop", "Zed", "&", "k'q", "id", "ID", "Id", "iD", "K", "NAME", "A", "&amp;", "a<b", "a>b", "&lt;k>", "a&b=c", "k\"q"}

const secretText = "S3CR3T"

// fill sets v (addressable) to a random value.
func c12Fill(r *rand.Rand, v reflect.Value, d int, shared map[reflect.Type]reflect.Value) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
	case reflect.String:
		v.SetString(c12Strs[r.IntN(len(c12Strs))])
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := t.Bits()
		switch r.IntN(5) {
		case 0:
			v.SetInt(math.MaxInt64 >> (64 - bits))
		case 1:
			v.SetInt(math.MinInt64 >> (64 - bits))
		case 2:
			v.SetInt(int64(r.Uint64()) >> (64 - bits))
		default:
			v.SetInt(int64(r.IntN(20) - 5))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits := t.Bits()
		switch r.IntN(4) {
		case 0:
			if bits == 64 {
				v.SetUint(math.MaxInt64)
			} else {
				v.SetUint(1<<bits - 1)
			}
		case 1:
			v.SetUint(r.Uint64() >> (64 - bits) & math.MaxInt64)
		default:
			v.SetUint(uint64(r.IntN(20)))
		}
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1, -1, 0.5, 0.1, -2.75, 100, 1e10, 3.14159, 1e-3, 123456.789, 16777216, 0.30000000000000004}[r.IntN(13)])
	case reflect.Pointer:
		if r.IntN(5) == 0 {
			return
		}
		if s, found := shared[t]; found && r.IntN(4) == 0 {
			v.Set(s)
			return
		}
		p := reflect.New(t.Elem())
		c12Fill(r, p.Elem(), d-1, shared)
		shared[t] = p
		v.Set(p.Convert(t))
	case reflect.Slice:
		if r.IntN(8) == 0 {
			return
		}
		n := r.IntN(4)
		if k := t.Elem().Kind(); k <= reflect.Float64 && r.IntN(60) == 0 {
			n = 10 + r.IntN(400)
		}
		s := reflect.MakeSlice(t, n, n+r.IntN(3))
		for i := 0; i < n; i++ {
			c12Fill(r, s.Index(i), d-1, shared)
		}
		v.Set(s)
	case reflect.Map:
		if r.IntN(8) == 0 {
			return
		}
		m := reflect.MakeMap(t)
		for n := r.IntN(4); n > 0; n-- {
			e := reflect.New(t.Elem()).Elem()
			c12Fill(r, e, d-1, shared)
			m.SetMapIndex(reflect.ValueOf(c12Keys[r.IntN(len(c12Keys))]).Convert(t.Key()), e)
		}
		if k := t.Elem().Kind(); k <= reflect.Float64 && r.IntN(60) == 0 {
			for n := 10 + r.IntN(200); n > 0; n-- {
				e := reflect.New(t.Elem()).Elem()
				c12Fill(r, e, d-1, shared)
				m.SetMapIndex(reflect.ValueOf("m"+letters(r.IntN(9999))).Convert(t.Key()), e)
			}
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if t.Field(i).PkgPath != "" {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
				switch f.Kind() {
				case reflect.String:
					f.SetString(secretText)
				case reflect.Interface:
					f.Set(reflect.ValueOf(secretText))
				case reflect.Struct:
					c12Fill(r, f, d-1, shared)
				}
				continue
			}
			c12Fill(r, f, d-1, shared)
		}
	case reflect.Interface:
		if d <= 0 || r.IntN(6) == 0 {
			return
		}
		x := reflect.New(c12Type(r, min(d-1, 3))).Elem()
		c12Fill(r, x, d-1, shared)
		v.Set(x)
	}
}

// c12Bad is a value of a kind that is not supported.
func c12Bad(r *rand.Rand) any {
	return []any{make(chan int), func() {}, complex(1, 1), complex64(1), [2]int{1, 2}, [0]string{}, map[int]string{1: "x"}, map[any]any{"a": 1}, map[bool]int{}, unsafe.Pointer(new(int)),
		(chan int)(nil), (func())(nil), nDeep{}, map[[1]string]int{}, [1]any{nil}, complex(1, 0), complex(0, 0), complex64(0), [0]int{}, [1]byte{65}, [3]string{"a", "b", "c"}, map[int8]any{}, map[float64]string{1: "a"}, map[rune]string{'a': "a"}, map[nInt]int{1: 1}, map[any]any{}, uintptr(1), uintptr(0),
		errors.New, fmt.Sprint, (*[2]int)(&[2]int{1, 2}), &[]any{func() {}}, (<-chan string)(nil), make(chan<- bool), map[*int]string{}, map[struct{}]string{}}[r.IntN(36)]
}

// c12Wrap puts x at some depth.
func c12Wrap(r *rand.Rand, x any) any {
	n := r.IntN(4)
	if r.IntN(20) == 0 {
		n = 4 + r.IntN(20)
	}
	for ; n > 0; n-- {
		switch r.IntN(9) {
		case 8: // among many
			s := make([]any, 5+r.IntN(60))
			for i := range s {
				s[i] = []any{i, "s", nil, 1.5, true}[i%5]
			}
			s[r.IntN(len(s))] = x
			if x = s; r.IntN(2) == 0 {
				m := map[string]any{}
				for i, e := range s {
					m["m"+letters(i)] = e
				}
				x = m
			}
		case 0:
			x = []any{1, nil, x}
		case 1:
			x = map[string]any{"a": "b", "k": x}
		case 2:
			p := &x
			x = p
			y := x
			x = y
		case 3:
			x = struct {
				Name string
				V    any
			}{"n", x}
		case 4:
			s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(x)), 1, 1)
			s.Index(0).Set(reflect.ValueOf(x))
			x = s.Interface()
		case 5:
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), reflect.TypeOf(x)))
			m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(x))
			x = m.Interface()
		case 6:
			p := reflect.New(reflect.TypeOf(x))
			p.Elem().Set(reflect.ValueOf(x))
			x = p.Interface()
		default:
			st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(1)}, {Name: "B", Type: reflect.TypeOf(x)}})).Elem()
			st.Field(1).Set(reflect.ValueOf(x))
			x = st.Interface()
		}
	}
	return x
}

// c12Val is the reference value of a Go value; nil slices and maps are marked
// by the feature set.
func c12Val(v reflect.Value) Val {
	switch v.Kind() {
	case reflect.Invalid:
		return vNil()
	case reflect.Pointer, reflect.Interface:
		return c12Val(v.Elem())
	case reflect.Bool:
		return vBool(v.Bool())
	case reflect.String:
		return vStr(v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return vInt(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return vInt(int64(v.Uint()))
	case reflect.Float32, reflect.Float64:
		return vFloat(v.Float())
	case reflect.Slice:
		a := []Val{}
		for i := 0; i < v.Len(); i++ {
			a = append(a, c12Val(v.Index(i)))
		}
		return vArr(a...)
	case reflect.Map:
		m := map[string]Val{}
		for _, k := range v.MapKeys() {
			m[k.String()] = c12Val(v.MapIndex(k))
		}
		return vObj(m)
	case reflect.Struct:
		m := map[string]Val{}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				m[v.Type().Field(i).Name] = c12Val(v.Field(i))
			}
		}
		return vObj(m)
	}
	panic("c12Val " + v.Kind().String())
}

// c12Path is an access path with the value it has to reach.
type c12Path struct {
	x      *X
	v      Val
	nilCon bool // a nil slice or map
}

type c12Walk struct {
	r     *rand.Rand
	paths []c12Path
	bad   []*X // paths that must not exist
	keys  map[string]any
}

func (k *c12Walk) access(x *X, name string, field bool) *X {
	if field && k.r.IntN(2) == 0 {
		name = lowerFirst(name)
	}
	if isIdent(name) && k.r.IntN(2) == 0 {
		return xDot(x, name, KNil)
	}
	if k.r.IntN(3) > 0 {
		return xIdx(x, xStrQ(name, quote(k.r)), KNil)
	}
	n := "key" + letters(len(k.keys))
	k.keys[n] = name
	return xIdx(x, xVar(n, KStr), KNil)
}

func (k *c12Walk) walk(v reflect.Value, x *X) {
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if len(k.paths) > 60 {
		return
	}
	p := c12Path{x: x, v: c12Val(v)}
	switch v.Kind() {
	case reflect.Slice:
		p.nilCon = v.IsNil()
		for i := 0; i < v.Len(); i++ {
			k.walk(v.Index(i), xIdx(x, xInt(int64(i)), KNil))
		}
	case reflect.Map:
		p.nilCon = v.IsNil()
		ks := map[string]reflect.Value{}
		for _, key := range v.MapKeys() {
			ks[key.String()] = v.MapIndex(key)
		}
		for _, n := range sortedKeys(ks) {
			k.walk(ks[n], k.access(x, n, false))
		}
		for _, n := range sortedKeys(ks) { // names that the map does not have
			for _, m := range []string{html.UnescapeString(n), html.EscapeString(n)} {
				up, l := utf8.DecodeRuneInString(m)
				_, has := ks[m]
				if _, hasUp := ks[string(unicode.ToUpper(up))+m[l:]]; m != n && !has && !hasUp {
					k.bad = append(k.bad, xIdx(x, xStrQ(m, quote(k.r)), KNil))
				}
			}
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.IsExported() {
				k.walk(v.Field(i), k.access(x, f.Name, true))
				continue
			}
			// not reachable, unless it spells an exported field
			up, n := utf8.DecodeRuneInString(f.Name)
			if _, found := t.FieldByName(string(unicode.ToUpper(up)) + f.Name[n:]); !found {
				k.bad = append(k.bad, k.access(x, f.Name, false))
			}
		}
	}
	k.paths = append(k.paths, p)
}

// c12Alias builds values that share memory: a struct and its fields by pointer,
// parts of one array, one map in several places.
func c12Alias(r *rand.Rand) reflect.Value {
	var xs []any
	shared := map[reflect.Type]reflect.Value{}
	st := reflect.StructOf([]reflect.StructField{{Name: "Name", Type: c12Type(r, r.IntN(3))}, {Name: "Age", Type: c12Type(r, 1)}})
	if r.IntN(2) == 0 { // the first field of the first field
		st = reflect.StructOf([]reflect.StructField{{Name: "X", Type: st}, {Name: "ID", Type: c12Type(r, 0)}})
	}
	p := reflect.New(st)
	c12Fill(r, p.Elem(), 3, shared)
	for f := p.Elem(); ; f = f.Field(0) {
		xs = append(xs, f.Addr().Interface())
		if f.Kind() == reflect.Struct && f.NumField() > 0 && f.Type().Field(0).IsExported() {
			continue
		}
		break
	}
	xs = append(xs, p.Elem().Field(1).Addr().Interface(), p.Interface())
	n := 1 + r.IntN(5)
	base := reflect.MakeSlice(reflect.SliceOf(c12Type(r, r.IntN(3))), n, n)
	for i := 0; i < n; i++ {
		c12Fill(r, base.Index(i), 2, shared)
	}
	xs = append(xs, base.Interface())
	for m := 1 + r.IntN(4); m > 0; m-- {
		lo := r.IntN(n + 1)
		hi := lo + r.IntN(n+1-lo)
		if r.IntN(2) == 0 {
			lo = 0
		}
		xs = append(xs, base.Slice(lo, hi).Interface())
		if lo < n {
			xs = append(xs, base.Index(lo).Addr().Interface())
		}
	}
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), base.Type()))
	m.SetMapIndex(reflect.ValueOf("k"), base)
	m.SetMapIndex(reflect.ValueOf("a"), base.Slice(0, n-1))
	xs = append(xs, m.Interface(), m.Interface())
	r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
	var x any = xs[:min(len(xs), 2+r.IntN(len(xs)))]
	if r.IntN(3) == 0 {
		o := map[string]any{}
		for i, e := range x.([]any) {
			o["m"+letters(i)] = e
		}
		x = o
	}
	v := reflect.New(reflect.TypeOf(x)).Elem()
	v.Set(reflect.ValueOf(x))
	return v
}

// c12Make builds the value of a case; the same random source gives twins.
func c12Make(r *rand.Rand) reflect.Value {
	if r.IntN(16) == 0 {
		return c12Alias(r)
	}
	t := c12Type(r, 1+r.IntN(4))
	if r.IntN(3) == 0 {
		t = []reflect.Type{reflect.TypeOf(nStruc{}), reflect.TypeOf(nEmb{}), reflect.TypeOf(&nEmb{}), reflect.TypeOf([]*nStruc{}), reflect.TypeOf(map[string]*NPub{}), reflect.TypeOf(&nEmbP{}), reflect.TypeOf([]NTag{}), reflect.TypeOf([]any{}), reflect.TypeOf(map[string]any{})}[r.IntN(9)]
	}
	v := reflect.New(t).Elem()
	c12Fill(r, v, 4, map[reflect.Type]reflect.Value{})
	if r.IntN(40) == 0 { // deep
		for n := 5 + r.IntN(30); n > 0; n-- {
			var o reflect.Value
			switch r.IntN(5) {
			case 0:
				o = reflect.New(v.Type()).Elem()
				o.Set(v)
				o = o.Addr()
			case 1:
				o = reflect.ValueOf([]any{1, v.Interface()})
			case 2:
				o = reflect.ValueOf(map[string]any{"k": v.Interface()})
			case 3:
				o = reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 1)
				o.Index(0).Set(v)
			default:
				o = reflect.ValueOf(struct {
					A int
					B any
				}{n, v.Interface()})
			}
			v = reflect.New(o.Type()).Elem()
			v.Set(o)
		}
	}
	return v
}

func c12(w *W, i int) {
	if i%4 == 3 {
		c12Unsupported(w, i)
		return
	}
	s1, s2 := w.R.Uint64(), w.R.Uint64()
	v := c12Make(rand.New(rand.NewPCG(s1, s2)))
	twin := c12Make(rand.New(rand.NewPCG(s1, s2)))
	k := &c12Walk{r: w.R, keys: map[string]any{}}
	name := []string{"v", "user", "Data", "x_1"}[w.R.IntN(4)]
	k.walk(v, xVar(name, KNil))
	data := map[string]any{name: v.Interface(), "zz": 1}
	for n, s := range k.keys {
		data[n] = s
	}
	size := len(data)
	want := c12Val(v)

	var b strings.Builder
	expr := func(x *X) string {
		p := newPr(w.R, Style{Spaces: w.R.IntN(3)})
		p.expr(x)
		return p.B.String()
	}
	var spell []string
	var exp []string
	for j, p := range k.paths {
		e := expr(p.x)
		spell = append(spell, e)
		x := ""
		mark := func(src, out string) {
			fmt.Fprintf(&b, "[[%d:%s:%d]]\n", len(exp), src, len(exp))
			exp = append(exp, out)
		}
		switch p.v.K {
		case KStr:
			mark("{{ "+e+" }}", p.v.S)
		case KInt, KFloat, KBool, KNil:
			mark("{{ "+e+" }}", p.v.Print())
			l := litOf(p.v)
			if p.v.K == KFloat && p.v.F < 0 {
				l = "-" + xFloat(-p.v.F).Src
			}
			if l != "" && p.v.K != KNil {
				mark("{{ "+l+" }}", p.v.Print())
			}
			if l != "" && p.v.K != KNil && p.v.K != KBool {
				mark("@if("+e+" == "+l+")same@end", "same")
			}
		case KArr:
			if !p.nilCon {
				mark("{{ "+e+".len() }}", fmt.Sprint(len(p.v.A)))
			}
			homog := true
			for _, el := range p.v.A {
				homog = homog && el.K == p.v.A[0].K
				x += "(" + el.Print() + ")"
			}
			if !homog || p.nilCon {
				break
			}
			if len(p.v.A) == 0 {
				x = "none"
			}
			mark("@each(e"+letters(j)+" in "+e+")({{ e"+letters(j)+" }})@else"+"none@end", x)
			mark("{{ "+e+" }}", p.v.Print())
		case KObj:
			mark("@if("+e+")yes@end", map[bool]string{true: "yes", false: "?"}[!p.nilCon])
			if !p.nilCon {
				mark("{{ "+e+" }}", p.v.Print())
			}
		}
		w.Feat("path to " + p.v.K.String())
	}
	if w.R.IntN(3) == 0 {
		// templates that assign and transform must not write through
		b.WriteString("{{ " + name + "2 = " + name + "; zz = 2; zz++; new = 3 }}")
		if want.K == KArr {
			b.WriteString("{{ " + name + "3 = " + name + ".append(1).reverse().shuffle().slice(1) }}")
		}
	}
	b.WriteString("@dump(" + name + ")")
	b.WriteString("{{ [" + name + "].vhprobe().len() }}")
	src := b.String()
	c11Rec = nil
	var out string
	var err error
	fine := true
	if i%16 == 0 {
		t := &dirTree{Dir: fmt.Sprintf("c12-%d", i), Ext: ".tw", Files: map[string]string{"p": src}}
		w.writeTree(t)
		defer w.rmTree(t)
		tpl, lerr, f := w.load(t)
		if !f {
			return
		}
		if lerr != nil {
			w.Fail("template does not load", "template", src, "error", lerr.Error())
			return
		}
		o, ferr, f := w.render(tpl, t, "p", data)
		out, fine = o, f
		if ferr != nil {
			err = ferr.Error()
		}
	} else {
		out, err, fine = w.Eval(src, data)
	}
	if !fine {
		return
	}
	info := []string{"template", src, "type", v.Type().String(), "data", dumpGo(v), "got", out, "error", errStr(err)}
	if err != nil {
		w.Fail("supported data does not render", info...)
		return
	}
	if strings.Contains(out, secretText) {
		w.Fail("an unexported field is visible", info...)
		return
	}
	for j, e := range exp {
		m := fmt.Sprintf("[[%d:%s:%d]]", j, e, j)
		if e != "?" && !strings.Contains(out, m) {
			w.Fail("a path shows another value", append(info, "expected", m)...)
			return
		}
	}
	if len(c11Rec) != 1 || !same(valOf(c11Rec[0]), want) && !hasNilCon(v) {
		w.Fail("the structure differs", append(info, "seen", fmt.Sprintf("%#v", c11Rec))...)
		return
	}
	if len(data) != size || !reflect.DeepEqual(data[name], twin.Interface()) || data["zz"] != 1 {
		w.Fail("the caller's data is modified", info...)
		return
	}
	w.Key(v.Type().String() + strings.Join(spell, "|"))
	w.Sample(v.Type().String() + "\n" + strings.Join(spell, "\n"))
	for _, x := range k.bad {
		e := expr(x)
		out, err, fine := w.Eval("{{ "+e+" }}", data)
		if !fine {
			return
		}
		w.Feat("absent name")
		if err == nil {
			w.Fail("an unexported field or an absent key is reachable", "template", e, "type", v.Type().String(), "got", out)
			return
		}
	}
}

func hasNilCon(v reflect.Value) bool {
	return strings.Contains(dumpGo(v), "(nil)")
}

func dumpGo(v reflect.Value) string { return dumpGoD(v, 0) }

func dumpGoD(v reflect.Value, d int) string {
	if d > 90 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Pointer:
		return "&" + dumpGoD(v.Elem(), d+1)
	case reflect.Interface:
		return dumpGoD(v.Elem(), d+1)
	case reflect.Slice, reflect.Map:
		s := v.Type().String()
		if v.IsNil() {
			return s + "(nil)"
		}
		s += "{"
		if v.Kind() == reflect.Slice {
			for i := 0; i < v.Len(); i++ {
				s += dumpGoD(v.Index(i), d+1) + ", "
			}
		} else {
			for _, k := range v.MapKeys() {
				s += fmt.Sprintf("%q: ", k.String()) + dumpGoD(v.MapIndex(k), d+1) + ", "
			}
		}
		return s + "}"
	case reflect.Struct:
		s := "struct{"
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + ": " + dumpGoD(v.Field(i), d+1) + ", "
		}
		return s + "}"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprintf("%s(%v)", v.Type(), v)
}

func c12Unsupported(w *W, i int) {
	bad := c12Bad(w.R)
	x := c12Wrap(w.R, bad)
	data := map[string]any{"a": 1, "v": x, "z": "s"}
	// the template need not use the value
	src := []string{"text", "{{ a }}", "{{ v }}", "", "@if(false){{ v }}@end"}[w.R.IntN(5)]
	var out string
	var err error
	fine := true
	if i%32 == 3 {
		t := &dirTree{Dir: fmt.Sprintf("c12u-%d", i), Ext: ".tw", Files: map[string]string{"p": src}}
		w.writeTree(t)
		defer w.rmTree(t)
		tpl, lerr, f := w.load(t)
		if !f || lerr != nil {
			return
		}
		o, ferr, f := w.render(tpl, t, "p", data)
		out, fine = o, f
		if ferr != nil {
			err = ferr.Error()
		}
	} else {
		out, err, fine = w.Eval(src, data)
	}
	if !fine {
		return
	}
	w.Feat(fmt.Sprintf("unsupported %T", bad))
	w.Key(fmt.Sprintf("%T%s", x, src))
	if err == nil || out != "" {
		w.Fail("data with an unsupported value renders", "template", src, "type", fmt.Sprintf("%T holding %T", x, bad), "got", out)
	}
}
