package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C10: records convert to Go structs and back without loss.

// ---- the Go types

type VzShape interface{ Area() int }

type VzInner struct {
	A     int64             `json:"a"`
	S     string            `json:"s"`
	Next  *VzInner          `json:"next"`
	Owner *VzAll            `json:"owner"`
	Any   VzShape           `json:"any"`
	Kids  []VzInner         `json:"kids"`
	Map   map[string]*VzAll `json:"map"`
}

func (x *VzInner) Area() int    { return int(x.A) }
func (x *VzInner) GetS() string { return x.S }

type VzPoint struct{ X, Y int }

func (p *VzPoint) Area() int { return p.X * p.Y }

type VzBase struct {
	Bx int
	Bs string
	Bp *VzInner
}

type VzMid struct {
	VzBase
	M  float64
	Ml []int `json:"ml"`
}

type VzLoose struct{ Z int } // not registered

type VzNamed string
type VzFlag bool

type VzAll struct {
	Early int `json:"early,omitempty"`
	VzMid
	I     int                          `json:"i"`
	I8    int8                         `json:"i8"`
	I16   int16                        `json:"i16"`
	I32   int32                        `json:"i32"`
	I64   int64                        `json:"i64"`
	U     uint                         `json:"u"`
	U8    uint8                        `json:"u8"`
	U64   uint64                       `json:"u64"`
	F32   float32                      `json:"f32"`
	F64   float64                      `json:"f64"`
	B     bool                         `json:"b"`
	Str   string                       `json:"str"`
	R     rune                         `json:"r"`
	T     time.Time                    `json:"t"`
	D     time.Duration                `json:"d"`
	Raw   []byte                       `json:"raw"`
	Ints  []int                        `json:"ints"`
	I8s   []int8                       `json:"i8s"`
	Strs  []string                     `json:"strs"`
	Fs    []float64                    `json:"fs"`
	Bools []bool                       `json:"bools"`
	Raws  [][]byte                     `json:"raws"`
	Grid  [][]int                      `json:"grid"`
	Arr   [2]int                       `json:"arr"`
	Durs  []time.Duration              `json:"durs"`
	Tms   []time.Time                  `json:"tms"`
	In    VzInner                      `json:"in"`
	P     *VzInner                     `json:"p"`
	Ins   []VzInner                    `json:"ins"`
	Ps    []*VzInner                   `json:"ps"`
	Sh    VzShape                      `json:"sh"`
	Shs   []VzShape                    `json:"shs"`
	MS    map[string]string            `json:"ms"`
	MF    map[string]float64           `json:"mf"`
	MI    map[int64]float64            `json:"mi"`
	MN    map[string]int               `json:"mn"`
	MB    map[int]bool                 `json:"mb"`
	MSh   map[string]VzShape           `json:"msh"`
	MP    map[string]*VzInner          `json:"mp"`
	MV    map[string]VzInner           `json:"mv"`
	ML    map[string][]int             `json:"ml2"`
	MM    map[string]map[string]string `json:"mm"`
	MPs   map[string][]*VzInner        `json:"mps"`
	PI    *int                         `json:"pi"`
	PS    *string                      `json:"ps2"`
	Pt    *VzPoint                     `json:"pt"`
	Nm    VzNamed                      `json:"nm"`
	Fl    VzFlag                       `json:"fl"`
	Up    *VzAll                       `json:"up"`
	Cap   string
	éch   int
}

func (x *VzAll) Echo(y *VzAll) *VzAll                         { return y }
func (x *VzAll) Self() *VzAll                                 { return x }
func (x *VzAll) Same(a, b *VzInner) bool                      { return a == b }
func (x *VzAll) SameAny(a *VzInner, b VzShape) bool           { return VzShape(a) == b }
func (x *VzAll) Held(a *VzAll, b *VzInner) bool               { return a.P == b }
func (x *VzAll) Pair(a, b *VzInner) (*VzInner, VzShape)       { return a, b }
func (x *VzAll) List(a, b *VzInner) []VzShape                 { return []VzShape{a, b, a} }
func (x *VzAll) Table(a *VzInner) map[string]*VzInner         { return map[string]*VzInner{"x": a, "y": a} }
func (x *VzAll) EI(v int) int                                 { return v }
func (x *VzAll) EI8(v int8) int8                              { return v }
func (x *VzAll) EI32(v int32) int32                           { return v }
func (x *VzAll) EI64(v int64) int64                           { return v }
func (x *VzAll) EU8(v uint8) uint8                            { return v }
func (x *VzAll) EU64(v uint64) uint64                         { return v }
func (x *VzAll) EF32(v float32) float32                       { return v }
func (x *VzAll) EF64(v float64) float64                       { return v }
func (x *VzAll) EB(v bool) bool                               { return v }
func (x *VzAll) EStr(v string) string                         { return v }
func (x *VzAll) ET(v time.Time) time.Time                     { return v }
func (x *VzAll) ED(v time.Duration) time.Duration             { return v }
func (x *VzAll) ERaw(v []byte) []byte                         { return v }
func (x *VzAll) EInts(v []int) []int                          { return v }
func (x *VzAll) EStrs(v []string) []string                    { return v }
func (x *VzAll) EGrid(v [][]int) [][]int                      { return v }
func (x *VzAll) EIn(v VzInner) VzInner                        { return v }
func (x *VzAll) EP(v *VzInner) *VzInner                       { return v }
func (x *VzAll) EPt(v *VzPoint) *VzPoint                      { return v }
func (x *VzAll) ESh(v VzShape) VzShape                        { return v }
func (x *VzAll) EIns(v []VzInner) []VzInner                   { return v }
func (x *VzAll) EPs(v []*VzInner) []*VzInner                  { return v }
func (x *VzAll) EShs(v []VzShape) []VzShape                   { return v }
func (x *VzAll) EMS(v map[string]string) map[string]string    { return v }
func (x *VzAll) EMF(v map[string]float64) map[string]float64  { return v }
func (x *VzAll) EMI(v map[int64]float64) map[int64]float64    { return v }
func (x *VzAll) EMSh(v map[string]VzShape) map[string]VzShape { return v }
func (x *VzAll) EPI(v *int) *int                              { return v }
func (x *VzAll) Loose(z int) VzLoose                          { return VzLoose{z} }
func (x *VzAll) PLoose(z int) *VzLoose                        { return &VzLoose{z} }
func (x *VzAll) Z(l VzLoose) int                              { return l.Z }
func (x *VzAll) PZ(l *VzLoose) int                            { return l.Z }
func (x *VzAll) Nothing() (*VzInner, VzShape, error, []int, map[string]string) {
	return nil, nil, nil, nil, nil
}

var c10Types = map[string]reflect.Type{}

func c10Init() {
	if len(c10Types) > 0 {
		return
	}
	zygo.RegisterDemoStructs()
	reg := func(name string, mk func() any) {
		c10Types[name] = reflect.TypeOf(mk()).Elem()
		if zygo.GoStructRegistry.Lookup(name) == nil {
			zygo.GoStructRegistry.RegisterUserdef(&zygo.RegisteredType{GenDefMap: true,
				Factory: func(*zygo.Zlisp, *zygo.SexpHash) (any, error) { return mk(), nil }}, true, name)
		}
	}
	reg("vzInner", func() any { return &VzInner{} })
	reg("vzPoint", func() any { return &VzPoint{} })
	reg("vzMid", func() any { return &VzMid{} })
	reg("vzAll", func() any { return &VzAll{} })
	reg("snoopy", func() any { return &zygo.Snoopy{} })
	reg("hornet", func() any { return &zygo.Hornet{} })
	reg("hellcat", func() any { return &zygo.Hellcat{} })
	reg("plane", func() any { return &zygo.Plane{} })
	reg("weather", func() any { return &zygo.Weather{} })
	reg("setOfPlanes", func() any { return &zygo.SetOfPlanes{} })
	reg("eventdemo", func() any { return &zygo.Event{} })
	reg("persondemo", func() any { return &zygo.Person{} })
	reg("nestouter", func() any { return &zygo.NestOuter{} })
	reg("nestinner", func() any { return &zygo.NestInner{} })
}

// ---- the model of a value

type gv struct {
	k    string // int uint float bool str sym char raw nil time dur arr hash rec fn list
	i    int64
	u    uint64
	f    float64
	s    string
	a    []*gv // elements of arr; values of hash, rec
	keys []*gv // of hash
	fs   []string
	tn   string
	name string // a variable that holds it
}

func gi(i int64) *gv    { return &gv{k: "int", i: i} }
func gf(f float64) *gv  { return &gv{k: "float", f: f} }
func gs(s string) *gv   { return &gv{k: "str", s: s} }
func gsym(s string) *gv { return &gv{k: "sym", s: s} }
func ga(a ...*gv) *gv   { return &gv{k: "arr", a: a} }
func gk(k string) *gv   { return &gv{k: k} }
func gh(kv ...*gv) *gv {
	g := &gv{k: "hash"}
	for i := 0; i < len(kv); i += 2 {
		g.keys, g.a = append(g.keys, kv[i]), append(g.a, kv[i+1])
	}
	return g
}
func gr(tn string, fv ...any) *gv {
	g := &gv{k: "rec", tn: tn}
	for i := 0; i < len(fv); i += 2 {
		g.fs, g.a = append(g.fs, fv[i].(string)), append(g.a, fv[i+1].(*gv))
	}
	return g
}

func (g *gv) get(f string) *gv {
	for i, k := range g.fs {
		if k == f {
			return g.a[i]
		}
	}
	return nil
}

func (g *gv) set(f string, v *gv) {
	for i, k := range g.fs {
		if k == f {
			g.a[i] = v
			return
		}
	}
	g.fs, g.a = append(g.fs, f), append(g.a, v)
}

func (g *gv) clone() *gv {
	h := *g
	h.a, h.keys = nil, nil
	for _, e := range g.a {
		h.a = append(h.a, e.clone())
	}
	for _, e := range g.keys {
		h.keys = append(h.keys, e.clone())
	}
	return &h
}

var c10Time = time.Date(2020, 1, 2, 3, 4, 5, 678, zygo.NYC)

func (g *gv) text() string {
	if g.name != "" {
		return g.name
	}
	return g.body()
}

func (g *gv) body() string {
	many := func(a []*gv) string {
		var o []string
		for _, e := range a {
			o = append(o, e.text())
		}
		return strings.Join(o, " ")
	}
	switch g.k {
	case "int":
		return strconv.FormatInt(g.i, 10)
	case "uint":
		return strconv.FormatUint(g.u, 10) + "ULL"
	case "float":
		t := strconv.FormatFloat(g.f, 'f', -1, 64)
		if !strings.Contains(t, ".") {
			t += ".0"
		}
		return t
	case "bool":
		return strconv.FormatBool(g.i != 0)
	case "str":
		return strconv.Quote(g.s)
	case "sym":
		return "(quote " + g.s + ")"
	case "char":
		return "'" + string(rune(g.i)) + "'"
	case "raw":
		return "(raw " + strconv.Quote(g.s) + ")"
	case "nil":
		return "nil"
	case "time":
		return fmt.Sprintf("(astm %d)", c10Time.UnixNano()+g.i)
	case "dur":
		return fmt.Sprintf("(dur %d)", g.i)
	case "fn":
		return "(fn [q] q)"
	case "list":
		return "(list 1 2)"
	case "arr":
		return "[" + many(g.a) + "]"
	case "hash":
		t := "(hash"
		for i, k := range g.keys {
			t += " " + k.text() + " " + g.a[i].text()
		}
		return t + ")"
	case "rec":
		t := "(" + g.tn
		for i, f := range g.fs {
			t += " " + f + ":" + g.a[i].text()
		}
		return t + ")"
	}
	panic(g.k)
}

// ---- the oracle: what Go value a record stands for

const (
	cOK = iota
	cEither
	cErr
	cAny
)

func worst(a, b int) int {
	if a == cErr || b == cErr {
		return cErr
	}
	return max(a, b)
}

// c10Field finds the field a key means, by the rules of Go and encoding/json.
func c10Field(t reflect.Type, key string) (reflect.StructField, bool) {
	for _, k := range []string{key, upFirst(key)} {
		for _, f := range reflect.VisibleFields(t) {
			tag, _, _ := strings.Cut(f.Tag.Get("json"), ",")
			if tag == "" {
				tag = f.Name
			}
			if tag == k {
				return f, true
			}
		}
	}
	return reflect.StructField{}, false
}

func upFirst(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	return string(unicode.ToUpper(r)) + s[n:]
}

type c10Memo map[*gv]reflect.Value

func fitsInt(t reflect.Type, i int64) bool { return !reflect.New(t).Elem().OverflowInt(i) }
func fitsUint(t reflect.Type, i uint64) bool {
	return !reflect.New(t).Elem().OverflowUint(i)
}

// build returns the value of type t that g stands for.
func (m c10Memo) build(t reflect.Type, g *gv) (v reflect.Value, mode int) {
	v = reflect.New(t).Elem()
	mode = m.into(v, g)
	return v, mode
}

func (m c10Memo) into(v reflect.Value, g *gv) int {
	t := v.Type()
	if g.k == "nil" {
		v.SetZero()
		switch t.Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
			return cOK
		}
		return cEither
	}
	if t == reflect.TypeOf(time.Time{}) {
		if g.k != "time" {
			return cErr
		}
		v.Set(reflect.ValueOf(c10Time.Add(time.Duration(g.i))))
		return cOK
	}
	if t == reflect.TypeOf(time.Duration(0)) && g.k == "dur" {
		v.SetInt(g.i)
		return cOK
	}
	mode := cOK
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if t == reflect.TypeOf(time.Duration(0)) {
			mode = cEither
		}
		switch {
		case g.k == "int" && fitsInt(t, g.i):
			v.SetInt(g.i)
		case g.k == "uint" && g.u <= math.MaxInt64 && fitsInt(t, int64(g.u)):
			v.SetInt(int64(g.u))
		case g.k == "float" && g.f == math.Trunc(g.f) && math.Abs(g.f) < 1<<62 && fitsInt(t, int64(g.f)):
			v.SetInt(int64(g.f))
			mode = cEither
		case g.k == "char" && fitsInt(t, g.i):
			v.SetInt(g.i)
			if t.Kind() != reflect.Int32 {
				mode = cEither
			}
		default:
			mode = cErr
		}
		return mode
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch {
		case g.k == "int" && g.i >= 0 && fitsUint(t, uint64(g.i)):
			v.SetUint(uint64(g.i))
		case g.k == "uint" && fitsUint(t, g.u):
			v.SetUint(g.u)
		case g.k == "float" && g.f == math.Trunc(g.f) && g.f >= 0 && g.f < 1<<64 && fitsUint(t, uint64(g.f)):
			v.SetUint(uint64(g.f))
			mode = cEither
		case g.k == "char" && fitsUint(t, uint64(g.i)):
			v.SetUint(uint64(g.i))
			mode = cEither
		default:
			mode = cErr
		}
		return mode
	case reflect.Float32, reflect.Float64:
		switch {
		case g.k == "float" && !v.OverflowFloat(g.f):
			v.SetFloat(g.f)
		case g.k == "int":
			v.SetFloat(float64(g.i))
			if math.Abs(v.Float()) >= 1<<63 || int64(v.Float()) != g.i {
				mode = cErr // not the record's value
			}
		case g.k == "uint":
			v.SetFloat(float64(g.u))
			if v.Float() >= 1<<64 || uint64(v.Float()) != g.u {
				mode = cErr
			}
		case g.k == "char":
			v.SetFloat(float64(g.i))
			mode = cEither
		default:
			mode = cErr
		}
		return mode
	case reflect.Bool:
		if g.k != "bool" {
			return cErr
		}
		v.SetBool(g.i != 0)
		return cOK
	case reflect.String:
		switch g.k {
		case "str":
			v.SetString(g.s)
		case "sym":
			v.SetString(g.s)
			return cEither
		case "rec":
			return cAny // kept as text, on purpose
		default:
			return cErr
		}
		return cOK
	case reflect.Slice, reflect.Array:
		if t == reflect.TypeOf([]byte(nil)) && g.k == "raw" {
			v.SetBytes([]byte(g.s))
			return cOK
		}
		if g.k != "arr" {
			return cErr
		}
		if t.Elem().Kind() == reflect.Uint8 {
			mode = cEither
		}
		if t.Kind() == reflect.Slice {
			v.Set(reflect.MakeSlice(t, len(g.a), len(g.a)))
		} else if len(g.a) > t.Len() {
			return cErr
		} else if len(g.a) < t.Len() {
			mode = cEither
		}
		for i, e := range g.a {
			mode = worst(mode, m.into(v.Index(i), e))
		}
		return mode
	case reflect.Map:
		if g.k != "hash" {
			return cErr
		}
		mp := reflect.MakeMap(t)
		v.Set(mp)
		for i, k := range g.keys {
			kv, km := m.build(t.Key(), k)
			if k.k == "sym" && t.Key().Kind() == reflect.String {
				km = cOK // how keys are spelled
			}
			ev, em := m.build(t.Elem(), g.a[i])
			mode = worst(mode, worst(km, em))
			if mode == cErr {
				return cErr
			}
			if mp.MapIndex(kv).IsValid() {
				return cErr // two keys for one
			}
			mp.SetMapIndex(kv, ev)
		}
		return mode
	case reflect.Struct:
		if g.k != "rec" || c10Types[g.tn] != t {
			return cErr
		}
		return m.fill(v, g)
	case reflect.Ptr:
		if t.Elem().Kind() != reflect.Struct {
			p := reflect.New(t.Elem())
			mode = m.into(p.Elem(), g)
			v.Set(p)
			return mode
		}
		if g.k != "rec" || c10Types[g.tn] != t.Elem() {
			return cErr
		}
		p, pm := m.ptr(g)
		v.Set(p)
		return pm
	case reflect.Interface:
		if g.k != "rec" || !reflect.PointerTo(c10Types[g.tn]).Implements(t) {
			return cErr
		}
		p, pm := m.ptr(g)
		v.Set(p)
		return pm
	}
	return cErr
}

// ptr is the one object for the record g.
func (m c10Memo) ptr(g *gv) (reflect.Value, int) {
	if p, ok := m[g]; ok {
		return p, cOK
	}
	p := reflect.New(c10Types[g.tn])
	m[g] = p
	return p, m.fill(p.Elem(), g)
}

func (m c10Memo) fill(v reflect.Value, g *gv) int {
	mode := cOK
	seen := map[string]bool{}
	for i, k := range g.fs {
		f, ok := c10Field(v.Type(), k)
		if !ok || seen[f.Name] {
			return cErr
		}
		seen[f.Name] = true
		fv := v.FieldByIndex(f.Index)
		if !fv.CanSet() {
			return cAny
		}
		mode = worst(mode, m.into(fv, g.a[i]))
		if mode == cErr {
			return cErr
		}
	}
	return mode
}

// sameGraph compares two Go values, and which pointers are one.
type goGraph struct{ ab, ba map[uintptr]uintptr }

func sameGraph(a, b reflect.Value) string {
	g := &goGraph{map[uintptr]uintptr{}, map[uintptr]uintptr{}}
	return g.cmp(a, b, "", 0)
}

func (g *goGraph) cmp(a, b reflect.Value, at string, depth int) string {
	if depth > 10000 {
		return ""
	}
	if a.IsValid() != b.IsValid() || a.IsValid() && a.Type() != b.Type() {
		return at + ": types differ"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() == reflect.TypeOf(time.Time{}) {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			return fmt.Sprintf("%s: %v is not %v", at, x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return at + ": one is nil"
			}
			return ""
		}
		x, y := a.Pointer(), b.Pointer()
		p, ok1 := g.ab[x]
		q, ok2 := g.ba[y]
		if ok1 || ok2 {
			if p != y || q != x {
				return at + ": not the same sharing"
			}
			return ""
		}
		g.ab[x], g.ba[y] = y, x
		return g.cmp(a.Elem(), b.Elem(), at, depth+1)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return at + ": one is nil"
			}
			return ""
		}
		return g.cmp(a.Elem(), b.Elem(), at, depth+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := g.cmp(a.Field(i), b.Field(i), at+"."+a.Type().Field(i).Name, depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d is not %d", at, a.Len(), b.Len())
		}
		if a.Kind() == reflect.Slice && a.Len() > 0 && depth > 60 && a.Type().Elem().Kind() == reflect.Struct {
			return "" // a slice of values that contains itself
		}
		for i := 0; i < a.Len(); i++ {
			if d := g.cmp(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", at, i), depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d is not %d", at, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() {
				return fmt.Sprintf("%s: key %v is missing", at, k)
			}
			if d := g.cmp(a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", at, k), depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() && !(a.Float() != a.Float() && b.Float() != b.Float()) {
			return fmt.Sprintf("%s: %v is not %v", at, a, b)
		}
		return ""
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d is not %d", at, a.Int(), b.Int())
		}
		return ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %d is not %d", at, a.Uint(), b.Uint())
		}
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v is not %v", at, a, b)
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q is not %q", at, a.String(), b.String())
		}
		return ""
	}
	return at + ": kind " + a.Kind().String()
}

// ---- the oracle for the way back: what v of type t becomes

type backCmp struct {
	seen map[uintptr]*zygo.SexpHash // one record per Go object ...
	rev  map[*zygo.SexpHash]uintptr // ... and one Go object per record
}

func newBack() *backCmp {
	return &backCmp{map[uintptr]*zygo.SexpHash{}, map[*zygo.SexpHash]uintptr{}}
}

func typeNameOf(t reflect.Type) string {
	for n, u := range c10Types {
		if u == t {
			return n
		}
	}
	return ""
}

func sexpNum(s zygo.Sexp) (f float64, i int64, u uint64, kind string) {
	switch x := s.(type) {
	case *zygo.SexpInt:
		return 0, x.Val, 0, "i"
	case *zygo.SexpChar:
		return 0, int64(x.Val), 0, "i"
	case *zygo.SexpDur:
		return 0, int64(x.Dur), 0, "i"
	case *zygo.SexpUint64:
		if x.Val <= math.MaxInt64 {
			return 0, int64(x.Val), 0, "i"
		}
		return 0, 0, x.Val, "u"
	case *zygo.SexpFloat:
		return x.Val, 0, 0, "f"
	}
	return 0, 0, 0, ""
}

// cmp says how s differs from the Go value v, or "". lax: the times of a
// record may be missing.
func (bc *backCmp) cmp(v reflect.Value, s zygo.Sexp, at string, lax bool, depth int) string {
	if depth > 3000 {
		return ""
	}
	bad := func() string { return fmt.Sprintf("%s: %s for %v", at, Dump(s), v) }
	if s == nil {
		return at + ": no value"
	}
	if v.Type() == reflect.TypeOf(time.Time{}) {
		tm := v.Interface().(time.Time)
		if x, ok := s.(*zygo.SexpTime); ok && x.Tm.Equal(tm) {
			return ""
		}
		if s == zygo.SexpNull && (lax || tm.IsZero()) {
			return ""
		}
		return bad()
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if _, i, _, k := sexpNum(s); k != "i" || i != v.Int() {
			return bad()
		}
		if _, isDur := s.(*zygo.SexpDur); isDur != (v.Type() == reflect.TypeOf(time.Duration(0))) {
			return bad()
		}
		if _, isChar := s.(*zygo.SexpChar); isChar && v.Kind() != reflect.Int32 {
			return bad()
		}
		return ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		_, i, u, k := sexpNum(s)
		if k == "i" && i >= 0 && uint64(i) == v.Uint() || k == "u" && u == v.Uint() {
			return ""
		}
		return bad()
	case reflect.Float32, reflect.Float64:
		if x, ok := s.(*zygo.SexpFloat); ok && (x.Val == v.Float() || x.Val != x.Val && v.Float() != v.Float()) {
			return ""
		}
		return bad()
	case reflect.Bool:
		if x, ok := s.(*zygo.SexpBool); ok && x.Val == v.Bool() {
			return ""
		}
		return bad()
	case reflect.String:
		if x, ok := s.(*zygo.SexpStr); ok && x.S == v.String() {
			return ""
		}
		return bad()
	case reflect.Interface:
		if v.IsNil() {
			if s == zygo.SexpNull {
				return ""
			}
			return bad()
		}
		return bc.cmp(v.Elem(), s, at, lax, depth+1)
	case reflect.Slice, reflect.Array:
		if v.Type() == reflect.TypeOf([]byte(nil)) {
			if x, ok := s.(*zygo.SexpRaw); ok && string(x.Val) == string(v.Bytes()) {
				return ""
			}
			if s == zygo.SexpNull && v.Len() == 0 {
				return ""
			}
			return bad()
		}
		if s == zygo.SexpNull && v.Kind() == reflect.Slice && v.Len() == 0 {
			if v.IsNil() {
				return ""
			}
			return bad()
		}
		x, ok := s.(*zygo.SexpArray)
		if !ok || len(x.Val) != v.Len() {
			return bad()
		}
		for i := range x.Val {
			if d := bc.cmp(v.Index(i), x.Val[i], fmt.Sprintf("%s[%d]", at, i), lax, depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if s == zygo.SexpNull && v.IsNil() {
			return ""
		}
		x, ok := s.(*zygo.SexpHash)
		if !ok || x.TypeName != "hash" || len(x.KeyOrder) != v.Len() {
			return bad()
		}
		for _, k := range x.KeyOrder {
			kv := reflect.New(v.Type().Key()).Elem()
			switch y := k.(type) {
			case *zygo.SexpSymbol:
				kv.SetString(y.Name())
			case *zygo.SexpStr:
				kv.SetString(y.S)
			case *zygo.SexpInt:
				kv.SetInt(y.Val)
			default:
				return bad()
			}
			ev := v.MapIndex(kv)
			val, err := x.HashGet(nil, k)
			if err != nil || !ev.IsValid() {
				return bad()
			}
			if d := bc.cmp(ev, val, fmt.Sprintf("%s[%v]", at, kv), lax, depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Ptr:
		if v.IsNil() {
			if s == zygo.SexpNull {
				return ""
			}
			return bad()
		}
		if v.Elem().Kind() != reflect.Struct {
			return bc.cmp(v.Elem(), s, at, lax, depth+1)
		}
		h, ok := s.(*zygo.SexpHash)
		if !ok {
			return bad()
		}
		prev, ok1 := bc.seen[v.Pointer()]
		prevp, ok2 := bc.rev[h]
		if ok1 || ok2 {
			if prev != h || prevp != v.Pointer() {
				return at + ": not the same sharing"
			}
			return ""
		}
		bc.seen[v.Pointer()], bc.rev[h] = h, v.Pointer()
		return bc.fields(v.Elem(), h, at, lax, depth)
	case reflect.Struct:
		h, ok := s.(*zygo.SexpHash)
		if !ok {
			return bad()
		}
		if depth > 60 {
			return ""
		}
		return bc.fields(v, h, at, lax, depth)
	}
	return at + ": kind " + v.Kind().String()
}

func (bc *backCmp) fields(v reflect.Value, h *zygo.SexpHash, at string, lax bool, depth int) string {
	if h.TypeName != typeNameOf(v.Type()) {
		return fmt.Sprintf("%s: a record of type %s for %v", at, h.TypeName, v.Type())
	}
	vals := map[string]zygo.Sexp{}
	for _, k := range h.KeyOrder {
		val, err := h.HashGet(nil, k)
		if err != nil {
			return at + ": " + err.Error()
		}
		name := ""
		switch y := k.(type) {
		case *zygo.SexpSymbol:
			name = y.Name()
		case *zygo.SexpStr:
			name = y.S
		}
		f, ok := c10Field(v.Type(), name)
		if !ok {
			return at + ": the record has a field " + Dump(k)
		}
		if f.IsExported() {
			vals[f.Name] = val
		}
	}
	for _, f := range reflect.VisibleFields(v.Type()) {
		if f.Anonymous || !f.IsExported() {
			continue
		}
		fv := v.FieldByIndex(f.Index)
		val, ok := vals[f.Name]
		if !ok {
			if fv.IsZero() {
				continue
			}
			return at + "." + f.Name + ": missing"
		}
		if d := bc.cmp(fv, val, at+"."+f.Name, lax, depth+1); d != "" {
			return d
		}
	}
	return ""
}

// ---- running

type c10Run struct {
	env *zygo.Zlisp
	r   *Rec
}

var c10Env *zygo.Zlisp
var c10Uses int

func newC10(r *Rec) *c10Run {
	c10Init()
	if c10Env == nil || c10Uses > 3000 {
		if c10Env != nil {
			c10Env.Close()
		}
		c10Env = NewStd()
		c10Env.ImportDemoData()
		c10Uses = 0
	}
	c10Uses++
	dumpMax = 3000
	return &c10Run{c10Env, r}
}

func (c *c10Run) eval(src string) Out {
	o := Eval(c.env, src)
	if o.Kind != "val" {
		c.env.Clear()
	}
	c.r.Trans++
	return o
}

// rr is the variable for records of the type: variables keep theirs.
func rr(tn string) string { return "rr" + upFirst(tn) }

// toGo converts the record in src by togo and gives its shadow.
func (c *c10Run) toGo(tn, src string) (reflect.Value, Out) {
	o := c.eval("(def " + rr(tn) + " " + src + ") (togo " + rr(tn) + ")")
	if o.Kind != "val" {
		return reflect.Value{}, o
	}
	h := c.eval(rr(tn))
	rec, ok := h.V.(*zygo.SexpHash)
	if !ok || rec.GoShadowStruct == nil {
		return reflect.Value{}, Out{Kind: "panic", S: "no shadow struct"}
	}
	return reflect.ValueOf(rec.GoShadowStruct), o
}

func c10Verdict(mode int, o Out) string {
	switch {
	case o.Kind != "val" && o.Kind != "err":
		return "neither a value nor an error"
	case mode == cErr && o.Kind == "val":
		return "no error"
	case mode == cOK && o.Kind == "err":
		return "an error"
	}
	return ""
}

// check converts g (by togo and by passing it to Echo) and back.
func (c *c10Run) check(sig, setup string, g *gv) {
	r := c.r
	if setup != "" {
		if o := c.eval(setup); o.Kind != "val" {
			r.Violate(sig, setup, "the setup fails: "+o.String())
			return
		}
	}
	c.checkTogo(sig, setup, g)
	if g.tn == "vzAll" {
		c.checkEcho(sig, setup, g, g.text(), "Echo:")
	} else if g.tn == "vzInner" {
		c.checkEcho(sig, setup, g, g.text(), "EP:")
	}
}

func (c *c10Run) checkTogo(sig, setup string, g *gv) {
	r := c.r
	m := c10Memo{}
	want, mode := m.ptr(g)
	got, o := c.toGo(g.tn, g.text())
	in := setup + " (togo " + g.text() + ")"
	r.Validated++
	if d := c10Verdict(mode, o); d != "" {
		r.Violate(sig, in, d+": "+o.String())
		return
	}
	if o.Kind == "err" {
		r.Count("errors", 1)
		return
	}
	if mode == cAny {
		return
	}
	r.Count("converted", 1)
	if d := sameGraph(want, got); d != "" {
		r.Violate(sig, in, "wrong Go value (want, got) "+d)
	}
}

func (c *c10Run) checkEcho(sig, setup string, g *gv, text, meth string) {
	r := c.r
	m := c10Memo{}
	want, mode := m.ptr(g)
	src := fmt.Sprintf("(_method (vzAll) %s %s)", meth, text)
	o := c.eval(src)
	in := setup + " " + src
	r.Validated++
	if d := c10Verdict(mode, o); d != "" {
		r.Violate(sig+" echo", in, d+": "+o.String())
		return
	}
	if o.Kind == "err" || mode == cAny {
		return
	}
	arr, ok := o.V.(*zygo.SexpArray)
	if !ok || len(arr.Val) != 1 {
		r.Violate(sig+" echo", in, "not an array of one: "+o.S)
		return
	}
	r.Count("came back", 1)
	if d := newBack().cmp(want, arr.Val[0], "", true, 0); d != "" {
		r.Violate(sig+" echo", in, "wrong record back "+d)
	}
	h, ok := arr.Val[0].(*zygo.SexpHash)
	if !ok {
		return
	}
	// and once more, through togo: the record is as good as the first one.
	if _, err := zygo.ToGoFunction(c.env, "togo", []zygo.Sexp{h}); err != nil {
		r.Violate(sig+" again", in, "the record that came back does not convert: "+err.Error())
	}
}

// ---- the values

func c10Values() []*gv {
	var out []*gv
	for _, i := range []int64{0, 1, -1, 7, 127, 128, -128, -129, 255, 256, 32767, 32768, -32769, 65536,
		math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, 1 << 24, 1<<24 + 1, 1 << 32, 1 << 53, 1<<53 + 1, math.MaxInt64, -math.MaxInt64} {
		out = append(out, gi(i))
	}
	for _, u := range []uint64{0, 5, 200, 1 << 63, math.MaxUint64} {
		out = append(out, &gv{k: "uint", u: u})
	}
	for _, f := range []float64{0, 1, 1.5, -2.5, 3, 0.1, 127, 128, 1e10, 9223372036854775808.0, 1e39, 1e300, -1e300, 18446744073709551616.0} {
		out = append(out, gf(f))
	}
	out = append(out, &gv{k: "bool", i: 1}, &gv{k: "bool"},
		gs(""), gs("abc"), gs("é\n\""), gs("12"), gsym("sy"),
		&gv{k: "char", i: 'a'}, &gv{k: "char", i: 'é'}, &gv{k: "char", i: '世'},
		&gv{k: "raw", s: ""}, &gv{k: "raw", s: "ab"},
		gk("nil"), &gv{k: "time"}, &gv{k: "time", i: 1e9}, &gv{k: "dur", i: 5}, &gv{k: "dur", i: -1},
		gk("fn"), gk("list"),
		ga(), ga(gi(1)), ga(gi(1), gi(2)), ga(gi(1), gi(2), gi(3)), ga(gi(300)), ga(gi(-200), gi(1)), ga(gs("a"), gs("")), ga(gf(1.5)), ga(gi(1), gf(1.5)),
		ga(&gv{k: "bool", i: 1}), ga(gi(1), gs("a")), ga(gs("a"), gi(1)), ga(ga(gi(1), gi(2)), ga()), ga(ga(gs("a"))), ga(gk("nil")), ga(gi(1), gk("nil")),
		ga(&gv{k: "raw", s: "xy"}), ga(&gv{k: "dur", i: 9}), ga(&gv{k: "time", i: 3}), ga(gsym("q")), ga(&gv{k: "char", i: 'z'}),
		gh(), gh(gs("k"), gs("v")), gh(gsym("a"), gs("x"), gsym("b"), gs("y")), gh(gsym("a"), gf(1.5)), gh(gsym("a"), gi(3)), gh(gi(1), gf(2.5)), gh(gi(1), gi(2)),
		gh(gi(1), gs("v")), gh(gsym("a"), gi(1), gi(2), gi(3)), gh(gsym("a"), gs("x"), gs("a"), gs("y")), gh(gi(7), &gv{k: "bool", i: 1}),
		gh(gsym("a"), ga(gi(1))), gh(gsym("a"), gh(gs("p"), gs("q"))), gh(gsym("a"), gk("nil")), gh(gsym("a"), gs("x"), gsym("b"), gi(2)),
	)
	inner := func() *gv { return gr("vzInner", "a", gi(4), "s", gs("in")) }
	point := func() *gv { return gr("vzPoint", "x", gi(2), "Y", gi(3)) }
	out = append(out, gr("vzInner"), inner(), point(), gr("vzPoint"), gr("vzMid", "m", gf(2.5), "bx", gi(1)), gr("vzMid"), gr("vzAll", "i", gi(3)), gr("vzAll"),
		gr("weather", "type", gs("sun")), gr("nestinner", "hello", gs("hi")), gr("nestouter", "inner", gr("nestinner", "hello", gs("hi"))), gr("persondemo", "first", gs("ann")), gr("plane", "speed", gi(3)),
		gr("snoopy", "cry", gs("x")), gr("hornet", "mass", gf(0.5)), ga(gr("hellcat", "id", gi(3)), gr("snoopy")), gr("vzInner", "a", gs("bad")), gr("vzInner", "nosuch", gi(1)),
		gr("vzInner", "next", inner()), gr("vzInner", "any", point(), "kids", ga(inner(), gr("vzInner"))), gr("vzInner", "next", point()),
		ga(inner()), ga(inner(), gr("vzInner")), ga(point(), inner()), ga(inner(), gk("nil")), ga(gr("weather")), ga(gr("vzInner", "a", gs("bad"))), ga(inner(), gi(1)),
		gh(gsym("a"), inner()), gh(gsym("a"), point(), gsym("b"), inner()), gh(gs("a"), gr("weather")), gh(gsym("a"), ga(inner(), inner())), gh(gsym("a"), inner(), gsym("b"), gi(1)))
	return out
}

// c10Keys are the names of all fields of the type, as scripts spell them.
func c10Keys(t reflect.Type) []string {
	var out []string
	for _, f := range reflect.VisibleFields(t) {
		if !f.IsExported() {
			continue
		}
		tag, _, _ := strings.Cut(f.Tag.Get("json"), ",")
		if tag == "" {
			tag = f.Name
		}
		out = append(out, tag)
	}
	return out
}

var c10TypeNames = []string{"vzAll", "vzInner", "vzPoint", "vzMid", "snoopy", "hornet", "hellcat", "plane", "weather", "setOfPlanes", "eventdemo", "persondemo", "nestouter", "nestinner"}

type c10TF struct{ tn, key string }

func c10Matrix() []c10TF {
	var out []c10TF
	for _, tn := range c10TypeNames {
		for _, k := range c10Keys(c10Types[tn]) {
			out = append(out, c10TF{tn, k})
		}
	}
	return out
}

func init() {
	register(&PropDef{ID: "C10", Assume: []string{
		"an int field may be given a float that is an integer, and a field of any kind nil: the check asks for the exact (zero) value or an error",
		"a symbol may become a string; a record put into a string field is kept as text, which the code does on purpose",
		"a Go int32 that comes back is an integer (Go does not tell int32 from rune); a string or symbol key of a hash comes back as a symbol",
		"a float64 is rounded to a float32 field, as Go does; one too large for it is an error",
		"a struct that was attached to a record by an earlier conversion stays attached when its methods are called",
		"the time.Time fields of a struct that comes back are nil: Test018 asks for that (known finding)",
	}, Spaces: c10Spaces})
}

func c10Spaces(tier string) []*Space {
	thorough := tier == "thorough"
	c10Init()
	var out []*Space
	mat := c10Matrix()
	vals := c10Values()
	out = append(out, &Space{Name: "kinds", Size: uint64(len(mat) * len(vals)), Chunk: 200, HangS: 20,
		Bound: fmt.Sprintf("every field (%d) of %d struct types x %d values of every kind", len(mat), len(c10TypeNames), len(vals)),
		Run: func(i uint64, r *Rec) {
			f, v := mat[int(i)/len(vals)], vals[int(i)%len(vals)]
			newC10(r).check("field "+f.tn+"."+f.key+" "+v.k, "", gr(f.tn, f.key, v))
		}})

	mk := func(tn string) string {
		switch tn {
		case "nestinner":
			return tn + " hello:nil"
		case "nestouter":
			return tn + " inner:nil"
		}
		return tn
	}
	// the spelling of field names
	spell := func(k string) []string {
		low := strings.ToLower(k[:1]) + k[1:]
		return []string{k, upFirst(k), low, strings.ToUpper(k), strings.ToLower(k), k + "_", k + ".x", k + ",omitempty", k[:len(k)-1] + "~", "nosuch", "_" + k}
	}
	out = append(out, &Space{Name: "names", Size: uint64(len(mat) * 11 * 3), Chunk: 200, HangS: 20,
		Bound: "every field name of every type x 11 spellings x symbol key, string key, key beside a good one",
		Run: func(i uint64, r *Rec) {
			f := mat[int(i)/33]
			key := spell(f.key)[int(i)%33/3]
			t := c10Types[f.tn]
			fld, ok := c10Field(t, key)
			c := newC10(r)
			how := int(i) % 3
			rr := rr(f.tn)
			src := "(hset " + rr + " (quote " + key + ") nil)"
			if how == 1 || strings.ContainsAny(key, ".,~") {
				src = "(hset " + rr + " " + strconv.Quote(key) + " nil)"
			}
			good := ""
			if how == 1 && mk(f.tn) != f.tn {
				return // it would have the field twice
			}
			if how == 2 {
				g := c10Keys(t)
				good = " " + g[(int(i)/33)%len(g)] + ":nil"
				if gf, gok := c10Field(t, g[(int(i)/33)%len(g)]); gok && ok && gf.Name == fld.Name {
					return
				}
			}
			all := "(def " + rr + " (" + f.tn + good + ")) " + src + " (togo " + rr + ")"
			o := c.eval(all)
			r.Validated++
			if !ok && o.Kind != "err" {
				r.Violate("name", all, f.tn+" has no field "+key+": "+o.String())
			}
			if ok && o.Kind != "val" && o.Kind != "err" {
				r.Violate("name", all, o.String())
			}
			if !ok && (f.tn == "vzInner" || f.tn == "vzAll") {
				meth := map[string]string{"vzInner": "EP:", "vzAll": "Echo:"}[f.tn]
				src := "(_method (vzAll) " + meth + " " + rr + ")"
				if o := c.eval(src); o.Kind != "err" {
					r.Violate("name", all+" "+src, f.tn+" has no field "+key+": "+o.String())
				}
			}
			if ok {
				// the field really is the one: a value of the right kind arrives
				for _, v := range []*gv{gi(3), gs("z"), gf(2.5), {k: "bool", i: 1}} {
					if _, m := (c10Memo{}).build(fld.Type, v); m == cOK && how != 2 && fld.IsExported() {
						g := gr(f.tn, key, v)
						want, mode := c10Memo{}.ptr(g)
						all := "(def " + rr + " (" + mk(f.tn) + ")) " + strings.Replace(src, " nil)", " "+v.text()+")", 1) + " (togo " + rr + ")"
						o := c.eval(all)
						r.Validated++
						if mode == cOK {
							if o.Kind != "val" {
								r.Violate("name", all, o.String())
							} else if h, ok := c.eval(rr).V.(*zygo.SexpHash); !ok || sameGraph(want, reflect.ValueOf(h.GoShadowStruct)) != "" {
								r.Violate("name", all, "the value did not arrive")
							}
						}
						break
					}
				}
			}
		}})

	// keys that are no names
	odd := []string{`""`, "1", "'c'", "2.5", "[1 2]", "nil", `"é"`, `"éch "`, "true"}
	out = append(out, &Space{Name: "odd keys", Size: uint64(len(c10TypeNames) * len(odd)), HangS: 20,
		Bound: "keys that name no field, of every kind, in every type",
		Run: func(i uint64, r *Rec) {
			c := newC10(r)
			tn, k := c10TypeNames[int(i)/len(odd)], odd[int(i)%len(odd)]
			if o := c.eval("(def " + rr(tn) + " (" + mk(tn) + "))"); o.Kind != "val" {
				r.Violate("odd key", tn, o.String())
			}
			if o := c.eval("(hset " + rr(tn) + " " + k + " 1)"); o.Kind != "val" {
				r.Count("not a key", 1)
				return
			}
			o := c.eval("(togo " + rr(tn) + ")")
			r.Validated++
			if o.Kind != "err" {
				r.Violate("odd key", "(def rr ("+tn+")) (hset rr "+k+" 1) (togo rr)", "no error: "+o.String())
			}
		}})

	// pairs of fields in one record: neither disturbs the other
	good := make([]*gv, len(mat))
	for i, f := range mat {
		fld, _ := c10Field(c10Types[f.tn], f.key)
		if fld.Anonymous {
			continue
		}
		for _, v := range vals {
			w, m := (c10Memo{}).build(fld.Type, v)
			if m == cOK && !w.IsZero() && v.k != "nil" {
				good[i] = v
			}
			if m == cOK && (v.k == "rec" && len(v.fs) == 2 || v.k == "arr" && len(v.a) == 2) {
				break
			}
		}
	}
	var pairs [][2]int
	for i := range mat {
		for j := range mat {
			if mat[i].tn == mat[j].tn && good[i] != nil && good[j] != nil && i != j {
				pairs = append(pairs, [2]int{i, j})
			}
		}
	}
	out = append(out, &Space{Name: "pairs", Size: uint64(len(pairs)), Chunk: 200, HangS: 20,
		Bound: "every ordered pair of fields of every type",
		Run: func(i uint64, r *Rec) {
			a, b := pairs[i][0], pairs[i][1]
			newC10(r).check("two fields", "", gr(mat[a].tn, mat[a].key, good[a].clone(), mat[b].key, good[b].clone()))
		}})
	out = append(out, &Space{Name: "all fields", Size: uint64(len(c10TypeNames) * 3), HangS: 20,
		Bound: "all fields of every type at once, in three orders",
		Run: func(i uint64, r *Rec) {
			tn := c10TypeNames[int(i)/3]
			g := gr(tn)
			for n := range mat {
				k := n
				switch i % 3 {
				case 1:
					k = len(mat) - 1 - n
				case 2:
					k = n * 7 % len(mat)
				}
				if mat[k].tn == tn && good[k] != nil && g.get(mat[k].key) == nil {
					g.set(mat[k].key, good[k].clone())
				}
			}
			if len(g.fs) == 0 {
				return
			}
			newC10(r).check("all fields of "+tn, "", g)
		}})

	// a record that is updated between two conversions
	type upd struct {
		f    int
		a, b *gv
	}
	var upds []upd
	for i, f := range mat {
		fld, _ := c10Field(c10Types[f.tn], f.key)
		var fit []*gv
		for _, v := range vals {
			if _, m := (c10Memo{}).build(fld.Type, v); m == cOK {
				fit = append(fit, v)
			}
		}
		if len(fit) > 6 && !thorough {
			fit = append(fit[:3:3], fit[len(fit)-3:]...)
		}
		for _, a := range fit {
			for _, b := range fit {
				if a != b {
					upds = append(upds, upd{i, a, b})
				}
			}
		}
	}
	out = append(out, &Space{Name: "updates", Size: uint64(len(upds)), Chunk: 200, HangS: 20,
		Bound: "every field x ordered pairs of values that fit it: convert, hset, convert again, fail, convert again",
		Run: func(i uint64, r *Rec) {
			u := upds[i]
			f := mat[u.f]
			c := newC10(r)
			rr := rr(f.tn)
			first := "(def " + rr + " (" + f.tn + " " + f.key + ":" + u.a.text() + ")) (togo " + rr + ") (hset " + rr + " " + f.key + ": " + u.b.text() + ")"
			if o := c.eval(first); o.Kind != "val" {
				r.Violate("update", first, o.String())
				return
			}
			g := gr(f.tn, f.key, u.b)
			g.name = rr
			c.checkTogo("update", first, g)
		}})

	// a conversion that fails leaves no half-filled struct behind
	out = append(out, &Space{Name: "after errors", Size: uint64(len(mat) * len(vals)), Chunk: 200, HangS: 20,
		Bound: "every field x every value that does not fit, then the methods of the record and of one inside it",
		Run: func(i uint64, r *Rec) {
			f, v := mat[int(i)/len(vals)], vals[int(i)%len(vals)]
			fld, _ := c10Field(c10Types[f.tn], f.key)
			if _, m := (c10Memo{}).build(fld.Type, v); m != cErr || (f.tn != "vzInner" && f.tn != "vzAll") {
				r.Count("fits", 1)
				return
			}
			c := newC10(r)
			var src, call string
			if f.tn == "vzInner" {
				src = "(def rrBad (vzInner " + f.key + ":" + v.text() + ")) (togo (vzAll p:rrBad))"
				call = "(_method rrBad GetS:)"
			} else {
				src = "(def rrBadAll (vzAll " + f.key + ":" + v.text() + ")) (togo rrBadAll)"
				call = "(_method rrBadAll Self:)"
			}
			o := c.eval(src)
			r.Validated++
			if o.Kind != "err" {
				r.Violate("bad value", src, "no error: "+o.String())
			}
			if o := c.eval(call); o.Kind != "err" {
				r.Violate("method on a bad record", src+" "+call, "no error: "+o.String())
			}
		}})

	// scalars, slices, maps and records as arguments and results of methods
	type me struct {
		name string
		t    reflect.Type
	}
	var meths []me
	at := reflect.TypeOf(&VzAll{})
	for i := 0; i < at.NumMethod(); i++ {
		mt := at.Method(i)
		if strings.HasPrefix(mt.Name, "E") && mt.Type.NumIn() == 2 && mt.Type.NumOut() == 1 {
			meths = append(meths, me{mt.Name, mt.Type.In(1)})
		}
	}
	out = append(out, &Space{Name: "arguments", Size: uint64(len(meths) * len(vals)), Chunk: 200, HangS: 20,
		Bound: fmt.Sprintf("%d method parameter types x %d values", len(meths), len(vals)),
		Run: func(i uint64, r *Rec) {
			m, v := meths[int(i)/len(vals)], vals[int(i)%len(vals)]
			c := newC10(r)
			want, mode := (c10Memo{}).build(m.t, v)
			src := "(_method (vzAll) " + m.name + ": " + v.text() + ")"
			o := c.eval(src)
			r.Validated++
			if d := c10Verdict(mode, o); d != "" {
				r.Violate("argument "+m.name, src, d+": "+o.String())
				return
			}
			if o.Kind == "err" || mode == cAny {
				return
			}
			arr, ok := o.V.(*zygo.SexpArray)
			if !ok || len(arr.Val) != 1 {
				r.Violate("argument "+m.name, src, "not an array of one: "+o.S)
				return
			}
			if d := newBack().cmp(want, arr.Val[0], "", true, 0); d != "" {
				r.Violate("argument "+m.name, src, "wrong value back "+d)
			}
		}})

	out = append(out, c10Graphs(thorough), c10Calls(), c10Chains(), c10Planes(thorough))
	out = append(out, &Space{Name: "times", Size: 2, HangS: 20, Bound: "a time in a field, on the way back",
		Run: func(i uint64, r *Rec) {
			c := newC10(r)
			src := fmt.Sprintf("(hget (aget (_method %s %s (%s time:%s)) 0) t:)", "(vzAll)", "Echo:", "vzAll", "(astm 5)")
			src = "(hget (aget (_method (vzAll) Echo: (vzAll t:(astm 5))) 0) t:)"
			if i == 1 {
				src = "(hget (aget (_method (snoopy) EchoWeather: (weather time:(astm 5))) 0) time:)"
			}
			o := c.eval(src)
			r.Validated++
			if x, ok := o.V.(*zygo.SexpTime); !ok || x.Tm.UnixNano() != 5 {
				r.Violate("time back", src, o.String())
			}
		}})
	return out
}

// c10Graphs: a root with records in every position, shared in every way.
func c10Graphs(thorough bool) *Space {
	// each slot lists what it may hold: indices of records (0 root, 1, 2)
	type slot struct {
		rec   int
		field string
		kind  string
		opt   [][]int
	}
	one := [][]int{nil, {1}, {2}}
	slots := []slot{
		{0, "p", "one", one}, {0, "sh", "one", one}, {0, "in", "one", [][]int{nil, {1}}},
		{0, "ps", "arr", [][]int{nil, {1, 2}, {1, 1}}}, {0, "msh", "map", [][]int{nil, {1, 2}}},
		{1, "next", "one", one}, {1, "owner", "one", [][]int{nil, {0}}}, {1, "kids", "arr", [][]int{nil, {2}, {1}}},
		{2, "next", "one", one}, {2, "any", "one", [][]int{nil, {1}}},
	}
	if thorough {
		slots = append(slots, slot{0, "ins", "arr", [][]int{nil, {1, 2}, {2, 1}}}, slot{0, "shs", "arr", [][]int{nil, {2, 1, 2}}},
			slot{0, "mv", "map", [][]int{nil, {1, 2}}}, slot{0, "up", "one", [][]int{nil, {0}}}, slot{2, "map", "map", [][]int{nil, {0}}}, slot{0, "bp", "one", one})
	} else {
		slots = append(slots, slot{0, "up", "one", [][]int{nil, {0}}}, slot{0, "mv", "map", [][]int{nil, {1}}})
	}
	size := uint64(1)
	for _, s := range slots {
		size *= uint64(len(s.opt))
	}
	return &Space{Name: "graphs", Size: size, Chunk: 400, HangS: 30,
		Bound: fmt.Sprintf("every way to fill %d positions (pointer, value, interface, slices, maps, embedded) of a root and two records, with cycles", len(slots)),
		Run: func(i uint64, r *Rec) {
			recs := []*gv{gr("vzAll", "i", gi(9)), gr("vzInner", "a", gi(1), "s", gs("one")), gr("vzInner", "a", gi(2), "s", gs("two"))}
			names := []string{"g0", "g1", "g2"}
			var b strings.Builder
			for k, g := range recs {
				b.WriteString("(def " + names[k] + " " + g.body() + ") ")
			}
			for k, g := range recs {
				g.name = names[k]
			}
			for _, s := range slots {
				o := s.opt[i%uint64(len(s.opt))]
				i /= uint64(len(s.opt))
				if o == nil {
					continue
				}
				var v *gv
				switch s.kind {
				case "one":
					v = recs[o[0]]
				case "arr":
					v = ga()
					for _, x := range o {
						v.a = append(v.a, recs[x])
					}
				case "map":
					v = gh()
					for n, x := range o {
						v.keys, v.a = append(v.keys, gsym(string(rune('k'+n)))), append(v.a, recs[x])
					}
				}
				recs[s.rec].set(s.field, v)
				b.WriteString("(hset " + names[s.rec] + " " + s.field + ": " + v.text() + ") ")
			}
			c := newC10(r)
			// a record by value inside itself: compared as far as it is finite
			setup := b.String() + "nil"
			if valueCycle(recs) {
				r.Count("value cycles", 1)
				o := c.eval(setup)
				if o.Kind == "val" {
					o = c.eval("(togo g0)")
				}
				if o.Kind != "val" && o.Kind != "err" {
					r.Violate("graph", setup+" (togo g0)", o.String())
				}
				return
			}
			c.check("graph", setup, recs[0])
		}}
}

// valueCycle: can the records be reached from themselves through by-value positions?
func valueCycle(recs []*gv) bool {
	for _, g := range recs[1:] {
		var reach func(h *gv, d int) bool
		reach = func(h *gv, d int) bool {
			if d > 8 {
				return false
			}
			k := h.get("kids")
			var next []*gv
			if k != nil {
				next = append(next, k.a...)
			}
			if d > 0 || k != nil {
				for _, f := range []string{"next", "any"} {
					if v := h.get(f); v != nil {
						next = append(next, v)
					}
				}
			}
			for _, n := range next {
				if n == g && hasKids(h, g, d) {
					return true
				}
				if n.tn == "vzInner" && n != h && reach(n, d+1) {
					return true
				}
			}
			return false
		}
		if reach(g, 0) {
			return true
		}
	}
	return false
}

func hasKids(h, g *gv, d int) bool { return h.get("kids") != nil || g.get("kids") != nil || d > 0 }

// c10Calls: one object for a record in two arguments, and so on.
func c10Calls() *Space {
	type cs struct{ src, want string }
	cases := []cs{
		{"(def x (vzInner a:1)) (_method (vzAll) Same: x x)", "[true]"},
		{"(def x (vzInner a:1)) (def y (vzInner a:1)) (_method (vzAll) Same: x y)", "[false]"},
		{"(def x (vzInner a:1)) (_method (vzAll) SameAny: x x)", "[true]"},
		{"(def x (vzInner a:1)) (_method (vzAll) Held: (vzAll p:x) x)", "[true]"},
		{"(def x (vzInner a:1)) (_method (vzAll) Held: (vzAll p:x) (vzInner a:1))", "[false]"},
		{"(def x (vzInner a:1)) (def res (_method (vzAll) Pair: x x)) (hset (aget res 0) a: 77) (hget (aget res 1) a:)", "77"},
		{"(def x (vzInner a:1)) (def y (vzInner a:2)) (def res (_method (vzAll) Pair: x y)) (hset (aget res 0) a: 77) (hget (aget res 1) a:)", "2"},
		{"(def x (vzInner a:1)) (def y (vzInner a:2)) (def res (aget (_method (vzAll) List: x y) 0)) (hset (aget res 0) a: 77) [(len res) (hget (aget res 1) a:) (hget (aget res 2) a:)]", "[3 2 77]"},
		{"(def x (vzInner a:1)) (def res (aget (_method (vzAll) Table: x) 0)) (hset (hget res x:) a: 77) (hget (hget res y:) a:)", "77"},
		{`(def x (aget (_method (vzAll) EP: (vzInner s:"deep")) 0)) (_method x GetS:)`, `["deep"]`},
		{`(def x (aget (_method (vzAll) Echo: (vzAll p:(vzInner s:"deep"))) 0)) (_method (hget x p:) GetS:)`, `["deep"]`},
		{`(def x (aget (_method (vzAll) Echo: (vzAll in:(vzInner s:"deep"))) 0)) (_method (hget x in:) GetS:)`, `["deep"]`},
		{`(def x (aget (_method (vzAll) EIn: (vzInner s:"deep")) 0)) (_method x GetS:)`, `["deep"]`},
		{`(def x (vzInner s:"deep")) (_method (vzAll) EP: x) (_method x GetS:)`, `["deep"]`},
		{`(_method (vzInner s:"deep") GetS:)`, `["deep"]`},
		{`(_method (vzInner a:7) Area:)`, `[7]`},
		{`(_method (vzPoint x:7 y:3) Area:)`, `[21]`},
		{"(_method (vzAll i:3) Nothing:)", "[nil nil nil nil nil]"},
		{"(def z (aget (_method (vzAll) Loose: 5) 0)) (_method (vzAll) Z: z)", "[5]"},
		{"(def z (aget (_method (vzAll) PLoose: 6) 0)) (_method (vzAll) PZ: z)", "[6]"},
		{"(def x (vzAll i:3 str:\"q\")) (def y (aget (_method x Self:) 0)) [(hget y i:) (hget y str:)]", `[3 "q"]`},
		{"(_method (vzAll) EP: (vzPoint))", "error"},
		{"(_method (vzAll) EP: (vzAll))", "error"},
		{"(_method (vzAll) Echo: (vzInner))", "error"},
		{"(_method (vzAll) Echo: (snoopy))", "error"},
		{"(_method (vzAll) Echo: (hash))", "error"},
		{"(_method (vzAll) ESh: (vzAll))", "error"},
		{"(_method (vzAll) EIn: (vzPoint))", "error"},
		{"(_method (vzAll) ESh: (weather))", "error"},
		{"(_method (vzAll) EP: 5)", "error"},
		{"(_method (vzAll) EP:)", "error"},
		{"(_method (vzAll) EP: (vzInner) (vzInner))", "error"},
		{"(_method (vzAll) Nosuch:)", "error"},
		{"(_method (vzAll i:\"bad\") Self:)", "error"},
		{"(_method (vzAll nosuch:1) Self:)", "error"},
		{"(struct cust [(field x: int64)]) (_method (vzAll) EP: (cust x:1))", "error"},
		{"(struct cust [(field x: int64)]) (_method (vzAll) EP: (cust))", "error"},
		{"(defmap mycust) (_method (vzAll) EP: (mycust))", "error"},
		{"(defmap mycust) (togo (vzAll p:(mycust)))", "error"},
		{"(togo (vzAll p:(hash a:1)))", "error"},
		{"(togo 5)", "error"},
		{"(togo (hash a:1))", "error"},
		{"(togo (vzAll x:1 bx:1))", "error"},
		{"(togo (vzAll bx:1 Bx:2))", "error"},
		{"(togo (vzPoint x:1 X:2))", "error"},
		{"(def x (vzInner a:1)) (togo (vzAll p:x)) (hset x a: \"bad\") (togo (vzAll p:x))", "error"},
		{"(def x (vzInner a:1)) (def y (vzAll p:x)) (togo y) (hset x a: 5) (def z (aget (_method (vzAll) Echo: y) 0)) (hget (hget z p:) a:)", "5"},
	}
	return &Space{Name: "calls", Size: uint64(len(cases)), HangS: 20, Bound: "one object per record in the arguments and results of a call; wrong records",
		Run: func(i uint64, r *Rec) {
			c10Uses = 1 << 20 // variables keep their types
			c := newC10(r)
			o := c.eval(cases[i].src)
			r.Validated++
			got := o.S
			if o.Kind == "err" {
				got = "error"
			}
			if got != cases[i].want || o.Kind != "val" && o.Kind != "err" {
				r.Violate("call", cases[i].src, "want "+cases[i].want+", got "+o.String())
			}
		}}
}

func c10Chains() *Space {
	lens := []int{1, 2, 3, 10, 100, 1000, 3000}
	return &Space{Name: "chains", Size: uint64(len(lens) * 3), HangS: 60, Bound: "chains of records up to 3000 deep, through pointers, interfaces and slices of values",
		Run: func(i uint64, r *Rec) {
			n := lens[int(i)/3]
			field := []string{"next", "any", "kids"}[i%3]
			var last *gv
			var b strings.Builder
			b.WriteString("(def c0 (vzInner a:0)) ")
			last = gr("vzInner", "a", gi(0))
			for k := 1; k < n; k++ {
				ref := "c0"
				v := last
				if field == "kids" {
					ref, v = "[c0]", ga(last)
				}
				fmt.Fprintf(&b, "(set c0 (vzInner a:%d %s:%s)) ", k, field, ref)
				last = gr("vzInner", "a", gi(int64(k)), field, v)
			}
			last.name = "c0"
			c := newC10(r)
			c.check("chain "+field, b.String()+"nil", last)
		}}
}

// c10Planes: the demo structs, with their embedded planes and flyers.
func c10Planes(thorough bool) *Space {
	tns := []string{"snoopy", "hornet", "hellcat"}
	extra := map[string]*gv{"snoopy": gs("woof"), "hornet": gs("bob"), "hellcat": nil}
	ef := map[string]string{"snoopy": "cry", "hornet": "nickname"}
	// root type x inner types (2) x which positions x plain fields
	return &Space{Name: "planes", Size: 3 * 3 * 3 * 4 * 4 * 8 * 2, Chunk: 200, HangS: 20,
		Bound: "three demo types holding two more in chld, friends and carrying, shared or not, with promoted fields",
		Run: func(i uint64, r *Rec) {
			pick := func(n uint64) int { x := i % n; i /= n; return int(x) }
			mk := func(tn, name string, n int64) *gv {
				g := gr(tn, "id", gi(n), "speed", gi(-n))
				if extra[tn] != nil {
					g.set(ef[tn], extra[tn])
				}
				g.name = name
				return g
			}
			a, b, root := mk(tns[pick(3)], "p1", 1), mk(tns[pick(3)], "p2", 2), mk(tns[pick(3)], "p0", 3)
			one := [][]*gv{nil, {a}, {b}, {a, b}}
			chld, friends := pick(4), pick(4)
			bits, deep := pick(8), pick(2)
			a.name, b.name = "p1"+a.tn, "p2"+b.tn
			setup := "(def " + a.name + " " + a.body() + ") (def " + b.name + " " + b.body() + ") "
			if deep == 1 {
				b.set("chld", a)
				setup += "(hset " + b.name + " chld: " + a.name + ") "
			}
			if chld == 1 || chld == 2 {
				root.set("chld", one[chld][0])
			} else if chld == 3 {
				root.set("chld", gk("nil"))
			}
			if friends > 0 {
				root.set("friends", ga(one[friends]...))
			}
			if bits&1 > 0 {
				root.set("SpanCm", gi(12))
			}
			if bits&2 > 0 && root.tn == "snoopy" {
				root.set("carrying", ga(b, a, b))
				root.set("pack", ga(gi(1), gi(2)))
			}
			if bits&4 > 0 {
				root.set("plane", gr("plane", "speed", gi(5)))
				if root.tn == "hornet" || bits&2 > 0 {
					root.set("speed", gk("nil"))
				}
				return // a promoted field and its struct at once: which wins is not decided
			}
			root.name = ""
			newC10(r).check("plane", setup+"nil", root)
		}}
}
