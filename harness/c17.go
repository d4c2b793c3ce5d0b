package main

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C17: declared struct types are enforced on every write.
//
// The oracle is a description of types of its own (stType) and a check of
// real values against it (conforms) that looks at the Go representation
// only. Which writes have to be refused follows from the value about to be
// written and the declared type; after every step every instance alive is
// checked deeply against the definition in force when it was made.

type stType struct {
	kind byte // 'b'ase, 's'lice, 'p'ointer, 'r'ecord
	name string
	el   *stType
}

func (t *stType) src() string {
	switch t.kind {
	case 's':
		return "([] " + t.el.src() + ")"
	case 'p':
		return "(* " + t.el.src() + ")"
	}
	return t.name
}

// goName is the name of the type in the registry.
func (t *stType) goName() string {
	switch t.kind {
	case 's':
		return "[]" + t.el.goName()
	case 'p':
		return "*" + t.el.goName()
	}
	return t.name
}

// good is the text of a value of the type, which refers to pt and c0.
func (t *stType) good() string {
	switch t.kind {
	case 's':
		return "[" + t.el.good() + " " + t.el.good() + "]"
	case 'p':
		return "(& " + t.el.good() + ")"
	case 'r':
		return map[string]string{"Pt": "pt", "Car": "c0"}[t.name]
	}
	return map[string]string{"int64": "5", "string": `"s"`, "bool": "true", "float64": "2.5", "uint64": "6ULL", "int32": "'k'"}[t.name]
}

type stVerdict int

const (
	stNo stVerdict = iota
	stYes
	stOpen // the property does not say
)

func stAnd(a, b stVerdict) stVerdict {
	if a == stNo || b == stNo {
		return stNo
	}
	if a == stOpen || b == stOpen {
		return stOpen
	}
	return stYes
}

// stDefs maps the struct names to the definitions that field types refer to.
type stDefs map[string]*zygo.RecordDefn

func stRecDefn(v zygo.Sexp) *zygo.RecordDefn {
	h, ok := v.(*zygo.SexpHash)
	if !ok || h.GoStructFactory == nil {
		return nil
	}
	return h.GoStructFactory.UserStructDefn
}

// conforms says whether a field of type t may hold v.
func (d stDefs) conforms(v zygo.Sexp, t *stType, depth int) stVerdict {
	if v == zygo.SexpNull {
		if depth > 0 {
			return stOpen
		}
		return stYes
	}
	if _, isVar := v.(*zygo.SexpReflect); isVar {
		return stOpen // a variable of a Go type
	}
	yes := func(b bool) stVerdict {
		if b {
			return stYes
		}
		return stNo
	}
	switch t.kind {
	case 'b':
		ok := false
		switch t.name {
		case "int64":
			_, ok = v.(*zygo.SexpInt)
		case "string":
			_, ok = v.(*zygo.SexpStr)
		case "bool":
			_, ok = v.(*zygo.SexpBool)
		case "float64":
			_, ok = v.(*zygo.SexpFloat)
		case "uint64":
			_, ok = v.(*zygo.SexpUint64)
		case "int32":
			_, ok = v.(*zygo.SexpChar)
		}
		return yes(ok)
	case 's':
		a, ok := v.(*zygo.SexpArray)
		if !ok {
			return stNo
		}
		res := stYes
		for _, el := range a.Val {
			res = stAnd(res, d.conforms(el, t.el, depth+1))
		}
		return res
	case 'p':
		p, ok := v.(*zygo.SexpPointer)
		if !ok {
			return stNo
		}
		tg := p.Target
		for q, more := tg.(*zygo.SexpPointer); more; q, more = tg.(*zygo.SexpPointer) {
			tg = q.Target
		}
		if _, isType := tg.(*zygo.RegisteredType); isType {
			return stNo
		}
		return yes(p.PointedToType != nil && d.isType(p.PointedToType, t.el))
	case 'r':
		def := stRecDefn(v)
		return yes(def != nil && def == d[t.name])
	}
	return stNo
}

func (d stDefs) isType(rt *zygo.RegisteredType, t *stType) bool {
	if t.kind == 'r' {
		return rt.UserStructDefn != nil && rt.UserStructDefn == d[t.name]
	}
	return rt.RegisteredName == t.goName()
}

// stShow is the whole content of a value, with the identity of what
// pointers point to.
func stShow(v zygo.Sexp) string {
	var b strings.Builder
	stShowTo(&b, v, 0)
	return b.String()
}

func stShowTo(b *strings.Builder, v zygo.Sexp, depth int) {
	if depth > 8 {
		b.WriteString("...")
		return
	}
	switch x := v.(type) {
	case *zygo.SexpHash:
		fmt.Fprintf(b, "{%s/%p", x.TypeName, stRecDefn(x))
		for _, k := range x.KeyOrder {
			val, err := x.HashGet(nil, k)
			b.WriteByte(' ')
			stShowTo(b, k, depth+1)
			b.WriteByte(':')
			if err != nil {
				b.WriteString("?")
				continue
			}
			stShowTo(b, val, depth+1)
		}
		b.WriteByte('}')
	case *zygo.SexpArray:
		b.WriteByte('[')
		for _, el := range x.Val {
			stShowTo(b, el, depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case *zygo.SexpPointer:
		fmt.Fprintf(b, "&%p(", x.Target)
		if _, isRec := x.Target.(*zygo.SexpHash); !isRec {
			stShowTo(b, x.Target, depth+1)
		}
		b.WriteByte(')')
	default:
		b.WriteString(Dump(v))
	}
}

// stSound checks one instance against its definition; "" if it is sound.
func (d stDefs) stSound(v zygo.Sexp, fields map[string]*stType) string {
	h, ok := v.(*zygo.SexpHash)
	if !ok {
		return fmt.Sprintf("not a record: %T", v)
	}
	n := 0
	for _, k := range h.KeyOrder {
		sym, ok := k.(*zygo.SexpSymbol)
		if !ok {
			return "has the key " + Dump(k)
		}
		t := fields[sym.Name()]
		if t == nil {
			return "has the undeclared field " + sym.Name()
		}
		val, err := h.HashGet(nil, k)
		if err != nil {
			return "field " + sym.Name() + ": " + err.Error()
		}
		if d.conforms(val, t, 0) == stNo {
			return fmt.Sprintf("field %s is declared %s and holds %s", sym.Name(), t.src(), Dump(val))
		}
		n++
	}
	for _, ps := range h.Map {
		n -= len(ps)
	}
	if n != 0 {
		return "hidden fields"
	}
	return ""
}

var stBases = []string{"int64", "string", "bool", "float64", "uint64", "int32"}

// stTypes lists the types of at most that depth.
func stTypes(depth int) []*stType {
	var out []*stType
	for _, b := range stBases {
		out = append(out, &stType{kind: 'b', name: b})
	}
	out = append(out, &stType{kind: 'r', name: "Pt"}, &stType{kind: 'r', name: "Car"})
	lo := 0
	for d := 0; d < depth; d++ {
		hi := len(out)
		for _, t := range out[lo:hi] {
			out = append(out, &stType{kind: 's', el: t}, &stType{kind: 'p', el: t})
		}
		lo = hi
	}
	return out
}

// stExtra are values besides the good ones of all types.
var stExtra = []string{
	"nil", "[]", "[[]]", "[[] []]", "[nil]", "[[nil]]", `[1 "a"]`, `["a" 1]`, `["a" "b" 'c']`, `[[1] ["a"]]`, `[["a"] [1 2]]`, `[[] [1]]`, `[[1] []]`, `[[1] 2]`, "[1 nil]", "[nil 1]", "[pt c0]", "[c0 pt]", "[pt nil]", "[pt (hash a: 1)]", "[(& pt) (& c0)]", "[(& 1) (& \"s\")]", "[[pt] [c0]]",
	"(list 1 2)", "(quote q)", "(quote (a b))", "(fn [] 1)", "+", "(hash)", "(hash x: 1)", "(Und x: 1)", "(Und)", "(& (Und x: 1))", "(& (hash))", "[(Und)]", `(raw "ab")`, "(Pt)", "(Pt y: 2.5)", "oldpt", "(& oldpt)", "[oldpt]", "[pt oldpt]", "(& (& oldpt))", "(Old x: 1)", "Pt", "Car", "int64", "string", "(& int64)", "(* int64)", "([] int64)", "[int64]", "[Pt]", "(& Pt)", "(& [])", `(& [])`, "(& nil)", "(now)", "(cons 1 2)", "c0", "-9223372036854775808", `""`, "0", "0.0", "false", "(& true)", "(& (quote q))",
	"(chainnew)", "(error \"boom\")",
}

// stRoute is one way of writing $v into the field $f of the instance.
type stRoute struct {
	name string
	src  string // may use $f, $v
	inst string // the record that should have the field afterwards, default c
	make bool   // makes a new record instead of changing c
	key  bool   // src spells the field as an expression $k
	dec  string // a decoder: text of what it turns $v into
}

var stRoutes = []stRoute{
	{name: "constructor", src: "(def nw (Car $f: $v))", inst: "nw", make: true},
	{name: "constructor after g", src: "(def nw (Car g: 1 $f: $v))", inst: "nw", make: true},
	{name: "constructor twice", src: "(def nw (Car $f: nil $f: $v))", inst: "nw", make: true},
	{name: "infix constructor", src: "{nw = (Car $f: $v)}", inst: "nw", make: true},
	{name: "quoted key constructor", src: "(def nw (Car (quote $f) $v))", inst: "nw", make: true},
	{name: "key expression constructor", src: "(def nw (Car $k $v))", inst: "nw", make: true, key: true},
	
	{name: "alias constructor", src: "(begin (def mk Car) (def nw (mk $f: $v)))", inst: "nw", make: true},
	{name: "msgmap", src: "(def nw (msgmap \"Car\" (list (quote $f) $v)))", inst: "nw", make: true},
	{name: "msgmap key expression", src: "(def nw (msgmap \"Car\" (list $k $v)))", inst: "nw", make: true, key: true},
	{name: "hset name:", src: "(hset c $f: $v)"},
	{name: "hset %name", src: "(hset c %$f $v)"},
	{name: "hset quote", src: "(hset c (quote $f) $v)"},
	{name: "hset string made a symbol", src: "(hset c (str2sym \"$f\") $v)"},
	{name: "hset array key", src: "(hset c [(quote $f)] $v)"},
	{name: "hset key expression", src: "(hset c $k $v)", key: true},
	{name: "apply hset", src: "(apply hset [c (quote $f) $v])"},
	{name: "infix =", src: "{c.$f = $v}"},
	{name: "infix :=", src: "{c.$f := $v}"},
	{name: "set dotted", src: "(set c.$f $v)"},
	
	{name: "= prefix", src: "(= c.$f $v)"},
	{name: "selector", src: "{c[%$f] = $v}"},
	{name: "selector key expression", src: "{c[$k] = $v}", key: true},
	{name: "set hashidx", src: "(set (hashidx c [(quote $f)]) $v)"},
	{name: "through an alias", src: "(let [al c] (hset al $f: $v))"},
	{name: "through an alias, infix", src: "(begin (def al c) {al.$f = $v})"},
	{name: "through a parameter", src: "((fn [p w] {p.$f = w}) c $v)"},
	{name: "through a parameter, hset", src: "((fn [p w] (hset p $f: w)) c $v)"},
	{name: "in a closure", src: "(((fn [p] (fn [w] (set p.$f w))) c) $v)"},
	{name: "in a loop", src: "(for [(def i 0) (< i 2) (set i (+ i 1))] (hset c $f: $v))"},
	{name: "in a range", src: "(range kk vv [c] (hset vv $f: $v))"},
	{name: "in a map", src: "(map (fn [p] (hset p $f: $v)) [c])"},
	{name: "through a hash", src: "(begin (def hh (hash in: c)) {hh.in.$f = $v})"},
	{name: "through a hash, set", src: "(begin (def hh (hash in: c)) (set hh.in.$f $v))"},
	{name: "through two hashes", src: "(begin (def hh (hash in: (hash jn: c))) {hh.in.jn.$f = $v})"},
	{name: "through a record", src: "(begin (def ww (Wrap c: c)) {ww.c.$f = $v})"},
	{name: "through a record, hset", src: "(begin (def ww (Wrap c: c)) (hset ww.c $f: $v))"},
	{name: "through a record in a slice", src: "(begin (def ww (Wrap l: [c])) {ww.l[0].$f = $v})"},
	{name: "through an undeclared record", src: "(begin (def ww (Und c: c)) {ww.c.$f = $v})"},
	{name: "through an array", src: "(begin (def ar [c]) {ar[0].$f = $v})"},
	{name: "through an array, hset", src: "(begin (def ar [c]) (hset (aget ar 0) $f: $v))"},
	{name: "through a list", src: "(hset (first (list c)) $f: $v)"},
	{name: "through deref", src: "(let [p (& c)] (hset (deref p) $f: $v))"},
	{name: "through hget", src: "(begin (def hh (hash 1 c)) (hset (hget hh 1) $f: $v))"},
	{name: "through a package", src: "(begin (def pkx (package pkx { In := 1; C := c })) {pkx.C.$f = $v})"},
	{name: "through its pointer field", src: "(begin (def c9 (Car)) (hset c9 o: (& c)) (let [p c9.o] (hset (deref p) $f: $v)))"},
	{name: "derefSet of the record", src: "(derefSet (& c) (Car $f: $v))"},
	{name: "derefSet through a pointer field", src: "(begin (def c9 (Car)) (hset c9 o: (& c)) (let [p c9.o] (derefSet p (Car $f: $v))))"},
	{name: "derefSet to a record changed first", src: "(let [w (Car g: 3)] (hset w $f: $v) (derefSet (& c) w))"},
	{name: "in eval", src: "(eval (quote (hset c $f: $v)))"},
	{name: "in a macro", src: "(begin (defmac wr [p w] ^(hset ~p $f: ~w)) (wr c $v))"},
	{name: "in a lazy argument", src: "((fn [#p] (force #p)) (hset c $f: $v))"},
	{name: "by a method-like member", src: "(begin (def ob (hash f: (fn [p w] (hset p $f: w)))) (let [fu (hget ob f:)] (fu c $v)))"},
	{name: "by a typed function", src: "(begin (func wr [p:Car] [r:int64] (hset p $f: $v) (return 1)) (wr c))"},
	{name: "json", src: "(def nw (unjson (json (jsonrec $f: $v))))", inst: "nw", make: true, dec: "unjson"},
	{name: "msgpack", src: "(def nw (unmsgpack (msgpack (jsonrec $f: $v))))", inst: "nw", make: true, dec: "unmsgpack"},
}

// stWorld is an interpreter with the structs declared.
type stWorld struct {
	env    *zygo.Zlisp
	defs   stDefs
	fields map[string]*stType
	c0, c  *zygo.SexpHash
}

func stLookup(env *zygo.Zlisp, name string) zygo.Sexp {
	v, ok := env.FindObject(name)
	if !ok {
		return nil
	}
	return v
}

func stMust(env *zygo.Zlisp, src string) {
	if o := Eval(env, src); o.Kind != "val" {
		panic(src + ": " + o.String())
	}
}

// newStWorld declares Pt, Car with a field f of the type, and Wrap; pt, c0,
// oldpt (of a Pt since replaced) and, with f set or not, c.
func newStWorld(t *stType, set bool) *stWorld {
	env := NewStd()
	stMust(env, "(struct Pt [(field x: int64)]) (def oldpt (Pt x: 1)) (defmap Und) (struct Old [(field x: int64)])")
	stMust(env, "(struct Pt [(field x: int64) (field y: float64)]) (def pt (Pt x: 1))")
	stMust(env, "(struct Car [(field f: "+t.src()+") (field g: int64) (field o: (* Car))])")
	stMust(env, "(struct Wrap [(field c: Car) (field l: ([] Car))]) (def c0 (Car g: 2))")
	w := &stWorld{env: env, defs: stDefs{}, fields: map[string]*stType{
		"f": t, "g": {kind: 'b', name: "int64"}, "o": {kind: 'p', el: &stType{kind: 'r', name: "Car"}},
	}}
	for _, n := range []string{"Pt", "Car", "Wrap"} {
		w.defs[n] = stLookup(env, n).(*zygo.RegisteredType).UserStructDefn
	}
	src := "(def c (Car g: 7))"
	if set {
		src = "(def c (Car f: " + t.good() + " g: 7))"
	}
	stMust(env, src)
	w.c0, w.c = stLookup(env, "c0").(*zygo.SexpHash), stLookup(env, "c").(*zygo.SexpHash)
	return w
}

func (w *stWorld) sound(r *Rec, head string, src string) bool {
	for _, in := range []struct {
		n string
		v zygo.Sexp
	}{{"c", w.c}, {"c0", w.c0}, {"nw", stLookup(w.env, "nw")}, {"nw0", stLookup(w.env, "nw0")}} {
		if in.v == nil {
			continue
		}
		if h, ok := in.v.(*zygo.SexpHash); ok && h.TypeName != "Car" {
			continue
		}
		if _, ok := in.v.(*zygo.SexpHash); !ok && in.n != "c" {
			continue
		}
		if why := w.defs.stSound(in.v, w.fields); why != "" {
			r.Violate("unsound "+in.n, head, why+"\nafter "+src)
			return false
		}
		if def := stRecDefn(in.v); def != w.defs["Car"] {
			r.Violate("definition "+in.n, head, "instance has another definition\nafter "+src)
			return false
		}
	}
	return true
}

// run performs the write and judges it.
func (w *stWorld) run(rt *stRoute, field, key, vsrc string, want func(v zygo.Sexp) stVerdict, r *Rec, head string) {
	o := Eval(w.env, "(def val "+vsrc+")")
	if o.Kind != "val" {
		r.Count("value not available", 1)
		return
	}
	val := stLookup(w.env, "val")
	if rt.dec != "" {
		// what the decoder makes of the value when there is no declaration
		do := Eval(w.env, "(hget ("+rt.dec+" ("+map[string]string{"unjson": "json", "unmsgpack": "msgpack"}[rt.dec]+" (hash q: val))) q:)")
		if do.Kind != "val" {
			r.Count("value not encoded", 1)
			return
		}
		val = do.V
		// a record of the name Car that knows of no declaration
		stMust(w.env, "(def jsonrec (fn [& a] (apply hash a)))")
	}
	verdict := want(val)
	before, before0, bval := stShow(w.c), stShow(w.c0), stShow(val)
	src := strings.NewReplacer("$f", field, "$v", "val", "$k", key).Replace(rt.src)
	if rt.dec != "" {
		h, ok := Eval(w.env, "(hash "+field+": val)").V.(*zygo.SexpHash)
		if !ok {
			return
		}
		h.TypeName = "Car"
		w.env.AddGlobal("jr", h)
		src = strings.Replace(src, "(jsonrec "+field+": val)", "jr", 1)
	}
	out := Eval(w.env, src)
	r.Trans++
	if out.Kind == "panic" || out.Kind == "steps" {
		r.Violate("panic", head, out.String()+"\n"+src)
		return
	}
	w2 := w
	if !w2.sound(r, head, src) {
		return
	}
	r.Validated++
	inst := zygo.Sexp(w.c)
	if rt.make {
		inst = stLookup(w.env, "nw")
	}
	same := stShow(w.c) == before
	if stShow(w.c0) != before0 {
		r.Violate("bystander", head, "c0 changed\n"+src)
		return
	}
	if out.Kind == "err" {
		r.Count("refused", 1)
		if !same {
			r.Violate("refused but changed", head, fmt.Sprintf("was %s\nis %s\n%s\n%s", before, stShow(w.c), src, out))
			return
		}
		if verdict == stYes {
			r.Violate("good write refused", head, fmt.Sprintf("%s\n%s", src, out))
		}
		return
	}
	r.Count("accepted", 1)
	if verdict == stNo {
		r.Violate("bad write not refused", head, fmt.Sprintf("%s gave %s; c is %s", src, out, Dump(w.c)))
		return
	}
	h, ok := inst.(*zygo.SexpHash)
	if !ok {
		r.Violate("no record", head, src)
		return
	}
	got, err := h.HashGet(nil, w.env.MakeSymbol(field))
	if err != nil || stShow(got) != bval {
		r.Violate("value not stored", head, fmt.Sprintf("want %s got %v (%v)\n%s", bval, got, err, src))
		return
	}
	if rt.make && !same {
		r.Violate("bystander", head, "c changed\n"+src)
	}
}

// stKeys are keys that no declaration allows, as expressions; the first
// ones are names and also go into routes that spell the name.
var stNames = []string{"nosuch", "F", "ff", "x", "_f", "c", "f1", "ñ"}
var stKeys = []string{"5", `"f"`, `"g"`, "[1 2]", "'f'", "1.5", "true", "nil", "[(quote f) (quote g)]", "(quote f.g)", "(quote .f)", "(quote nosuch)", "(gensym)", "(hash)", "pt", "6ULL", "[\"f\"]", "(fn [] 1)", "int64", "(list (quote f))", "[nil]", "[]"}

// writeSpace: every route x every type x every value.
func stWriteSpace(name string, types []*stType, values []string, sets []bool) *Space {
	per := uint64(len(values) * len(sets))
	n := per * uint64(len(types)) * uint64(len(stRoutes))
	type conf struct {
		t   *stType
		rt  *stRoute
		v   string
		set bool
	}
	at := func(i uint64) conf {
		v := values[i%uint64(len(values))]
		i /= uint64(len(values))
		set := sets[i%uint64(len(sets))]
		i /= uint64(len(sets))
		rt := &stRoutes[i%uint64(len(stRoutes))]
		i /= uint64(len(stRoutes))
		return conf{types[i], rt, v, set}
	}
	head := func(c conf) string {
		return fmt.Sprintf("field f %s, was set: %v, value %s, %s", c.t.src(), c.set, c.v, c.rt.name)
	}
	return &Space{Name: name, Size: n, Chunk: 40,
		Desc:  func(i uint64) string { return head(at(i)) },
		Bound: fmt.Sprintf("%d field types x %d routes x %d values x %d states of the field", len(types), len(stRoutes), len(values), len(sets)),
		Run: func(i uint64, r *Rec) {
			c := at(i)
			w := newStWorld(c.t, c.set)
			if n := strings.Count(c.rt.src, "$k"); n > 0 {
				w.run(c.rt, "f", "(quote f)", c.v, func(v zygo.Sexp) stVerdict { return w.defs.conforms(v, c.t, 0) }, r, head(c))
				return
			}
			w.run(c.rt, "f", "", c.v, func(v zygo.Sexp) stVerdict { return w.defs.conforms(v, c.t, 0) }, r, head(c))
			if i%997 == 0 {
				r.Sample(head(c))
			}
		}}
}

// keySpace: every route x every undeclared key.
func stKeySpace(name string) *Space {
	type conf struct {
		rt       *stRoute
		name, ke string
		v        string
	}
	var all []conf
	for k := range stRoutes {
		rt := &stRoutes[k]
		for _, v := range []string{"5", "nil", `"s"`, "[]", "pt"} {
			if rt.key {
				for _, ke := range stKeys {
					all = append(all, conf{rt, "f", ke, v})
				}
				continue
			}
			for _, n := range stNames {
				all = append(all, conf{rt, n, "", v})
			}
		}
	}
	head := func(c conf) string {
		if c.rt.key {
			return fmt.Sprintf("key %s, value %s, %s", c.ke, c.v, c.rt.name)
		}
		return fmt.Sprintf("undeclared field %s, value %s, %s", c.name, c.v, c.rt.name)
	}
	return &Space{Name: name, Size: uint64(len(all)), Chunk: 40,
		Desc:  func(i uint64) string { return head(all[i]) },
		Bound: fmt.Sprintf("%d routes x %d undeclared names or %d other keys x 5 values", len(stRoutes), len(stNames), len(stKeys)),
		Run: func(i uint64, r *Rec) {
			c := all[i]
			w := newStWorld(&stType{kind: 'b', name: "int64"}, i%2 == 0)
			w.run(c.rt, c.name, c.ke, c.v, func(v zygo.Sexp) stVerdict { return stNo }, r, head(c))
		}}
}

// Histories of declarations, constructions and writes.

// stVersions are the definitions of Car a history may declare; 0 is none.
var stVersions = []map[string]*stType{
	nil,
	{"a": {kind: 'b', name: "int64"}, "s": {kind: 's', el: &stType{kind: 'b', name: "int64"}}},
	{"a": {kind: 'b', name: "string"}, "s": {kind: 's', el: &stType{kind: 'b', name: "string"}}},
	{"b": {kind: 'b', name: "float64"}, "r": {kind: 'r', name: "Car"}, "p": {kind: 'p', el: &stType{kind: 'r', name: "Car"}}},
}

var stVersionSrc = []string{"(defmap Car)",
	"(struct Car [(field a: int64) (field s: ([] int64))])",
	"(struct Car [(field a: string) (field s: ([] string))])",
	"(struct Car [(field b: float64) (field r: Car) (field p: (* Car))])",
}

// stOp is one step; $L is the instance made last, $P the one before, $N the
// variable of the next one.
type stOp struct {
	src string
	// the write it makes: the instance it changes or makes ('L', 'P', 'N'),
	// the field, and the expression of the value; wh is the instance whose
	// content the target gets
	inst  byte
	field string
	val   string
	wh    byte
	decl  int // 1+version declared
	bad   bool
	elem  bool // writes an element: val goes into the slice that field holds
	dec   bool
	del   bool
	more  bool // only soundness is judged
}

var stOps = []stOp{
	{src: stVersionSrc[0], decl: 1},
	{src: stVersionSrc[1], decl: 2},
	{src: stVersionSrc[2], decl: 3},
	{src: stVersionSrc[3], decl: 4},
	{src: "(def $N (Car))", inst: 'N'},
	{src: "(def $N (Car a: 1))", inst: 'N', field: "a", val: "1"},
	{src: `(def $N (Car a: "s"))`, inst: 'N', field: "a", val: `"s"`},
	{src: "(def $N (Car b: 1.5))", inst: 'N', field: "b", val: "1.5"},
	{src: "(def $N (Car s: [1 2]))", inst: 'N', field: "s", val: "[1 2]"},
	{src: `(def $N (Car s: ["x" "y"]))`, inst: 'N', field: "s", val: `["x" "y"]`},
	{src: "(hset $L a: 1)", inst: 'L', field: "a", val: "1"},
	{src: `{$L.a = "t"}`, inst: 'L', field: "a", val: `"t"`},
	{src: `(set $P.a "u")`, inst: 'P', field: "a", val: `"u"`},
	{src: "{$P.a = 3}", inst: 'P', field: "a", val: "3"},
	{src: "{$L.b = 2.5}", inst: 'L', field: "b", val: "2.5"},
	{src: "{$L.r = $P}", inst: 'L', field: "r", val: "$P"},
	{src: "(hset $L r: $L)", inst: 'L', field: "r", val: "$L"},
	{src: "(let [q (& $P)] (hset $L p: q))", inst: 'L', field: "p", val: "$P", more: true},
	{src: "(hset $L s: (hget $P s:))", inst: 'L', field: "s", val: "(hget $P s:)"},
	{src: "(hset $P a: (hget $L a:))", inst: 'P', field: "a", val: "(hget $L a:)"},
	{src: "(let [q (hget $L s:)] (aset q 0 9))", inst: 'L', field: "s", val: "9", elem: true},
	{src: `{$P.s[0] = "z"}`, inst: 'P', field: "s", val: `"z"`, elem: true},
	{src: "(derefSet (& $L) $P)", inst: 'L', wh: 'P'},
	{src: "(derefSet (& $P) $L)", inst: 'P', wh: 'L'},
	{src: "(let [q (hget $P p:)] (derefSet q $L))", inst: 'P', more: true},
	{src: "(hdel $L a:)", inst: 'L', field: "a", del: true},
	{src: "(def $N (unjson (json $L)))", inst: 'N', dec: true, wh: 'L'},
	{src: "(def $N (unmsgpack (msgpack $P)))", inst: 'N', dec: true, wh: 'P'},
	{src: "(struct Car [(field a: nosuchtype)])", bad: true},
}

type stInst struct {
	name string
	h    *zygo.SexpHash
	def  *zygo.RecordDefn // nil if made when Car was not declared
	ver  int
	defs stDefs // what Car meant when the definition was made
}

func (in *stInst) sound() string {
	if in.ver == 0 {
		if d := stRecDefn(in.h); d != nil {
			return "an instance made before the declaration has a definition now"
		}
		return ""
	}
	if d := stRecDefn(in.h); d != in.def {
		return "the instance has another definition than at first"
	}
	return in.defs.stSound(in.h, stVersions[in.ver])
}

func stHistory(ops []int, r *Rec) {
	env := NewStd()
	var head strings.Builder
	var insts []*stInst
	ver := 0
	cur := stDefs{}
	declared := false
	pick := func(c byte) *stInst {
		switch {
		case c == 'L' && len(insts) > 0:
			return insts[len(insts)-1]
		case c == 'P' && len(insts) > 1:
			return insts[len(insts)-2]
		}
		return nil
	}
	for step, oi := range ops {
		op := &stOps[oi]
		L, P := pick('L'), pick('P')
		if strings.Contains(op.src, "$L") && L == nil || strings.Contains(op.src, "$P") && P == nil {
			r.Count("inapplicable", 1)
			return
		}
		next := fmt.Sprintf("c%d", len(insts))
		nm := []string{"$N", next}
		if L != nil {
			nm = append(nm, "$L", L.name)
		}
		if P != nil {
			nm = append(nm, "$P", P.name)
		}
		sub := strings.NewReplacer(nm...)
		src := sub.Replace(op.src)
		head.WriteString(src + " ")
		at := func() string { return strings.TrimSpace(head.String()) }

		// the value about to be written
		var val zygo.Sexp
		if op.val != "" && !op.more {
			o := Eval(env, sub.Replace(op.val))
			if o.Kind != "val" {
				r.Count("no value", 1)
				return
			}
			val = o.V
		}
		var target *stInst
		if op.inst != 0 && op.inst != 'N' {
			target = pick(op.inst)
		}
		var slice *zygo.SexpArray
		if op.elem {
			v, err := target.h.HashGet(nil, env.MakeSymbol(op.field))
			if err == nil {
				slice, _ = v.(*zygo.SexpArray)
			}
		}
		snap := make([]string, len(insts))
		for i, in := range insts {
			snap[i] = stShow(in.h)
		}
		out := Eval(env, src)
		r.Trans++
		if out.Kind == "panic" || out.Kind == "steps" {
			r.Violate("panic", at(), out.String())
			return
		}
		ok := out.Kind == "val"
		switch {
		case op.decl > 0:
			if !ok {
				if op.decl == 1 && declared {
					return // defmap of a declared name may be refused
				}
				r.Violate("declaration refused", at(), out.String())
				return
			}
			if op.decl > 1 {
				ver, declared = op.decl-1, true
				rt, isRT := stLookup(env, "Car").(*zygo.RegisteredType)
				if !isRT || rt.UserStructDefn == nil || (cur["Car"] == rt.UserStructDefn) {
					r.Violate("declaration", at(), "Car is not the new definition")
					return
				}
				cur = stDefs{"Car": rt.UserStructDefn}
			} else if declared {
				return // whether defmap ends a declaration is left open
			}
		case op.bad:
			if ok {
				r.Violate("bad declaration accepted", at(), out.String())
				return
			}
		case !ok:
			if op.inst == 'N' {
				if _, made := env.FindObject(next); made {
					r.Violate("refused but made", at(), out.String())
					return
				}
			}
		}
		// what should have happened
		verdict := stOpen
		newShow := ""
		switch {
		case op.decl > 0 || op.bad || op.more:
		case op.elem:
			verdict = stNo
			if slice != nil {
				verdict = stYes
				// every typed field that shows this slice wants the element
				for _, in := range insts {
					if in.ver == 0 {
						continue
					}
					for _, k := range in.h.KeyOrder {
						v, _ := in.h.HashGet(nil, k)
						t := stVersions[in.ver][k.(*zygo.SexpSymbol).Name()]
						if v == zygo.Sexp(slice) && t.kind == 's' {
							verdict = stAnd(verdict, in.defs.conforms(val, t.el, 1))
						}
					}
				}
				if verdict == stYes && target.ver == 0 && len(slice.Val) > 0 && fmt.Sprintf("%T", slice.Val[0]) != fmt.Sprintf("%T", val) {
					verdict = stOpen // held to its type by an instance it no longer belongs to
				}
			}
		case op.del:
			verdict = stYes
		case op.dec:
			src := pick(op.wh)
			verdict = stYes
			if ver != 0 {
				verdict = stVerdict(stYes)
				for _, k := range src.h.KeyOrder {
					v, _ := src.h.HashGet(nil, k)
					t := stVersions[ver][k.(*zygo.SexpSymbol).Name()]
					switch {
					case t == nil:
						verdict = stNo
					case t.kind == 'r' || t.kind == 'p':
						verdict = stAnd(verdict, stOpen) // the inner one is decoded too
					default:
						verdict = stAnd(verdict, cur.conforms(v, t, 0))
					}
				}
			}
			for _, k := range src.h.KeyOrder {
				v, _ := src.h.HashGet(nil, k)
				switch v.(type) {
				case *zygo.SexpPointer, *zygo.SexpHash:
					verdict = stAnd(verdict, stOpen) // a pointer is not encoded, a record may be in itself
				}
			}
			newShow = stShow(src.h)
		case op.wh != 0:
			from := pick(op.wh)
			verdict = stNo
			if from.ver != 0 && from.def == target.def {
				verdict = stYes
			} else if from.ver == 0 && target.ver == 0 {
				verdict = stYes
			}
			newShow = snap[0]
			for i, in := range insts {
				if in == from {
					newShow = snap[i]
				}
			}
		default:
			v, defs := ver, cur
			if target != nil {
				v, defs = target.ver, target.defs
			}
			verdict = stYes
			if v != 0 && op.field != "" {
				t := stVersions[v][op.field]
				if t == nil {
					verdict = stNo
				} else {
					verdict = defs.conforms(val, t, 0)
				}
			}
		}
		if ok && verdict == stNo {
			r.Violate("bad write not refused", at(), out.String())
			return
		}
		if !ok && verdict == stYes {
			r.Violate("good write refused", at(), out.String())
			return
		}
		if ok && op.inst == 'N' {
			h, isH := stLookup(env, next).(*zygo.SexpHash)
			if !isH {
				r.Violate("no record", at(), out.String())
				return
			}
			insts = append(insts, &stInst{next, h, cur["Car"], ver, cur})
			if op.dec && verdict == stYes && pick(op.wh) != nil {
				a, b := stShow(h), newShow
				a, b = a[strings.IndexByte(a, ' ')+1:], b[strings.IndexByte(b, ' ')+1:]
				if strings.HasPrefix(a, "{") != strings.HasPrefix(b, "{") || (!strings.HasPrefix(a, "{") && a != b) {
					r.Violate("decoded otherwise", at(), a+" want "+b)
					return
				}
			}
			if op.field != "" {
				got, err := h.HashGet(nil, env.MakeSymbol(op.field))
				if err != nil || stShow(got) != stShow(val) {
					r.Violate("value not stored", at(), Dump(h))
					return
				}
			}
		}
		if ok && target != nil && !op.more {
			switch {
			case op.del:
				if _, err := target.h.HashGet(nil, env.MakeSymbol(op.field)); err == nil {
					r.Violate("not deleted", at(), Dump(target.h))
					return
				}
			case op.wh != 0:
				if stShow(target.h) != newShow && !strings.Contains(newShow, "'r:") {
					r.Violate("value not stored", at(), stShow(target.h)+" want "+newShow)
					return
				}
				target.ver, target.def, target.defs = pick(op.wh).ver, pick(op.wh).def, pick(op.wh).defs
			case op.elem:
				if stShow(slice.Val[0]) != stShow(val) {
					r.Violate("value not stored", at(), Dump(target.h))
					return
				}
			default:
				got, err := target.h.HashGet(nil, env.MakeSymbol(op.field))
				if err != nil || (stShow(got) != stShow(val)) {
					r.Violate("value not stored", at(), Dump(target.h))
					return
				}
			}
		}
		for i, in := range insts {
			if why := in.sound(); why != "" {
				r.Violate("unsound", at(), fmt.Sprintf("%s: %s\n%s", in.name, why, Dump(in.h)))
				return
			}
			if i < len(snap) && !ok && stShow(in.h) != snap[i] {
				r.Violate("refused but changed", at(), fmt.Sprintf("%s was %s is %s", in.name, snap[i], stShow(in.h)))
				return
			}
			if i < len(snap) && ok && !op.elem && !op.more && in != target && stShow(in.h) != snap[i] && !strings.Contains(snap[i], "'r:") && !strings.Contains(snap[i], "'p:") {
				r.Violate("bystander changed", at(), fmt.Sprintf("%s was %s is %s", in.name, snap[i], stShow(in.h)))
				return
			}
		}
		if step == len(ops)-1 {
			r.Validated++
			if ok {
				r.Count("last step accepted", 1)
			} else {
				r.Count("last step refused", 1)
			}
			var st strings.Builder
			for _, in := range insts {
				fmt.Fprintf(&st, "%d%s;", in.ver, Dump(in.h))
			}
			fmt.Fprintf(&st, "%d", ver)
			r.State(st.String())
		}
	}
}

// stPrefixes are histories that leave two instances: made under one or two
// declarations, the second made or decoded.
func stPrefixes() [][]int {
	// constructions that a definition allows
	goodFor := [][]int{{4, 5, 6, 7, 8, 9}, {4, 5, 8}, {4, 6, 9}, {4, 7}}
	var out [][]int
	for d := 0; d < 4; d++ {
		for _, a := range goodFor[d] {
			for _, b := range goodFor[d] {
				out = append(out, []int{d, a, b})
			}
			for e := 1; e < 4; e++ {
				for _, b := range goodFor[e] {
					out = append(out, []int{d, a, e, b})
				}
			}
			out = append(out, []int{d, a, 26})
		}
	}
	return out
}

// historySpace: all histories of n steps after each of the prefixes.
func stHistorySpace(name string, pre [][]int, n int) *Space {
	per := uint64(1)
	for i := 0; i < n; i++ {
		per *= uint64(len(stOps))
	}
	at := func(i uint64) []int {
		ops := make([]int, n)
		for k := n - 1; k >= 0; k-- {
			ops[k] = int(i % uint64(len(stOps)))
			i /= uint64(len(stOps))
		}
		return append(append([]int{}, pre[i]...), ops...)
	}
	return &Space{Name: name, Size: uint64(len(pre)) * per, Chunk: 1000,
		Desc: func(i uint64) string {
			var ss []string
			for _, o := range at(i) {
				ss = append(ss, stOps[o].src)
			}
			return strings.Join(ss, " ")
		},
		Bound: fmt.Sprintf("%d prefixes (declarations and constructions), then all histories of %d of %d steps; the state checked after each step", len(pre), n, len(stOps)),
		Run:   func(i uint64, r *Rec) { stHistory(at(i), r) },
	}
}

// Histories of arrays that typed fields share with variables and views.

type stArrOp struct {
	src string
	arr string // the array written to, or the value stored
	val string // the element written
	fld string // the field stored to
	set bool   // all elements are replaced
}

var stArrOps = []stArrOp{
	{src: "(hset c s: a)", arr: "a", fld: "s"}, {src: "{c.s = e}", arr: "e", fld: "s"}, {src: "(hset c s: m)", arr: "m", fld: "s"}, {src: "(set c.s v)", arr: "v", fld: "s"}, {src: "(hset c s: w)", arr: "w", fld: "s"},
	{src: "(hset c t: b)", arr: "b", fld: "t"}, {src: "{c.t = e}", arr: "e", fld: "t"}, {src: "(hset c t: v)", arr: "v", fld: "t"}, {src: "{c.t = w}", arr: "w", fld: "t"}, {src: "(hset c n: n)", arr: "n", fld: "n"}, {src: "(hset c n: w)", arr: "w", fld: "n"},
	{src: "(set v (slice a 0 1))"}, {src: "(set v (rest a))"}, {src: "{v = a[0:2]}"}, {src: "(set v (slice m 0 1))"}, {src: "(set v (first n))"}, {src: "(set v (hget c s:))"}, {src: "(set v b)"}, {src: "(set v (slice a 0 0))"}, {src: "(set v (slice n 0 1))"},
	{src: "(set w (append v 7))"}, {src: "(set w (append v \"g\"))"}, {src: "(set w (apply array v))"}, {src: "(set w (appendslice a v))"}, {src: "(set w [v])"}, {src: "(set w (map (fn [x] x) v))"}, {src: "(set w (concat v v))"},
	{src: "(aset a 0 \"k\")", arr: "a", val: "\"k\""}, {src: "(aset a 1 8)", arr: "a", val: "8"}, {src: "{v[0] = \"k\"}", arr: "v", val: "\"k\""}, {src: "(aset v 0 8)", arr: "v", val: "8"}, {src: "(aset m 1 5)", arr: "m", val: "5"}, {src: "(aset m 0 \"k\")", arr: "m", val: "\"k\""}, {src: "(aset (first n) 0 \"k\")", arr: "(first n)", val: "\"k\""}, {src: "{n[0] = b}", arr: "n", val: "b"}, {src: "(aset n 0 v)", arr: "n", val: "v"}, {src: "(aset w 0 \"k\")", arr: "w", val: "\"k\""}, {src: "{c.s[0] = 9}", arr: "(hget c s:)", val: "9"}, {src: "{c.s[0] = \"k\"}", arr: "(hget c s:)", val: "\"k\""}, {src: "(aset w 0 m)", arr: "w", val: "m"},
	{src: "(derefSet (& a) b)", arr: "a", val: "b", set: true}, {src: "(derefSet (& v) [5])", arr: "v", val: "[5]", set: true}, {src: "(derefSet (& e) b)", arr: "e", val: "b", set: true}, {src: "(derefSet (& e) a)", arr: "e", val: "a", set: true}, {src: "(derefSet (& v) m)", arr: "v", val: "m", set: true}, {src: "(derefSet (& a) e)", arr: "a", val: "e", set: true}, {src: "(derefSet (& n) [b])", arr: "n", val: "[b]", set: true}, {src: "(derefSet (& pv) m)", arr: "(deref pv)", val: "m", set: true}, {src: "(set pv (& v))"},
}

var stArrFields = map[string]*stType{
	"s": {kind: 's', el: &stType{kind: 'b', name: "int64"}}, "t": {kind: 's', el: &stType{kind: 'b', name: "string"}},
	"n": {kind: 's', el: &stType{kind: 's', el: &stType{kind: 'b', name: "int64"}}},
}

// stPlain says that all the leaves of v are of one kind, and there are some.
func stPlain(v zygo.Sexp) (string, bool) { return stPlainAt(v, 0) }

func stPlainAt(v zygo.Sexp, depth int) (string, bool) {
	a, ok := v.(*zygo.SexpArray)
	if depth > 20 {
		return "", false // in itself
	}
	if !ok {
		return fmt.Sprintf("%T", v), v != zygo.SexpNull
	}
	kind := ""
	for _, el := range a.Val {
		k, ok := stPlainAt(el, depth+1)
		if !ok || kind != "" && k != kind {
			return "", false
		}
		kind = k
	}
	return "[" + kind, kind != ""
}

func stArrays(ops []int, r *Rec) {
	env := NewStd()
	stMust(env, "(struct Car [(field s: ([] int64)) (field t: ([] string)) (field n: ([] ([] int64)))]) (def c (Car))")
	stMust(env, `(def a [1 2 3]) (def b ["p" "q"]) (def e []) (def m [1 "x"]) (def n [[1] [2 3]]) (def v nil) (def w nil) (def pv nil)`)
	c := stLookup(env, "c").(*zygo.SexpHash)
	defs := stDefs{}
	var head []string
	vars := []string{"a", "b", "e", "m", "n", "v", "w"}
	look := func() string {
		var sb strings.Builder
		for _, v := range vars {
			sb.WriteString(v + "=" + stShow(stLookup(env, v)) + " ")
		}
		return sb.String() + stShow(c)
	}
	for _, oi := range ops {
		op := stArrOps[oi]
		head = append(head, op.src)
		at := strings.Join(head, " ")
		verdict := stOpen
		if op.arr != "" {
			o := Eval(env, op.arr)
			arr, isArr := o.V.(*zygo.SexpArray)
			if o.Kind != "val" || !isArr {
				r.Count("inapplicable", 1)
				return
			}
			kind, plain := stPlain(arr)
			if op.fld != "" {
				verdict = defs.conforms(arr, stArrFields[op.fld], 0)
				if verdict == stYes && !plain {
					verdict = stOpen
				}
			} else if plain {
				vo := Eval(env, op.val)
				if vk, ok := stPlain(vo.V); vo.Kind == "val" && ok && (op.set && vk == kind || !op.set && "["+vk == kind) {
					verdict = stYes
				}
			}
		}
		before := look()
		out := Eval(env, op.src)
		r.Trans++
		if out.Kind == "panic" || out.Kind == "steps" {
			r.Violate("panic", at, out.String())
			return
		}
		if why := defs.stSound(c, stArrFields); why != "" {
			r.Violate("unsound", at, why+"; "+out.String())
			return
		}
		if out.Kind == "err" {
			if look() != before {
				r.Violate("refused but changed", at, before+" -> "+look())
				return
			}
			if verdict == stYes {
				r.Violate("good write refused", at, out.String()+"; "+before)
				return
			}
		} else if verdict == stNo {
			r.Violate("bad write not refused", at, out.String())
			return
		}
	}
	r.Validated++
	r.State(look())
}

func stArraySpace(name string, n int) *Space {
	size := uint64(1)
	for i := 0; i < n; i++ {
		size *= uint64(len(stArrOps))
	}
	at := func(i uint64) []int {
		ops := make([]int, n)
		for k := n - 1; k >= 0; k-- {
			ops[k] = int(i % uint64(len(stArrOps)))
			i /= uint64(len(stArrOps))
		}
		return ops
	}
	return &Space{Name: name, Size: size, Chunk: 1000,
		Desc: func(i uint64) string {
			var ss []string
			for _, o := range at(i) {
				ss = append(ss, stArrOps[o].src)
			}
			return strings.Join(ss, " ")
		},
		Bound: fmt.Sprintf("all histories of %d of %d steps that store, view, copy and change arrays shared with typed fields", n, len(stArrOps)),
		Run:   func(i uint64, r *Rec) { stArrays(at(i), r) },
	}
}

func init() {
	register(&PropDef{ID: "C17", Assume: []string{
		"nil inside a slice may be accepted or refused",
		"a pointer to a slice is of the type the slice had when the pointer was made",
		"a variable declared with var holds a value of its Go type and may be accepted or refused",
		"structs named hash or field are not explored",
		"whether defmap of a declared name ends the declaration is not checked",
	}, Spaces: func(tier string) []*Space {
		var goods []string
		t1, t2 := stTypes(1), stTypes(2)
		for _, t := range t2 {
			goods = append(goods, t.good())
		}
		var out []*Space
		vals := append(append([]string{}, stExtra...), goods...)
		if tier != "thorough" {
			out = append(out, stKeySpace("keys"))
			out = append(out, stWriteSpace("writes", t1, vals, []bool{true}))
			out = append(out, stArraySpace("arrays", 3))
			out = append(out, stHistorySpace("histories3", [][]int{{0}, {1}, {2}, {3}}, 2))
			out = append(out, stHistorySpace("histories", stPrefixes(), 2))
			return out
		}
		out = append(out, stKeySpace("keys"))
		out = append(out, stArraySpace("arrays", 3), stArraySpace("arrays4", 4))
		out = append(out, stHistorySpace("histories4", [][]int{{0}, {1}, {2}, {3}}, 3))
		out = append(out, stHistorySpace("histories", stPrefixes(), 3))
		out = append(out, stWriteSpace("writes", t2, vals, []bool{true, false}))
		return out
	}})
}
