package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C15: templates by exact substitution, macro calls as their hand-written
// expansion.
//
// Templates are trees over lists, arrays, pairs and leaves; the oracle below
// substitutes in the tree, knowing for every leaf what it stands for, and never
// looks at how the template was compiled.

// tv is a value: an atom (its dump), a list with a tail, or an array.
type tv struct {
	k    byte // 'a' atom, 'l' list, 'v' array
	s    string
	l    []*tv
	tail *tv
}

func tAtom(s string) *tv    { return &tv{k: 'a', s: s} }
func tList(l ...*tv) *tv    { return &tv{k: 'l', l: l} }
func tVec(l ...*tv) *tv     { return &tv{k: 'v', l: l} }
func tCons(a, d *tv) *tv {
	if d.k == 'l' {
		return &tv{k: 'l', l: append([]*tv{a}, d.l...), tail: d.tail}
	}
	return &tv{k: 'l', l: []*tv{a}, tail: d}
}

func (t *tv) dump(b *strings.Builder) {
	switch t.k {
	case 'a':
		b.WriteString(t.s)
		return
	case 'l':
		if len(t.l) == 0 {
			b.WriteString("nil")
			return
		}
		b.WriteByte('(')
	case 'v':
		b.WriteByte('[')
	}
	for i, e := range t.l {
		if i > 0 {
			b.WriteByte(' ')
		}
		e.dump(b)
	}
	if t.tail != nil {
		b.WriteString(" . ")
		t.tail.dump(b)
	}
	if t.k == 'l' {
		b.WriteByte(')')
	} else {
		b.WriteByte(']')
	}
}
func (t *tv) String() string {
	var b strings.Builder
	t.dump(&b)
	return b.String()
}

// tleaf is a leaf of a template: what it is written as and what it stands for.
type tleaf struct {
	text   string
	is     []*tv  // values it is replaced by
	splice bool   // may be any number of values
	trace  string // effect of evaluating it
	fails  bool   // evaluating it is an error
}

const c15Setup = `(def b 7) (def s %q) (def l0 (list)) (def l1 (list 8)) (def l2 (list 8 9)) (def ln %((1 ()) [2])) (def n0 nil) (def v0 []) (def v2 [5 [6]])
(def st "z") (def u %(unquote b)) (def us (list usym %b)) (def pr %(1 \ 2)) (def fl 1.5) (def tr true) (def ch 'c') (def h2 (hash k: 1)) (defn g [x] (list x x))
`

var c15Leaves = func() []*tleaf {
	one := func(s string) []*tv { return []*tv{tAtom(s)} }
	i := tAtom
	l2 := []*tv{i("8"), i("9")}
	L := []*tleaf{
		// the first few are those of the deepest trees
		{text: "x", is: one("'x")},
		{text: "~b", is: one("7")},
		{text: "~@l2", is: l2, splice: true},
		{text: "~@l0", is: nil, splice: true},
		{text: "~(t b)", is: one("7"), trace: "7"},
		{text: "~l2", is: []*tv{tList(l2...)}},
		{text: "()", is: one("nil")},
		// literal
		{text: "b", is: one("'b")}, {text: "12", is: one("12")}, {text: `"s"`, is: one(`"s"`)}, {text: "'c'", is: one("c:99")}, {text: "2.5", is: one("f:2.5")}, {text: "true", is: one("true")},
		{text: "nil", is: one("nil")}, {text: "[]", is: []*tv{tVec()}}, {text: "%q", is: []*tv{tList(i("'quote"), i("'q"))}}, {text: "(a.b 1)", is: []*tv{tList(i("'a.b"), i("1"))}}, {text: "+", is: one("'+")}, {text: "&", is: one("'&")},
		{text: "{~b + x}", is: []*tv{tList(i("'infix"), tVec(i("7"), i("'+"), i("'x")))}},
		{text: "(begin (def z ~b))", is: []*tv{tList(i("'begin"), tList(i("'def"), i("'z"), i("7")))}},
		{text: "(unquote b)", is: one("7")}, {text: "(unquote b x)", is: []*tv{tList(i("'unquote"), i("'b"), i("'x"))}}, {text: "(unquote)", is: []*tv{tList(i("'unquote"))}},
		{text: "^(b ~b)", is: []*tv{tList(i("'syntaxQuote"), tList(i("'b"), i("7")))}},
		// unquoted
		{text: "~s", is: one("'q")}, {text: "~l0", is: one("nil")}, {text: "~n0", is: one("nil")}, {text: "~v0", is: []*tv{tVec()}}, {text: "~v2", is: []*tv{tVec(i("5"), tVec(i("6")))}}, {text: "~st", is: one(`"z"`)},
		{text: "~u", is: []*tv{tList(i("'unquote"), i("'b"))}}, {text: "~us", is: []*tv{tList(i("'unquote-splicing"), i("'b"))}}, {text: "~pr", is: []*tv{{k: 'l', l: []*tv{i("1")}, tail: i("2")}}}, {text: "~fl", is: one("f:1.5")}, {text: "~tr", is: one("true")}, {text: "~ch", is: one("c:99")},
		{text: "~h2", is: one("{hash 'k:1}")}, {text: "~5", is: one("5")}, {text: `~"w"`, is: one(`"w"`)}, {text: "~[b 1]", is: []*tv{tVec(i("7"), i("1"))}}, {text: "~()", is: one("nil")},
		{text: "~(+ b 1)", is: one("8")}, {text: "~(g (t 4))", is: []*tv{tList(i("4"), i("4"))}, trace: "4"}, {text: "~{b + 1}", is: one("8")}, {text: "~(cond (t true) (t 3) 4)", is: one("3"), trace: "true 3"}, {text: "~(begin (t 1) (t 2))", is: one("2"), trace: "1 2"},
		{text: "~(let [b 1 w 2] (+ b w))", is: one("3")}, {text: "~((fn [b] (* b b)) 5)", is: one("25")}, {text: "~(for [(def i 0) (< i 2) (set i (+ i 1))] (t i) (cond (== i 1) (break) 0))", is: one("nil"), trace: "0 1"},
		{text: "~(map g [1])", is: []*tv{tVec(tList(i("1"), i("1")))}}, {text: "~^(c ~b ~@l1)", is: []*tv{tList(i("'c"), i("7"), i("8"))}}, {text: "~%(~b)", is: []*tv{tList(tList(i("'unquote"), i("'b")))}}, {text: "~(newScope (def b 2) b)", is: one("2")}, {text: "~(and b (t 0))", is: one("0"), trace: "0"},
		// spliced
		{text: "~@l1", is: one("8"), splice: true}, {text: "~@ln", is: []*tv{tList(i("1"), i("nil")), tVec(i("2"))}, splice: true}, {text: "~@(list b (t 5))", is: []*tv{i("7"), i("5")}, splice: true, trace: "5"}, {text: "~@(rest l2)", is: one("9"), splice: true}, {text: "~@(list)", splice: true}, {text: "~@u", is: []*tv{i("'unquote"), i("'b")}, splice: true},
		{text: "~@^(~b ~@l2)", is: append(one("7"), l2...), splice: true}, {text: "~@(cond false 1 l2)", is: l2, splice: true}, {text: "~@n0", splice: true}, {text: "~@()", splice: true},
		// errors
		{text: "~nosuch", fails: true}, {text: "~(t nosuch)", fails: true}, {text: "~(begin (t 6) (boom))", fails: true, trace: "6"},
		{text: "~@b", fails: true, splice: true}, {text: "~@v2", fails: true, splice: true}, {text: "~@st", fails: true, splice: true}, {text: "~@pr", fails: true, splice: true}, {text: "~@nosuch", fails: true, splice: true}, {text: "~@h2", fails: true, splice: true},
	}
	return L
}()

var c15ByText = func() map[string]*tleaf {
	m := map[string]*tleaf{}
	for _, l := range c15Leaves {
		m[l.text] = l
	}
	return m
}()

// c15Gram: T is a template, of which I may be a splice when it stands inside a
// list or array.  Pairs are lists whose head is the marker `pair!`.
func c15Gram(leaves []*tleaf) *Grammar {
	g := NewGrammar()
	for _, l := range leaves {
		if !l.splice {
			g.Term("T", 1, Raw(l.text))
		}
		g.Term("I", 1, Raw(l.text))
	}
	for _, nt := range []string{"T", "I"} {
		for n := 1; n <= 4; n++ {
			kids := []string{}
			for k := 0; k < n; k++ {
				kids = append(kids, "I")
			}
			g.Add(nt, 1, kids, func(k []*N) *N { return Li(append([]*N{}, k...)...) })
			g.Add(nt, 1, kids, func(k []*N) *N { return Ar(append([]*N{}, k...)...) })
		}
		g.Add(nt, 1, []string{"I", "T"}, func(k []*N) *N { return Call("pair!", k...) })
		g.Add(nt, 1, []string{"I", "I", "T"}, func(k []*N) *N { return Call("pair!", k...) })
		g.Add(nt, 1, []string{"I"}, func(k []*N) *N { return Call("hash!", k...) })
	}
	return g
}

func c15Text(n *N) string {
	switch n.K {
	case NRaw:
		return n.S
	case NArr, NList:
		l := n.L
		op, cl, pre := "(", ")", ""
		if n.K == NArr {
			op, cl = "[", "]"
		}
		var p []string
		dot := -1
		if len(l) > 0 && l[0].K == NSym {
			switch l[0].S {
			case "pair!":
				l, dot = l[1:], len(l)-2
			case "hash!":
				l, pre = l[1:], "hash k: "
			}
		}
		for i, e := range l {
			if i == dot {
				p = append(p, `\`)
			}
			p = append(p, c15Text(e))
		}
		return op + pre + strings.Join(p, " ") + cl
	}
	return "?"
}

// c15Subst is the oracle.  It returns the values n is replaced by; trace gets
// the effects in order; the second result is false when an unquoted expression
// fails.
func c15Subst(n *N, trace *[]string) ([]*tv, bool) {
	if n.K == NRaw {
		lf := c15ByText[n.S]
		if lf.trace != "" {
			*trace = append(*trace, lf.trace)
		}
		return lf.is, !lf.fails
	}
	l := n.L
	kind := byte('l')
	if n.K == NArr {
		kind = 'v'
	}
	var out []*tv
	var tailN *N
	if len(l) > 0 && l[0].K == NSym {
		switch l[0].S {
		case "pair!":
			tailN = l[len(l)-1]
			l = l[1 : len(l)-1]
		case "hash!":
			l = l[1:]
			out = append(out, tAtom("'hash"), tAtom("'k"))
		}
	}
	for _, e := range l {
		v, ok := c15Subst(e, trace)
		if !ok {
			return nil, false
		}
		out = append(out, v...)
	}
	if tailN != nil {
		v, ok := c15Subst(tailN, trace)
		if !ok {
			return nil, false
		}
		t := v[0]
		if t.k == 'a' && t.s == "nil" {
			t = tList()
		}
		for i := len(out) - 1; i >= 0; i-- {
			t = tCons(out[i], t)
		}
		return []*tv{t}, true
	}
	return []*tv{{k: kind, l: out}}, true
}

// c15Routes: the places a template $1 is evaluated in; want turns the dump of
// the template's value into the dump of the program's value.
var c15Routes = []struct {
	name, src string
	want      func(v string) string
	twice     bool // the template is evaluated twice
	hash      bool // the template is data
}{
	{name: "top", src: "^$1", want: func(v string) string { return v }},
	{name: "argument", src: "[0 ^$1 1]", want: func(v string) string { return "[0 " + v + " 1]" }},
	{name: "local", src: "(let [q 3 r 4] (list q ^$1 r))", want: func(v string) string { return "(3 " + v + " 4)" }},
	{name: "function", src: "(defn tf [q] ^$1) (list (tf 1) 5)", want: func(v string) string { return "(" + v + " 5)" }},
	{name: "tail", src: "(defn tg [q] (cond (== q 0) ^$1 (let [z q] (tg (- z 1))))) (tg 2)", want: func(v string) string { return v }},
	{name: "closure", src: "((fn [b l0 l1 l2] (let [f (fn [] ^$1)] (f))) b l0 l1 l2)", want: func(v string) string { return v }},
	{name: "loop", src: "(def acc nil) (for [(def i9 0) (< i9 2) (def i9 (+ i9 1))] (set acc ^$1)) acc", want: func(v string) string { return v }, twice: true},
	{name: "nested", src: "^(p ~^$1 [~^$1])", want: func(v string) string { return "('p " + v + " [" + v + "])" }, twice: true},
	{name: "eval", src: "(eval (list (quote syntaxQuote) (quote $1)))", want: func(v string) string { return v }},
	{name: "cond", src: "(cond (begin ^$1 true) (and 1 ^$1) 0)", want: func(v string) string { return v }, twice: true},
	{name: "macro", src: "(defmac mq [] (list (quote quote) ^$1)) (list 1 (mq) 2)", want: func(v string) string { return "(1 " + v + " 2)" }},
	{name: "hash", src: "(eval (list (quote syntaxQuote) (hash k: 1 m: (quote $1) 3: (quote [$1]))))", hash: true, twice: true},
}

func c15Check(t *N, r *Rec, routes []string, input string) {
	text := c15Text(t)
	var trace []string
	vals, ok := c15Subst(t, &trace)
	want := "err"
	if ok {
		want = vals[0].String()
	}
	r.State(want)
	env := NewCore()
	tr := &Tracer{}
	tr.Install(env)
	env.ImportEval()
	env.AddBuilder(":", zygo.ColonAccessBuilder)
	env.AddGlobal("usym", env.MakeSymbol("unquote-splicing"))
	if o := Eval(env, c15Setup); o.Kind != "val" {
		r.Violate("setup fails", c15Setup, o.String())
		return
	}
	for _, rt := range c15Routes {
		if rt.want == nil && !rt.hash {
			continue
		}
		if routes != nil && !contains(routes, rt.name) {
			continue
		}
		src := strings.ReplaceAll(rt.src, "$1", text)
		tr.Log = nil
		o := EvalB(env, src+"\n", 50000)
		exp := "err"
		if ok {
			if rt.hash {
				exp = "{hash 'k:1 'm:" + want + " 3:[" + want + "]}"
			} else {
				exp = rt.want(want)
			}
			exp = "val:" + exp
		}
		r.Validated++
		if o.Class() != exp {
			r.Violate("template value ("+rt.name+")", input, src+"\n is  "+o.String()+"\nnot "+exp)
			return
		}
		wt := strings.Join(trace, " ")
		if ok && rt.twice && wt != "" {
			wt += " " + wt
		}
		if tr.String() != wt {
			r.Violate("template effects ("+rt.name+")", input, src+"\n has effects "+tr.String()+"\nnot "+wt)
			return
		}
		if o.Kind == "val" {
			if d := depthsOf(env); d != restDepths {
				r.Violate("template leaves the stacks ("+rt.name+")", input, src+"\n"+d)
				return
			}
		}
	}
	if !ok {
		return
	}
	// every evaluation is a fresh copy: writing into one changes no later one
	tr.Log = nil
	f := Eval(env, "(defn fresh [] ^"+text+") (fresh)\n")
	if f.Kind != "val" {
		return
	}
	c15Scribble(f.V, 0)
	if o := Eval(env, c15Setup); o.Kind != "val" {
		r.Violate("setup fails", c15Setup, o.String())
		return
	}
	o := Eval(env, "(fresh)\n")
	if o.Class() != "val:"+want {
		r.Violate("template changed by writing into its value", input, "(defn fresh [] ^"+text+") after writing into (fresh):\n is  "+o.String()+"\nnot "+want)
	}
}

func c15Scribble(v zygo.Sexp, depth int) {
	if depth > 20 {
		return
	}
	switch x := v.(type) {
	case *zygo.SexpPair:
		c15Scribble(x.Head, depth+1)
		c15Scribble(x.Tail, depth+1)
	case *zygo.SexpArray:
		for i, e := range x.Val {
			c15Scribble(e, depth+1)
			x.Val[i] = zygo.SexpNull
		}
		x.Val = append(x.Val, zygo.SexpNull)
	case *zygo.SexpHash:
		x.HashSet(&zygo.SexpStr{S: "scribble"}, &zygo.SexpInt{Val: 668})
	}
}

// firstDiff cuts two texts down to the words around their first difference.
func firstDiff(a, b string) (string, string) {
	x, y := strings.Fields(a), strings.Fields(b)
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			lo := max(0, i-2)
			return strings.Join(x[lo:min(len(x), i+3)], " "), strings.Join(y[min(lo, len(y)):min(len(y), i+3)], " ")
		}
	}
	return "the same", "the same (or more)"
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func c15Templates(name string, leaves []*tleaf, max int, min int, routes []string) *Space {
	g := c15Gram(leaves)
	var skip uint64
	if min > 1 {
		skip = g.UpTo("T", min-1)
	}
	return &Space{Name: name, Size: g.UpTo("T", max) - skip,
		Bound: fmt.Sprintf("every template of %d to %d nodes over lists, arrays, pairs, hash forms and %d leaves, in %d places", min, max, len(leaves), len(c15Routes)),
		Run: func(i uint64, r *Rec) {
			t := g.NthUpTo("T", max, i+skip)
			s := c15Text(t)
			c15Check(t, r, routes, s)
			if i%7919 == 11 {
				r.Sample(s)
			}
		},
		Desc: func(i uint64) string { return c15Text(g.NthUpTo("T", max, i+skip)) },
	}
}

// splices where there is nothing to splice into: an error, and a clean one
var c15Top = []string{"^~@l2", "^~@l0", "^~@l1", "[1 ^~@l0 2]", "[1 ^~@l2 2]", "(list 1 ^~@l2)", "(begin ^~@l2 5)", "((fn [] ^~@l2))", "((fn [] ^~@l0 5))", "(defn top [] ^~@l0)", "(for [(def i 0) (< i 2) (set i (+ i 1))] ^~@l0)", "(let [w ^~@l2] w)", "(def w ^~@l0)", "(cond ^~@l1 1 2)", "(syntaxQuote)", "(syntaxQuote a b)", "(eval (list (quote syntaxQuote) (quote ~@l0)))", "^(a ~^~@l0)", "(unquote b)", "~b", "[~b]", "(list ~@l2)"}

// splices as keys and values of a hash in a template
var c15Hash = [][2]string{
	{"(hash a: %~@l1 b: 2)", "{hash 'a:8 'b:2}"}, {"(hash b: 2 a: %~@l1)", "{hash 'b:2 'a:8}"}, {"(hash a: %~@(list 8 9 10) b: 2)", "{hash 'a:8 9:10 'b:2}"}, {"(hash a: 1 b: %~@(list 8 9 10 11 12))", "{hash 'a:1 'b:8 9:10 11:12}"},
	{"(hash a: %~(t 1) b: %~(t 2) c: %~@(list (t 3)))", "{hash 'a:1 'b:2 'c:3}"}, {"(hash a: %[~@l2 1] b: %(~@l0))", "{hash 'a:[8 9 1] 'b:nil}"}, {"(hash)", "{hash}"}, {"(hash \"s\": %~b 1: %~l2 'c': %~v2)", "{hash \"s\":7 1:(8 9) c:99:[5 [6]]}"},
	{"(hash a: (hash b: %~b c: (hash d: %[~@l2])))", "{hash 'a:{hash 'b:7 'c:{hash 'd:[8 9]}}}"}, {"[(hash a: %~b) 1]", "[{hash 'a:7} 1]"}, {"(list (hash a: %~b) %~@l2)", "({hash 'a:7} 8 9)"}, {"(list 1 (hash z: 1 y: %~b x: 3))", "(1 {hash 'z:1 'y:7 'x:3})"},
}

func c15HashSpace() *Space {
	return &Space{Name: "hash-templates", Size: uint64(len(c15Hash)), Bound: "every listed template that is or holds a hash, with its expected value",
		Run: func(i uint64, r *Rec) {
			env := NewCore()
			tr := &Tracer{}
			tr.Install(env)
			env.ImportEval()
			env.AddBuilder(":", zygo.ColonAccessBuilder)
			env.AddGlobal("usym", env.MakeSymbol("unquote-splicing"))
			Eval(env, c15Setup)
			src := "(eval (list (quote syntaxQuote) " + c15Hash[i][0] + "))\n"
			for k := 0; k < 2; k++ {
				o := Eval(env, src)
				r.Validated++
				r.State(o.Class())
				if o.String() != "val:"+c15Hash[i][1] || depthsOf(env) != restDepths {
					r.Violate("hash template", c15Hash[i][0], o.String()+" "+depthsOf(env)+"\nnot "+c15Hash[i][1])
					return
				}
			}
			if strings.Contains(src, "(t 1)") && tr.String() != "1 2 3 1 2 3" {
				r.Violate("hash template effects", c15Hash[i][0], tr.String())
			}
		},
		Desc: func(i uint64) string { return c15Hash[i][0] },
	}
}

func c15TopSpace() *Space {
	return &Space{Name: "misplaced", Size: uint64(len(c15Top)), Bound: "every listed splice or unquote that has no template around it",
		Run: func(i uint64, r *Rec) {
			env := NewCore()
			(&Tracer{}).Install(env)
			env.ImportEval()
	env.AddBuilder(":", zygo.ColonAccessBuilder)
	env.AddGlobal("usym", env.MakeSymbol("unquote-splicing"))
			if o := Eval(env, c15Setup); o.Kind != "val" {
				r.Violate("setup fails", c15Setup, o.String())
				return
			}
			o := Eval(env, c15Top[i]+"\n")
			r.Validated++
			r.State(o.Class())
			if o.Kind != "err" {
				r.Violate("misplaced splice or unquote is no error", c15Top[i], o.String())
				return
			}
			if o := Eval(env, "[1 ^(x ~@l2) b]\n"); o.String() != "val:[1 ('x 8 9) 7]" || depthsOf(env) != restDepths {
				r.Violate("misplaced splice leaves its mark", c15Top[i], "then [1 ^(x ~@l2) b] is "+o.String()+" "+depthsOf(env))
			}
		},
		Desc: func(i uint64) string { return c15Top[i] },
	}
}

// Macros: $e is the (text of the) argument, $* the texts of all arguments.
// The expansion is what one would write by hand.
type c15Macro struct {
	def, call, hand string
	multi           bool // takes two copies of the form
}

var c15Macros = []c15Macro{
	{def: "(defmac q0 [e] e)", call: "(q0 $1)", hand: "$1"},
	{def: "(defmac q1 [e] ^(begin (t 1) ~e))", call: "(q1 $1)", hand: "(begin (t 1) $1)"},
	{def: "(defmac q2 [e] ^(list ~e ~e))", call: "(q2 $1)", hand: "(list $1 $1)"},
	{def: "(defmac q3 [p & e] ^(cond ~p (begin ~@e) ()))", call: "(q3 (t true) $1 (t 9))", hand: "(cond (t true) (begin $1 (t 9)) ())"},
	{def: "(defmac q4 [e] ^(let [w9 ~e] (t w9)))", call: "(q4 $1)", hand: "(let [w9 $1] (t w9))"},
	{def: "(defmac q5 [e] ^(def zz9 ~e))", call: "(begin (q5 $1) zz9)", hand: "(begin (def zz9 $1) zz9)"},
	{def: "(defmac q6 [e] ^(for [(def i8 0) (< i8 2) (set i8 (+ i8 1))] ~e))", call: "(q6 $1)", hand: "(for [(def i8 0) (< i8 2) (set i8 (+ i8 1))] $1)"},
	{def: "(defmac q7 [& e] ^[~@e 0])", call: "(q7 $1 (t 2))", hand: "[$1 (t 2) 0]"},
	{def: "(defmac q8 [e] ^(q1 (q0 ~e)))", call: "(q8 $1)", hand: "(begin (t 1) $1)"},
	{def: "(defmac q9 [n e] ^(defn ~n [x] ~e))", call: "(begin (q9 fq9 $1) (fq9 3))", hand: "(begin (defn fq9 [x] $1) (fq9 3))"},
	{def: "(defmac qa [e] (cons (quote begin) (list (list (quote t) 5) e)))", call: "(qa $1)", hand: "(begin (t 5) $1)"},
	{def: "(defmac qb [e] ^(fn [w9] ~e))", call: "((qb $1) 4)", hand: "((fn [w9] $1) 4)"},
	{def: "(defmac qc [e] ^(quote ~e))", call: "(qc $1)", hand: "(quote $1)"},
	{def: "(defmac qd [e] ^(and (t 1) ~e))", call: "(qd $1)", hand: "(and (t 1) $1)"},
	{def: "(defmac qe [e] (let [r ^(begin ~e)] (for [(def i7 0) (< i7 2) (set i7 (+ i7 1))] (set r ^(begin ~r))) r))", call: "(qe $1)", hand: "(begin (begin (begin $1)))"},
	{def: "(defmac qf [e] ^(newScope ~e))", call: "(qf $1)", hand: "(newScope $1)"},
	{def: "(defmac qg [n e] ^(defmac ~n [] (quote ~e)))", call: "(begin (qg nq9 $1) (nq9))", hand: "(begin (defmac nq9 [] (quote $1)) (nq9))"},
	{def: "(defmac qh [e] ^(hash k: ~e))", call: "(qh $1)", hand: "(hash k: $1)"},
	{def: "(defmac qi [e] ^(return ~e))", call: "(begin (qi $1) (t 3))", hand: "(begin (return $1) (t 3))"},
	{def: "(defmac qj [e] ^(set x ~e))", call: "(qj $1)", hand: "(set x $1)"},
	{def: "(defmac qk [a1 e] ^(f1 ~e))", call: "(qk (boom) $1)", hand: "(f1 $1)"},
	{def: "(defmac ql [e] ^((fn [x y] ~e) 5 6))", call: "(ql $1)", hand: "((fn [x y] $1) 5 6)"},
}

// places a macro call stands in: those of the catalogue that change what the
// form can see or how it is left, first
var c15Places = []int{}

var c15Probe = []string{"x", "y", "a", "l", "(str h)", "z", "zz9", "w9", "i8", "e", "fq9"}

// c15Macro compares a macro call with its hand-written expansion in one place.
func c15MacroCheck(m c15Macro, form, place string, r *Rec, input string) {
	run := func(call string) (Out, string, string) {
		env := NewStd()
		tr := &Tracer{}
		tr.Install(env)
		if o := Eval(env, catSetup); o.Kind != "val" {
			return o, "", "setup"
		}
		for _, d := range append(append([]c15Macro{}, c15Macros[:4]...), m) {
			if env.HasMacro(env.MakeSymbol(strings.Fields(d.def)[1])) {
				continue
			}
			if o := Eval(env, d.def+"\n"); o.Kind != "val" {
				return o, "", "macros"
			}
		}
		o := EvalB(env, fillText(place, fillText(call, form))+"\n", 20000)
		probe := ""
		if o.Kind == "val" || o.Kind == "err" {
			for _, p := range c15Probe {
				probe += p + "=" + Eval(env, p+"\n").Class() + " "
			}
			if o.Kind == "val" {
				probe += " " + depthsOf(env)
			}
			g := env.VerifGlobals()
			sort.Strings(g)
			probe += " globals " + strings.Join(g, " ")
		}
		return o, tr.String(), probe
	}
	a, at, ap := run(m.call)
	b, bt, bp := run(m.hand)
	if a.Kind == "panic" || b.Kind == "panic" || a.Kind == "steps" || b.Kind == "steps" {
		r.Count("skipped_"+a.Kind+"_"+b.Kind, 1)
		return
	}
	if ap == "setup" || ap == "macros" {
		r.Violate("setup fails", input, a.String())
		return
	}
	r.Validated++
	r.State(b.Class())
	if a.Class() != b.Class() || at != bt || ap != bp {
		ap, bp = firstDiff(ap, bp)
		r.Violate("macro call is not its expansion", input, fmt.Sprintf("%s\n%s\n is  %s effects %s then %s\n%s\n is  %s effects %s then %s", m.def, fillText(place, fillText(m.call, form)), a, at, ap, fillText(place, fillText(m.hand, form)), b, bt, bp))
	}
}

// Macros whose bodies do more than building a form: what they leave behind
// in the interpreter must be nothing.  All expand to (+ x 10), or fail.
var c15Busy = func() []c15Macro {
	var out []c15Macro
	n := 0
	add := func(fails bool, body string) {
		n++
		name := fmt.Sprintf("wm%d", n)
		hand := "(+ x 10)"
		if fails {
			hand = "(let)"
		}
		out = append(out, c15Macro{def: "(defmac " + name + " [] " + strings.ReplaceAll(body, "$F", "(quote (+ x 10))") + ")", call: "(" + name + ")", hand: hand})
	}
	add(false, "$F")
	add(false, "^(+ x ~(* 2 5))")
	add(false, "(def tmp9 3) $F")
	add(false, "(def z 3) (let [w9 4] (set z w9)) $F")
	add(false, "(defn hlp9 [q] (cond (== q 0) $F (hlp9 (- q 1)))) (hlp9 30)")
	add(false, "(let [q (fn [r] (list (quote +) (quote x) r))] (q 10))")
	add(false, "((fn [c] (cons c (list (quote x) 10))) (quote +))")
	add(false, "(cons (quote +) (map (fn [c] c) (quote (x 10))))")
	add(false, "(for [(def i7 0) true (set i7 (+ i7 1))] (cond (> i7 3) (break) (continue))) $F")
	add(false, "(for lp: [(def i7 0) (< i7 2) (set i7 (+ i7 1))] (for [(def j7 0) (< j7 3) (set j7 (+ j7 1))] (let [u7 1] (continue lp:)))) $F")
	add(false, "(newScope (def x 77) (let [y 3] $F))")
	add(false, "(return $F)")
	add(false, "(let [g9 (gensym)] ^((fn [~g9] (+ x ~g9)) 10))")
	add(false, "(eval (quote (+ 1 2))) $F")
	add(false, "(expectError \"symbol `nosuch` not found\" nosuch) $F")
	add(false, "(macexpand (m1 3)) $F")
	add(false, "(q0 1) (q3 true 2 3) $F")
	add(false, "^(q0 ~(q0 $F))")
	add(false, "(quote (q0 (+ x 10)))")
	add(false, "(str2sym \"brandnew9\") ^(begin (quote ~(str2sym \"brandnew8\")) (+ x 10))")
	add(false, "(read \"(a b brandnew7)\") $F")
	add(false, "{ q := 5; r := q + 5; ^(+ x ~r) }")
	add(false, "(def r nil) (range k v [1 2 3] (set r v)) ^(+ x ~(+ r 7))")
	add(false, "(apply (fn [p q] ^(~p x ~q)) (list (quote +) 10))")
	add(false, "(first (list ^(+ ~@(list (quote x) 10))))")
	add(false, "(let [h9 (hash k: 10)] (hset h9 %k 10) ^(+ x ~(hget h9 %k)))")
	add(false, "(defmac w9m [] 5) $F")
	add(true, "(boom)")
	add(true, "(let [q 1] (newScope (boom)))")
	add(true, "(for [(def i7 0) (< i7 2) (set i7 (+ i7 1))] (let [q 1] (boom)))")
	add(true, "(map (fn [c] (boom)) [1 2])")
	add(true, "(defn hlp8 [q] (cond (== q 0) (boom) (+ 1 (hlp8 (- q 1))))) (hlp8 20)")
	add(true, "^(1 ~(boom))")
	add(true, "^(1 2 ~@3)")
	add(true, "(quote (let))")
	add(true, "(quote (begin (let [q 1] (for [a b] 1))))")
	add(true, "(quote (fn [x] (let [q 1] (cond 1 2))))")
	add(true, "(w9999 nosuch)")
	return out
}()

var c15Twice = []string{"$1", "(begin $1 $1)", "[$1 $1]", "(begin (defn tw [] $1) (tw) (tw))", "(begin (defn tw [x] (+ $1 $1)) (list (tw 1) (tw 2)))", "(let [x 5] (let [x 6] $1))", "(for [(def i9 0) (< i9 3) (set i9 (+ i9 1))] (t $1))", "(for o: [(def i9 0) (< i9 3) (set i9 (+ i9 1))] (for [(def j9 0) (< j9 3) (set j9 (+ j9 1))] (t $1) (continue o:)))",
	"(map (fn [x] $1) [1 2 3])", "((fn [x] (let [f (fn [] $1)] (f))) 4)", "(q1 (q2 $1))", "(q0 (q0 $1))", "(cond (> $1 3) $1 (t $1))", "(package \"ctx\" (def x 3) (def B $1) (defn G [] $1))", "^(a ~$1 ~@(list $1))", "{ v9 := $1; v9 + $1 }", "(hash a: $1 b: $1)", "(apply (fn [x] $1) [8])", "(def q $1) (def q2 (+ q $1))", "(defmac inner [] $1) (inner)", "(defmac inner [] ^(t ~$1)) (inner)"}

// every place inside every place
func c15Twice2() []string {
	var out []string
	all := append(append([]string{}, c15Twice...), catContexts...)
	for _, a := range all {
		for _, b := range all {
			out = append(out, fillText(a, b))
		}
	}
	return out
}

// forms that read as exactly one expression
var c15Forms = func() []string {
	var out []string
	for _, f := range catForms {
		if strings.HasPrefix(f, "//") || strings.HasPrefix(f, "/*") || strings.Contains(f, "gensym") || strings.Contains(f, "//") {
			continue
		}
		out = append(out, f)
	}
	return out
}()

func c15MacroSpace(name string, macros []c15Macro, forms, places []string) *Space {
	dim := func(i uint64) (c15Macro, string, string) {
		d := Radix(i, len(macros), len(forms), len(places))
		return macros[d[0]], forms[d[1]], places[d[2]]
	}
	return &Space{Name: name, Size: uint64(len(macros) * len(forms) * len(places)),
		Bound: fmt.Sprintf("%d macros x %d argument forms x %d places of the call, against the hand-written expansion", len(macros), len(forms), len(places)),
		Run: func(i uint64, r *Rec) {
			m, f, p := dim(i)
			c15MacroCheck(m, f, p, r, fillText(p, fillText(m.call, f)))
			if i%4001 == 17 {
				r.Sample(fillText(p, fillText(m.call, f)))
			}
		},
		Desc: func(i uint64) string { m, f, p := dim(i); return m.def + "  " + fillText(p, fillText(m.call, f)) },
	}
}

func init() {
	register(&PropDef{ID: "C15",
		Assume: []string{"the leaves' own values are stated by hand in c15.go", "nested templates have one level: an inner unquote belongs to the outermost template, as the statement says",
			"macro calls are compared with the hand-written expansion's outcome, effects and final bindings; error texts are not compared"},
		Spaces: func(tier string) []*Space {
			if tier != "thorough" {
				return []*Space{
					c15TopSpace(), c15HashSpace(),
					c15Templates("templates", c15Leaves, 3, 1, nil),
					c15Templates("deep-templates", c15Leaves[:5], 5, 4, []string{"top", "function", "hash", "macro"}),
					c15MacroSpace("macros", c15Macros, c15Forms, []string{"$1", "((fn [w] $1 w) 3)", "[1 $1 2]", "(for [(def i9 0) (< i9 2) (def i9 (+ i9 1))] $1 (cond (== i9 0) (continue) (break)))", "(package \"ctx\" (def A 1) $1 (def B 2))"}),
					c15MacroSpace("busy-macros", c15Busy, []string{""}, append(append([]string{}, c15Twice...), catContexts...)),
					c15MacroSpace("macro-places", c15Macros[:7], []string{"x", "(t x)", "(set x 5)", "(def z 3)", "(return 5)", "(break)", "(boom)"}, catContexts),
				}
			}
			return []*Space{
				c15TopSpace(), c15HashSpace(),
				c15Templates("templates", c15Leaves, 4, 1, nil),
				c15Templates("deep-templates", c15Leaves[:7], 6, 5, nil),
				c15MacroSpace("busy-macros", c15Busy, []string{""}, c15Twice2()),
				c15MacroSpace("macros", c15Macros, c15Forms, append(append([]string{}, catContexts...), c15Twice...)),
			}
		}})
}
