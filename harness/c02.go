package main

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// A coreFam is a bounded family of core-language programs.
type coreFam struct {
	name  string
	g     *Grammar
	nt    string
	max   int
	pre   []*N         // forms before
	post  []*N         // forms after
	wrap  func(n *N) []*N
	bound string
	// tweak: several renderings of one sentence
	vars int
	vary func(f []*N, v int) []*N
	text func(f []*N, v int) string // how the v-th rendering is written
}

func (f *coreFam) size() uint64 {
	n := f.g.UpTo(f.nt, f.max)
	if f.vars > 1 {
		n = smul(n, uint64(f.vars))
	}
	return n
}

// src is the text of the i-th program.
func (f *coreFam) src(i uint64) string {
	p := f.prog(i)
	if f.text != nil {
		return f.text(p, int(i%uint64(f.vars)))
	}
	return Text(p...)
}

func (f *coreFam) prog(i uint64) []*N {
	v := 0
	if f.vars > 1 {
		v = int(i % uint64(f.vars))
		i /= uint64(f.vars)
	}
	n := f.g.NthUpTo(f.nt, f.max, i)
	var forms []*N
	if f.wrap != nil {
		forms = f.wrap(n)
	} else {
		forms = append(append(append([]*N{}, f.pre...), n), f.post...)
	}
	if f.vary != nil {
		forms = f.vary(forms, v)
	}
	return numberAll(forms)
}

// coreRun evaluates forms in the reference and in a fresh interpreter.
type coreRes struct {
	src  string
	ref  *Ref
	ro   ROut
	env  *zygo.Zlisp
	tr   *Tracer
	out  Out
	skip bool
}

func refRun(forms []*N) (*Ref, ROut) {
	m := NewRef()
	o := m.Run(forms)
	return m, o
}

func coreRun(forms []*N, src string, r *Rec) *coreRes {
	c := &coreRes{src: src}
	c.ref, c.ro = refRun(forms)
	if c.ro.Kind == "unsup" || c.ro.Kind == "steps" {
		r.Count("skipped_"+c.ro.Kind, 1)
		c.skip = true
		return c
	}
	c.env = NewCore()
	c.tr = &Tracer{}
	c.tr.Install(c.env)
	c.out = Eval(c.env, c.src)
	r.Trans += uint64(c.ref.Steps)
	r.Validated++
	return c
}

func (c *coreRes) expect() string {
	s := c.ro.Kind
	if s == "val" {
		s += ":" + c.ro.S
	}
	return s + " trace=[" + strings.Join(c.ref.Log, " ") + "]"
}

func (c *coreRes) got() string {
	return c.out.Class() + " trace=[" + c.tr.String() + "]"
}

func (c *coreRes) same() bool { return c.expect() == c.got() }

func (c *coreRes) diffSig() string {
	switch {
	case c.out.Kind == "panic":
		return "panic"
	case c.ro.Kind != c.out.Kind:
		return c.ro.Kind + " expected, " + c.out.Kind + " returned"
	case c.ro.Kind == "val" && c.ro.S != c.out.S:
		return "wrong value"
	}
	return "wrong effects"
}

func (c *coreRes) detail() string {
	d := "program:\n" + c.src + "expected " + c.expect() + "\ngot      " + c.got()
	if c.out.Kind != "val" {
		d += "\n" + c.out.S
	}
	if c.ro.Kind != "val" {
		d += "\nreference error: " + c.ro.S
	}
	return d
}

func famSpace(f *coreFam, run func(forms []*N, src string, r *Rec, i uint64)) *Space {
	b := f.bound
	if b == "" {
		b = "all sentences"
	}
	return &Space{Name: f.name, Size: f.size(), Bound: fmt.Sprintf("%s, up to %d nodes", b, f.max),
		Desc: func(i uint64) string { return f.src(i) },
		Run:  func(i uint64, r *Rec) { run(f.prog(i), f.src(i), r, i) }}
}

// ---------------------------------------------------------------- families

func addLeaves(g *Grammar, nt string) {
	g.T(nt, 1, "(t 1 $)")
	g.T(nt, 1, "(t 0 $)")
	g.T(nt, 1, "x")
}

// control flow: cond, and, or, let, begin, def, set, not
func famControl(max int) *coreFam {
	g := NewGrammar()
	addLeaves(g, "E")
	g.T("E", 1, "(t nil $)")
	g.T("E", 1, "(t false $)")
	for _, k := range []string{"and", "or"} {
		g.T("E", 1, "("+k+" $1)", "E")
		g.T("E", 1, "("+k+" $1 $2)", "E", "E")
		g.T("E", 1, "("+k+" $1 $2 $3)", "E", "E", "E")
	}
	g.T("E", 1, "(cond $1)", "E")
	g.T("E", 1, "(cond $1 $2 $3)", "E", "E", "E")
	g.T("E", 1, "(cond $1 $2 $3 $4 $5)", "E", "E", "E", "E", "E")
	g.T("E", 1, "(not $1)", "E")
	g.T("E", 1, "(begin $1 $2)", "E", "E")
	g.T("E", 1, "(def x $1)", "E")
	g.T("E", 1, "(set x $1)", "E")
	return &coreFam{name: "control", g: g, nt: "E", max: max, pre: parseForms("(def x 5)"),
		post:  nil,
		bound: "and/or/cond/not/begin/def/set over traced operands"}
}

func famBlocks(max int) *coreFam {
	g := NewGrammar()
	g.T("E", 1, "(t 1 $)")
	g.T("E", 1, "(t 0 $)")
	g.T("E", 1, "x")
	g.T("E", 1, "y")
	for _, k := range []string{"let", "letseq"} {
		g.T("E", 1, "("+k+" [x $1] $2)", "E", "E")
		g.T("E", 1, "("+k+" [x $1 y $2] $3)", "E", "E", "E")
		g.T("E", 1, "("+k+" [x $1] $2 $3)", "E", "E", "E")
	}
	g.T("E", 1, "(let [] $1)", "E")
	g.T("E", 1, "(newScope $1 $2)", "E", "E")
	g.T("E", 1, "(begin $1 $2)", "E", "E")
	g.T("E", 1, "(begin)")
	g.T("E", 1, "(def y $1)", "E")
	g.T("E", 1, "(set x $1)", "E")
	g.T("E", 1, "(+ $1 $2)", "E", "E")
	g.T("E", 1, "(- $1 $2 $3)", "E", "E", "E")
	g.T("E", 1, "(list $1 $2)", "E", "E")
	g.T("E", 1, "[$1 $2]", "E", "E")
	g.T("E", 1, "(mdef x y (list $1 $2))", "E", "E")
	g.T("E", 1, "(assert $1)", "E")
	return &coreFam{name: "blocks", g: g, nt: "E", max: max, wrap: func(n *N) []*N {
		return append(parseForms("(def x 5) (def y 7)"), Call("list", n, Sy("x"), Sy("y")))
	}, bound: "let/letseq/newScope/begin/def/set/mdef/arithmetic/list/array over traced operands"}
}

// loops with break and continue at every nesting
func famLoops(max int) *coreFam {
	g := NewGrammar()
	vars := []string{"i", "j", "k"}
	for d := 0; d < 2; d++ {
		v := vars[d]
		nt := "B" + v
		loop := func(lab string) string {
			return fmt.Sprintf("(for %s [(def %s 0) (< %s 3) (def %s (+ %s 1))] $1)", lab, v, v, v, v)
		}
		loop2 := strings.Replace(loop(""), "$1", "$1 $2", 1)
		up := "P"
		if d > 0 {
			up = "B" + vars[d-1]
		}
		g.T(up, 1, loop(v+"lab:"), nt)
		g.T(up, 1, loop2, nt, nt)
		if d == 0 {
			g.T(up, 2, fmt.Sprintf("(for [(def i 0) (begin (t 5 $) (< i 3)) (begin (t 6 $) (set i (+ i 1)))] $1)"), nt)
			g.T(up, 2, fmt.Sprintf("(for [(let [q (t 4 $)] (def i q)) (let [] (def i 0) (< s 3)) (set s (+ s 1))] $1)"), "Bs")
		}
		g.T(nt, 1, "(t "+v+" $)")
		g.T(nt, 1, "(break)")
		g.T(nt, 1, "(continue)")
		g.T(nt, 1, "(break "+v+"lab:)")
		g.T(nt, 1, "(continue "+v+"lab:)")
		if d > 0 {
			g.T(nt, 1, "(break ilab:)")
			g.T(nt, 1, "(continue ilab:)")
		}
		g.T(nt, 1, "(set s (+ s "+v+"))")
		g.T(nt, 1, "(cond (== "+v+" 1) $1 $2)", nt, nt)
		g.T(nt, 1, "(cond (t (== "+v+" 0) $) $1 (== "+v+" 1) $2 $3)", nt, nt, nt)
		g.T(nt, 1, "(cond $1 $2 $3)", nt, nt, nt)
		g.T(nt, 1, "(begin $1 $2)", nt, nt)
		g.T(nt, 1, "(let [z $1] $2)", nt, nt)
		g.T(nt, 1, "(letseq [z "+v+" y $1] $2)", nt, nt)
		g.T(nt, 1, "(newScope $1 $2)", nt, nt)
		g.T(nt, 1, "(and (< "+v+" 2) $1)", nt)
		g.T(nt, 1, "(and $1 $2)", nt, nt)
		g.T(nt, 1, "(or (< 0 "+v+") $1)", nt)
		g.T(nt, 1, "(def q $1)", nt)
		g.T(nt, 1, "[1 $1]", nt)
	}
	// a small body nonterminal for the odd loop
	g.T("Bs", 1, "(t s $)")
	g.T("Bs", 1, "(break)")
	g.T("Bs", 1, "(continue)")
	g.T("Bs", 1, "(cond (== s 1) $1 $2)", "Bs", "Bs")
	g.T("Bs", 1, "(let [z s] $1 $2)", "Bs", "Bs")
	wraps := []string{"($)", "(t 9 $)", "(let [w 3] $)", "(fn)", "(t $)"}
	_ = wraps
	return &coreFam{name: "loops", g: g, nt: "P", max: max, vars: 3, wrap: func(n *N) []*N {
		return []*N{Call("def", Sy("s"), I(0)), n, Sy("s")}
	}, vary: func(f []*N, v int) []*N {
		body := f[1]
		switch v {
		case 1: // as the body of a function, value used
			f = []*N{f[0], Li(Sy("defn"), Sy("f"), Ar(Sy("i")), body, Call("t", Sy("i"), Sy("s"))), Call("f", I(77)), Call("list", Sy("s"), Call("f", I(78)))}
		case 2: // as an operand
			f = []*N{f[0], Call("list", I(1), Li(Sy("let"), Ar(Sy("w"), body), Ar(Sy("w"), Sy("s"))), Call("begin", body, I(2)), Sy("s"))}
		}
		return f
	}, bound: "for loops nested to depth two with plain and labelled break/continue under cond, let, letseq, newScope, and, or, def, arrays; at top level, in a function, as operand"}
}

// loops nested to depth three whose labels are drawn from the same two names
func famLabels(max int) *coreFam {
	g := NewGrammar()
	vars := []string{"i", "j", "k"}
	labs := []string{"", "a:", "b:"}
	for d, v := range vars {
		up, nt := "P", "B"+v
		if d > 0 {
			up = "B" + vars[d-1]
		}
		for _, l := range labs {
			g.T(up, 1, fmt.Sprintf("(for %s [(def %s 0) (< %s 2) (def %s (+ %s 1))] (t %s) $1)", l, v, v, v, v, strings.Join(vars[:d+1], " ")), nt)
			g.T(nt, 1, "(break "+l+")")
			g.T(nt, 1, "(continue "+l+")")
			g.T(nt, 1, "(cond (== "+v+" 1) (break "+l+") 0)")
			g.T(nt, 1, "(cond (== "+v+" 0) (continue "+l+") 0)")
		}
		g.T(nt, 0, "7")
		g.T(nt, 1, "(begin $1 (t $) $2)", nt, nt)
		g.T(nt, 1, "(let [z 1] $1)", nt)
		g.T(nt, 1, "(let [z $1] z)", nt)
		g.T(nt, 1, "((fn [] $1))", nt)
	}
	return &coreFam{name: "labels", g: g, nt: "P", max: max, vars: 2, wrap: func(n *N) []*N { return []*N{n} },
		vary: func(f []*N, v int) []*N {
			if v == 1 {
				return append(parseForms("(def i 10) (def j 11) (def k 12)"), Li(Sy("defn"), Sy("f"), Ar(), f[0], I(3)), Call("list", Call("f"), Call("f")))
			}
			return f
		}, bound: "for loops nested to depth three, unlabelled or labelled with one of two names, left or continued by either name, under begin, let and fn; at top level and in a function"}
}

// functions: fixed, variadic, recursion, arity, callee position
func famCalls(max int) *coreFam {
	g := NewGrammar()
	g.T("E", 1, "(t 1 $)")
	g.T("E", 1, "2")
	g.T("E", 1, "x")
	g.T("E", 1, "(f $1)", "E")
	g.T("E", 1, "(f)")
	g.T("E", 1, "(g $1 $2)", "E", "E")
	g.T("E", 1, "(v $1)", "E")
	g.T("E", 1, "(v $1 $2 $3)", "E", "E", "E")
	g.T("E", 1, "((fn [x] $1) $2)", "E", "E")
	g.T("E", 1, "((fn [x & y] (list x y)) $1 $2)", "E", "E")
	g.T("E", 1, "((begin (t 8 $) f) $1)", "E")
	g.T("E", 1, "((cond $1 f g) $2 $3)", "E", "E", "E")
	g.T("E", 1, "((aget fs 1) $1 $2)", "E", "E")
	g.T("E", 1, "(apply g (list $1 $2))", "E", "E")
	g.T("E", 1, "(apply v [$1 $2])", "E", "E")
	g.T("E", 1, "(map f [$1 $2])", "E", "E")
	g.T("E", 1, "(map (fn [z] $1) (list 4 $2))", "E", "E")
	g.T("E", 1, "(h f $1)", "E")
	g.T("E", 1, "(+ $1 $2)", "E", "E")
	g.T("E", 1, "(undef $1)", "E")
	g.T("E", 1, "($1 $2)", "E", "E")
	return &coreFam{name: "calls", g: g, nt: "E", max: max,
		pre: parseForms(`(def x 5) (defn f [a] (t a 50)) (defn g [a b] (list b a (f a))) (defn v [a & r] (list r a)) (defn h [k y] (k (k y))) (def fs [f g v])`),
		bound: "calls of fixed and variadic functions, lambdas, computed callees, apply, map, wrong arity, undefined names; traced operands"}
}

// recursion templates
func famRecur(max int) *coreFam {
	g := NewGrammar()
	// (defn r [n a] (cond BASE-TEST BASE STEP)) with all STEP shapes
	g.T("S", 1, "(r (- n 1) $1)", "A")
	g.T("S", 1, "(+ 1 (r (- n 1) $1))", "A")
	g.T("S", 1, "(begin (t n $) $1)", "S")
	g.T("S", 1, "(let [m $1] $2)", "A", "S")
	g.T("S", 1, "(letseq [n $1 b n] $2)", "A", "S")
	g.T("S", 1, "(cond (== n 2) $1 $2)", "S", "S")
	g.T("S", 1, "(and (t 1 $) $1)", "S")
	g.T("S", 1, "(or (t 0 $) $1)", "S")
	g.T("S", 1, "(newScope (def q n) $1)", "S")
	g.T("S", 1, "(list (r (- n 1) $1) (r (- n 2) $2))", "A", "A")
	g.T("S", 1, "(begin $1 $2)", "S", "S")
	g.T("S", 1, "(for [(def i 0) (< i 2) (def i (+ i 1))] $1)", "S")
	g.T("S", 1, "(s n (fn [] $1))", "S")
	g.T("S", 1, "(apply r (list (- n 1) $1))", "A")
	g.T("S", 1, "(first (map (fn [m] (r m $1)) [(- n 1)]))", "A")
	g.T("S", 1, "(begin (def r2 r) (r2 (- n 1) $1))", "A")
	g.T("S", 1, "(let [f r r s] (f (- n 1) $1))", "A")
	g.T("A", 1, "a")
	g.T("A", 1, "n")
	g.T("A", 1, "(t a $)")
	g.T("A", 1, "(+ a n)")
	g.T("A", 1, "(cons n a)")
	g.T("A", 1, "(cond (== n 1) a 4)")
	return &coreFam{name: "recursion", g: g, nt: "S", max: max, wrap: func(n *N) []*N {
		d := parseForms(`(defn s [n k] (cond (== n 1) 7 (k)))`)
		return append(d, Li(Sy("defn"), Sy("r"), Ar(Sy("n"), Sy("a")), Call("cond", parseN("(<= n 0)"), parseN("(list (t n 99) a)"), n)), parseN("(list (r 3 100) (r 0 1))"))
	}, bound: "self-recursive two-argument functions: every shape of recursive step (tail, non-tail, under let/cond/and/or/newScope/for, through apply, map, aliases, closures)"}
}

// data structure builtins
func famData(max int) *coreFam {
	g := NewGrammar()
	for _, s := range []string{"0", "1", "2", "-1", "\"ab\"", "nil", "a", "l", "h", "s", "(quote b)", "true", "1.5", "[]", "'c'"} {
		g.T("E", 1, s)
	}
	for _, f := range []string{"first", "rest", "second", "len", "not", "null?", "list?", "array?", "string?", "keys", "number?"} {
		g.T("E", 1, "("+f+" $1)", "E")
	}
	for _, f := range []string{"cons", "append", "concat", "aget", "hget", "sget", "+", "<", "==", "mod", "/"} {
		g.T("E", 1, "("+f+" $1 $2)", "E", "E")
	}
	for _, f := range []string{"slice", "aget", "hget", "aset", "hset", "concat"} {
		g.T("E", 1, "("+f+" $1 $2 $3)", "E", "E", "E")
	}
	g.T("E", 1, "(hash (quote b) $1)", "E")
	g.T("E", 1, "(list $1 $2)", "E", "E")
	g.T("E", 1, "[$1]", "E")
	return &coreFam{name: "data", g: g, nt: "E", max: max, wrap: func(n *N) []*N {
		f := parseForms(`(def a [10 20 30]) (def l (list 1 2)) (def h (hash (quote b) 4 "ab" 6)) (def s "xyz")`)
		return append(f, Li(Sy("list"), n, Sy("a"), Sy("l"), Sy("h"), Sy("s")))
	}, bound: "list/array/string/hash builtins applied to all operand combinations, with the containers inspected afterwards"}
}

// histories of statements over shared containers
func famMut(max int) *coreFam {
	g := NewGrammar()
	st := []string{
		"(aset a 0 (len b))", "(aset b 1 8)", "(def b a)", "(def b (append a 5))", "(def a (append a 6))", "(def b (append b 7))", "(def c (append a 9))",
		"(def b (concat a [1]))", "(def c (concat a [2]))", "(hset h (quote k) 1)", "(hset h (quote m) a)", "(hdel h (quote k))", "(def g h)",
		"(aset a 1 77)", "(def l (cons 1 l))", "(def m l)", "(map (fn [x] (aset a 0 x)) a)", "(def a (map (fn [x] (+ x 1)) a))", "(def b (map (fn [x] x) a))",
		"(for [(def i 0) (< i (len a)) (def i (+ i 1))] (aset a i i))", "(set c (append c 3))", "(aset c 0 55)", "(def l (rest l))", "(defn f [v] (aset v 0 99) v)", "(def b (let [q a] (aset q 0 3) q))", "(apply (fn [x & y] (set l y)) a)",
		"(def b (appendslice a c))",
	}
	for _, s := range st {
		g.T("S", 1, s)
	}
	g.T("P", 0, "(begin $1)", "S")
	g.T("P", 0, "(begin $1 $2)", "S", "S")
	g.T("P", 0, "(begin $1 $2 $3)", "S", "S", "S")
	if max > 3 {
		g.T("P", 0, "(begin $1 $2 $3 $4)", "S", "S", "S", "S")
	}
	return &coreFam{name: "containers", g: g, nt: "P", max: max, wrap: func(n *N) []*N {
		f := parseForms(`(def a [10 20 30]) (def b [4 5]) (def c [1]) (def l (list 1 2)) (def m l) (def h (hash (quote k) 4)) (def g h)`)
		f = append(f, n.L[1:]...)
		return append(f, parseN("(list a b c l m h g)"))
	}, bound: "all histories of statements that build, update, alias and map over arrays, lists and hashes"}
}

// everything together
func famMixed(max int) *coreFam {
	g := NewGrammar()
	g.T("E", 1, "(t 1 $)")
	g.T("E", 1, "0")
	g.T("E", 1, "x")
	g.T("E", 1, "(cond $1 $2 $3)", "E", "E", "E")
	g.T("E", 1, "(and $1 $2)", "E", "E")
	g.T("E", 1, "(or $1 $2)", "E", "E")
	g.T("E", 1, "(begin $1 $2)", "E", "E")
	g.T("E", 1, "(let [x $1] $2)", "E", "E")
	g.T("E", 1, "(def x $1)", "E")
	g.T("E", 1, "(set x $1)", "E")
	g.T("E", 1, "(f $1)", "E")
	g.T("E", 1, "((fn [y] (def x y) $1) $2)", "E", "E")
	g.T("E", 1, "((fn [y & x] $1) $2 3)", "E", "E")
	g.T("E", 1, "(for [(def x 0) (< x 2) (def x (+ x 1))] $1)", "E")
	g.T("E", 1, "(for [(def i 0) (and (< i 2) $1) (def i (+ i 1))] $2 (cond $3 (break) 0))", "E", "E", "E")
	g.T("E", 1, "(+ $1 $2)", "E", "E")
	g.T("E", 1, "[$1 $2]", "E", "E")
	g.T("E", 1, "(map f [$1 x])", "E")
	return &coreFam{name: "mixed", g: g, nt: "E", max: max, pre: parseForms("(def x 5) (defn f [x] (t x 50) (def x (+ x 1)) x)"),
		bound: "all core constructs nested in each other"}
}

// arithmetic and comparison over boundary operands
func famArith(max int) *coreFam {
	g := NewGrammar()
	for _, v := range []string{"0", "1", "-1", "3", "9223372036854775807", "-9223372036854775808", "0.5", "2.0", "-1e300",
		`""`, `"a"`, "nil", "true", "x"} {
		g.T("E", 1, v)
	}
	for _, op := range []string{"+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="} {
		g.T("E", 1, "("+op+" $1 $2)", "E", "E")
	}
	g.T("E", 1, "(- $1)", "E")
	g.T("E", 1, "(+ $1)", "E")
	g.T("E", 1, "(not $1)", "E")
	g.T("E", 1, "(+ $1 $2 1)", "E", "E")
	g.T("E", 1, "(mod $1 $2)", "E", "E")
	return &coreFam{name: "arith", g: g, nt: "E", max: max, wrap: func(n *N) []*N {
		return append(parseForms("(def x 5)"), Call("list", n, Sy("x")))
	}, bound: "arithmetic and comparisons over boundary operands"}
}

// the same program in every layout
func famLayout(f *coreFam) *coreFam {
	f.name = "layout-" + f.name
	f.vars = nLayouts
	f.text = layoutText
	f.bound += "; each in 7 layouts (newlines, tabs, line comments, block comments, tight, one line, infix)"
	return f
}

func coreFams(tier string) []*coreFam {
	if tier == "thorough" {
		return []*coreFam{famControl(6), famBlocks(6), famLoops(6), famLabels(6), famCalls(5), famRecur(5), famData(4), famMut(4), famMixed(7), famArith(5)}
	}
	return []*coreFam{famControl(6), famBlocks(5), famLoops(5), famLabels(5), famCalls(5), famRecur(5), famData(3), famMut(3), famMixed(6), famArith(4)}
}

func layoutFams(tier string) []*coreFam {
	if tier == "thorough" {
		return []*coreFam{famLayout(famControl(5)), famLayout(famBlocks(5)), famLayout(famLoops(5)), famLayout(famCalls(4)), famLayout(famRecur(4)), famLayout(famMixed(5)), famLayout(famArith(4))}
	}
	return []*coreFam{famLayout(famControl(4)), famLayout(famBlocks(4)), famLayout(famLoops(4)), famLayout(famCalls(4)), famLayout(famRecur(3)), famLayout(famMixed(4)), famLayout(famArith(3))}
}

func init() {
	register(&PropDef{ID: "C02", Assume: []string{
		"programs of the stated families and sizes",
	}, Spaces: func(tier string) []*Space {
		return refSpaces(append(coreFams(tier), layoutFams(tier)...))
	}})
}
