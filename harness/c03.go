package main

import (
	"fmt"
	"strings"
)

// C03: programs over a deliberately tiny pool of names.

// nested expressions: every construct that makes, captures, shadows or updates
func famScope(max int) *coreFam {
	g := NewGrammar()
	g.T("E", 1, "x")
	g.T("E", 1, "y")
	g.T("E", 1, "(f)")
	g.T("E", 1, "(g)")
	g.T("E", 1, "(def x $1)", "V")
	g.T("E", 1, "(set x $1)", "V")
	g.T("E", 1, "(set y $1)", "V")
	g.T("E", 1, "(begin $1 $2)", "E", "E")
	g.T("E", 1, "(let [x $1] $2)", "V", "E")
	g.T("E", 1, "(let [x $1 y x] $2)", "V", "E")
	g.T("E", 1, "(letseq [y $1 x y] $2)", "V", "E")
	g.T("E", 1, "(newScope $1 $2)", "E", "E")
	g.T("E", 1, "(let [f $1] $2)", "F", "E")
	g.T("E", 1, "(begin (def f $1) $2)", "F", "E")
	g.T("E", 1, "(begin (set g $1) $2)", "F", "E")
	g.T("E", 1, "(begin (defn f [] $1) $2)", "E", "E")
	g.T("E", 1, "(h $1)", "F")
	g.T("E", 1, "($1)", "F")
	g.T("E", 1, "((fn [x] $1) $2)", "E", "V")
	g.T("V", 0, "$")
	g.T("V", 1, "$1", "E")
	g.T("F", 1, "f")
	g.T("F", 1, "g")
	g.T("F", 1, "(fn [] $1)", "E")
	g.T("F", 1, "(let [x $1] (fn [] $2))", "V", "E")
	g.T("F", 1, "(mk $1)", "V")
	return &coreFam{name: "nesting", g: g, nt: "E", max: max, wrap: func(n *N) []*N {
		f := parseForms(`(def x 1001) (def y 1002) (defn f [] x) (defn mk [x] (fn [] (set x (+ x 1000)) x)) (def g (mk 5000))
(defn h [k] (def x 2001) (let [y 2002 f k] (def g 7) (k)))`)
		return append(f, parseN("(list "+n.String()+" x y (f) (g))"))
	}, bound: "reads, def, set, let, letseq, newScope, fn, defn, higher-order and computed calls over the names x y f g"}
}

// makers: a function whose body makes several closures; two activations; every
// sequence of three calls
func famMakers(max int) *coreFam {
	g := NewGrammar()
	g.T("S", 0, "[(fn [] $1) (fn [] $2)]", "E", "E")
	g.T("S", 1, "(let [y 3] $1)", "S")
	g.T("S", 1, "(letseq [x (+ x 7) y x] $1)", "S")
	g.T("S", 1, "(newScope (def y 4) $1)", "S")
	g.T("S", 1, "(begin (def x (+ x 9)) $1)", "S")
	g.T("S", 1, "(begin (def r $1) (set x (+ x 11)) r)", "S")
	g.T("S", 1, "((fn [y] $1) 5)", "S")
	g.T("S", 1, "((fn [] (def y 6) $1))", "S")
	g.T("S", 1, "(cond (> x 0) $1 0)", "S")
	g.T("S", 1, "(begin (defn mk2 [y] $1) (mk2 8) (mk2 x))", "S")
	g.T("S", 1, "(begin (def r nil) (for [(def y 0) (< y 2) (def y (+ y 1))] (set r $1)) r)", "S")
	g.T("E", 1, "x")
	g.T("E", 1, "y")
	g.T("E", 1, "(set x (+ x 1))")
	g.T("E", 1, "(set y (+ y 10))")
	g.T("E", 1, "(def y (+ y 100))")
	g.T("E", 1, "(begin (set x (+ x 1)) $1)", "E")
	g.T("E", 1, "(let [x 20] (set y (+ x y)))")
	g.T("E", 1, "((fn [x] $1) (+ y 30))", "E")
	seqs := prodSize(4, 4, 4)
	return &coreFam{name: "makers", g: g, nt: "S", max: max, vars: int(seqs), vary: func(f []*N, v int) []*N {
		f = append([]*N{}, f...)
		d := Radix(uint64(v), 4, 4, 4)
		l := Call("list")
		for _, k := range d {
			l.L = append(l.L, parseN(fmt.Sprintf("((aget %s %d))", []string{"p", "q"}[k/2], k%2)))
		}
		l.L = append(l.L, Sy("x"), Sy("y"))
		return append(f, l)
	}, wrap: func(n *N) []*N {
		f := parseForms(`(def x 1001) (def y 1002)`)
		return append(f, parseN("(defn mk [x] "+n.String()+")"), parseN("(def p (mk 1))"), parseN("(def q (let [y 77 x 88] (mk 2)))"))
	}, bound: "functions returning closures made under every scope form; two activations; every sequence of 3 calls of the 4 closures"}
}

// loops and recursion making closures in every iteration
func famIter(max int) *coreFam {
	g := NewGrammar()
	// body of an iteration: adds closures to acc; names n, x
	g.T("B", 1, "(set acc (append acc (fn [] $1)))", "E")
	g.T("B", 1, "(begin $1 $2)", "B", "B")
	g.T("B", 1, "(def x (+ n 10))")
	g.T("B", 1, "(set x (+ x n))")
	g.T("B", 1, "(let [x n] $1)", "B")
	g.T("B", 1, "(letseq [x n n x] $1)", "B")
	g.T("B", 1, "(newScope (def n (+ n 20)) $1)", "B")
	g.T("B", 1, "((fn [x] $1) n)", "B")
	g.T("B", 1, "(begin (defn k [] $1) (set acc (append acc k)))", "E")
	g.T("E", 1, "n")
	g.T("E", 1, "x")
	g.T("E", 1, "(set n (+ n 100))")
	g.T("E", 1, "(set x (+ x 1000))")
	g.T("E", 1, "(begin (def x n) $1)", "E")
	loops := []string{
		"(for [(def n 1) (<= n 3) (def n (+ n 1))] $1)",
		"(for [(def n 1) (<= n 3) (set n (+ n 1))] (def q 5) $1)",
		"(begin (defn r [n] $1 (cond (>= n 3) 0 (r (+ n 1)))) (r 1))",
		"(begin (defn r [n] (let [z n] $1 (cond (>= n 3) 0 (r (+ n 1))))) (r 1))",
		"(begin (defn r [n x] $1 (cond (< n 3) (begin (newScope (def x 4) (r (+ n 1) x))) 0)) (r 1 x))",
		"(begin (defn r [n] $1 (cond (>= n 3) 0 (+ 1 (r (+ n 1))))) (r 1))",
		"(begin (defn r [n & x] $1 (cond (>= n 3) 0 (r (+ n 1) n n))) (r 1 3))",
		"(begin (defn r [n] $1 (and (< n 3) (r (+ n 1)))) (r 1))",
		"(map (fn [n] $1) [1 2 3])",
		"(begin (defn r [n] $1 (cond (>= n 3) 0 (let [r2 r] (r2 (+ n 1))))) (r 1))",
	}
	return &coreFam{name: "iterations", g: g, nt: "B", max: max, vars: len(loops), vary: func(f []*N, v int) []*N {
		b := f[len(f)-1]
		f = append([]*N{}, f[:len(f)-1]...)
		f = append(f, parseN(loops[v]).fill([]*N{b}))
		return append(f, parseForms(`(def o1 (map (fn [k] (k)) acc)) (def o2 (map (fn [k] (k)) acc)) (list (len acc) o1 o2 x n)`)...)
	}, wrap: func(n *N) []*N {
		return append(parseForms(`(def x 5) (def n 6) (def acc [])`), n)
	}, bound: "closures made in each iteration of for loops, tail-recursive and other recursive functions, map; every closure called twice afterwards"}
}

// routes: a closure called from a function whose locals have the same names
func famRoutes(max int) *coreFam {
	g := NewGrammar()
	g.T("C", 1, "(f)")
	g.T("C", 1, "((fn [] (f)))")
	g.T("C", 1, "(begin (def k f) (k))")
	g.T("C", 1, "(let [k f] (k))")
	g.T("C", 1, "((aget fs 0))")
	g.T("C", 1, "((hget fh (quote k)))")
	g.T("C", 1, "((first fl))")
	g.T("C", 1, "(apply f [])")
	g.T("C", 1, "(first (map (fn [z] (f)) [1]))")
	g.T("C", 1, "(first (map fz [1]))")
	g.T("C", 1, "(h f)")
	g.T("C", 1, "(rr 2)")
	g.T("C", 1, "((cond (== x x) f g))")
	g.T("C", 1, "(let [x 501 y 502] $1)", "C")
	g.T("C", 1, "(begin (def x 503) $1)", "C")
	g.T("C", 1, "((fn [x y] $1) 504 505)", "C")
	g.T("C", 1, "(newScope (def y 506) $1)", "C")
	g.T("C", 1, "(last (for [(def x 0) (< x 1) (def x (+ x 1))] (set res $1)))", "C")
	g.T("C", 1, "(begin (defn w [y] $1) (w 507))", "C")
	g.T("C", 1, "(cond $1 $2 0)", "C", "C")
	fs := []string{
		"(defn mk [] (fn [] (list x y)))", "(defn mk [] (def x 11) (fn [] (set x (+ x 1)) (list x y)))",
		"(defn mk [] (let [y 12] (fn [] (set x (+ x 1)) (set y (+ y 1)) (list x y))))",
		"(defn mk [] (let [x 13] (defn f [] (list x y)) f))",
		"(defn mk [] (defn in [y] (fn [] (list x y))) (in 14))",
		"(defn mk [] (def y 15) (for [(def x 0) (< x 1) (def x (+ x 1))] (def f (fn [] (list x y)))) (fn [] (list x y)))",
		"(defn mk [] (newScope (def x 16) (let [y x] (fn [] (def x (+ x y)) (list x y)))))",
		"(defn mk [] (defn x1 [] (list x y)) (def y 17) (fn [] (let [x 18 y 19] (x1))))",
	}
	return &coreFam{name: "routes", g: g, nt: "C", max: max, vars: len(fs), vary: func(f []*N, v int) []*N {
		return append([]*N{parseN("(def x 1)"), parseN("(def y 2)"), parseN(fs[v])}, f...)
	}, wrap: func(n *N) []*N {
		f := parseForms(`(def res nil) (def f (mk)) (def g (mk)) (defn last [q] res) (def fs [f]) (def fh (hash (quote k) f)) (def fl (list f)) (defn fz [x] (f)) (defn h [f] (def x 601) (f)) (defn rr [x] (cond (== x 0) (f) (rr (- x 1))))`)
		return append(f, parseN("(defn caller [x] (def y 602) "+n.String()+")"), parseN("(list (caller 603) (g) (caller 604) (f) x y)"))
	}, bound: "closures made 8 ways called through every route from callers whose locals have the same names"}
}

func scopeFams(tier string) []*coreFam {
	if tier == "thorough" {
		return []*coreFam{famScope(6), famMakers(5), famIter(6), famRoutes(5), famRecur(5), famBlocks(6)}
	}
	return []*coreFam{famScope(5), famMakers(4), famIter(5), famRoutes(4), famRecur(4), famBlocks(4)}
}

func init() {
	register(&PropDef{ID: "C03", Assume: []string{
		"programs of the stated families and sizes; a name keeps one kind of value (the type rule of def is C17's subject)",
	}, Spaces: func(tier string) []*Space {
		return refSpaces(scopeFams(tier))
	}})
}

// refSpaces compares every program of the families with the reference.
func refSpaces(fams []*coreFam) []*Space {
	var out []*Space
	for _, f := range fams {
		out = append(out, famSpace(f, func(forms []*N, src string, r *Rec, i uint64) {
			c := coreRun(forms, src, r)
			if c.skip {
				return
			}
			r.State(c.expect())
			if !c.same() {
				r.Violate(c.diffSig(), c.src, c.detail())
			}
			if i%9973 == 5 {
				r.Sample(strings.ReplaceAll(c.src, "\n", " ") + "=> " + c.expect())
			}
		}))
	}
	return out
}
