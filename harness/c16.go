package main

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C16: lazy parameters.

// families: what the callee does with its arguments x how it is reached x what
// the arguments are x which parameters are lazy.

// the parameter lists; "a" and "b" in bodies stand for #a / #b when lazy
type lazySig struct {
	params string
	la, lb bool // is the first / second argument lazy
	rest   bool // b is the list of the remaining arguments
	one    bool // takes one argument only
}

var lazySigs = []lazySig{
	{"[#a b]", true, false, false, false},
	{"[a #b]", false, true, false, false},
	{"[#a #b]", true, true, false, false},
	{"[a b]", false, false, false, false},
	{"[#a & b]", true, false, true, false},
	{"[a & b]", false, false, true, false},
}

func rename(n *N, m map[string]string) *N {
	c := *n
	if c.K == NSym {
		if t, ok := m[c.S]; ok {
			c.S = t
		}
	}
	if len(n.L) > 0 {
		c.L = make([]*N, len(n.L))
		for i := range n.L {
			c.L[i] = rename(n.L[i], m)
		}
	}
	return &c
}

func (s lazySig) body(n *N) *N {
	m := map[string]string{}
	if s.la {
		m["a"] = "#a"
	}
	if s.lb {
		m["b"] = "#b"
	}
	return rename(n, m)
}

// how a call (k A B) is made; $1 $2 are the arguments, $3 the callee's name
var lazyRoutes = []string{
	"(f $1 $2)",
	"(begin (def k f) (k $1 $2))",
	"(let [k f] (k $1 $2))",
	"((fn [k] (k $1 $2)) f)",
	"(cal f)", // caller with its own x and arguments written inside it
	"((cond true f 1) $1 $2)",
	"((aget [7 f] 1) $1 $2)",
	"((hget (hash (quote k) f) (quote k)) $1 $2)",
	"((id f) $1 $2)",
	"(((fn [] id) f) $1 $2)",
	"(apply f [$1 $2])",
	"(apply f (list $1 $2))",
	"(apply (id f) [$1 $2])",
	"((fn [] (f $1 $2)))",                // a tail call
	"((fn [x] (f $1 $2)) 71)",            // a tail call, the arguments see the caller's x
	"(let [x 72 y x] (f $1 $2))",         //
	"(begin (def x 73) (f $1 $2))",       //
	"(newScope (def y 74) (f $1 $2))",    //
	"(late 0)",                           // f was strict when the caller was compiled
	"(early 0)",                          // f was lazy in the first parameter when the caller was compiled
	"((fn [f] (f $1 $2)) (fn [p q] [p q]))", // shadowed by a strict function
	"((fn [f] (f $1 $2)) (fn [#p #q] (force #q) (substitute #p)))",
	"(let [f2 f f strict2] [(f2 $1 $2) (f $1 $2)])",
	"(for [(def x 75) (< x 77) (def x (+ x 1))] (set res (f $1 $2)) res)",
	"(m2 $1 $2)",       // through a function with lazy parameters that passes the promises on
	"(m3 $1 $2)",       // through a variadic function
	"(begin (def x 1) (def esc2 (f $1 $2)) (set x 99) esc2)",
	"(rr 2)", // through a recursive function with its own x
	"(map (fn [z] (f $1 $2)) [1 2])",
	"(and (f $1 $2) (or nil (f $1 $2)))",
}

func famLazy(max int, name string, sigs []lazySig, argsOnly bool) *coreFam {
	g := NewGrammar()
	if !argsOnly {
		// bodies
		g.T("B", 1, "(force a)")
		g.T("B", 1, "(force b)")
		g.T("B", 1, "a")
		g.T("B", 1, "(substitute a)")
		g.T("B", 1, "(substitute b)")
		g.T("B", 1, "[$1 $2]", "B", "B")
		g.T("B", 1, "(begin $1 $2)", "B", "B")
		g.T("B", 1, "(begin (set x (+ x 1000)) $1)", "B")
		g.T("B", 1, "(let [x 500 y 501] $1)", "B")
		g.T("B", 1, "((fn [x] $1) 502)", "B")
		g.T("B", 1, "(begin (set esc (append esc (fn [] $1))) 6)", "B")
		g.T("B", 1, "(lz $1)", "B")
		g.T("B", 1, "(st $1)", "B")
		g.T("B", 1, "(lz a)")
		g.T("B", 1, "(st a)")
		g.T("B", 1, "(t $ (force a))")
		g.T("B", 1, "(cond (== 1 2) $1 $2)", "B", "B")
	} else {
		g.T("B", 0, "(begin (t 90) (set x (+ x 1000)) (let [y 501] [(force a) (force b) (force a) (substitute a)]))")
		g.T("B", 1, "[(force b) (force a)]")
		g.T("B", 1, "(begin (set esc (append esc (fn [] (set x (+ x 1)) [(force a) (force b)]))) 6)")
		g.T("B", 1, "(substitute a)")
	}
	// arguments
	g.T("A", 0, "(t $ x)")
	if argsOnly {
		g.T("A", 1, "x")
		for _, v := range []string{"nil", "false", "0", "\"\"", "[]", "(list)", "(hash k 1)", "f", "(quote x)", "0.0"} {
			g.T("A", 1, "(begin (set x (+ x 1)) (t $) "+v+")")
		}
		g.T("A", 1, "$")
		g.T("A", 1, "(begin (set x (+ x 1)) (t $ x))")
		g.T("A", 1, "(begin (def y $) (t y))")
		g.T("A", 1, "(let [x $1] (t x y))", "A")
		g.T("A", 1, "(f $1 $2)", "A", "A")
		g.T("A", 1, "(lz $1)", "A")
		g.T("A", 1, "(st $1)", "A")
		g.T("A", 1, "((fn [y] $1) $2)", "A", "A")
		g.T("A", 1, "[$1 $2]", "A", "A")
		g.T("A", 1, "(begin (defn w [] (set y (+ y 1)) y) (t (w)))")
		g.T("A", 1, "(t 1 (undefinedname))")
	}
	g.T("P", 0, "[$1 $2 $3]", "B", "A", "A")
	nr := len(lazyRoutes)
	return &coreFam{name: name, g: g, nt: "P", max: max, vars: len(sigs) * nr, vary: func(f []*N, v int) []*N {
		s := sigs[v%len(sigs)]
		route := lazyRoutes[v/len(sigs)]
		pr := f[0]
		body, a, b := s.body(pr.L[0]), pr.L[1], pr.L[2]
		fill := func(t string) []*N {
			var out []*N
			for _, x := range parseForms(t) {
				out = append(out, x.fill([]*N{a, b}))
			}
			return out
		}
		def := []*N{parseN("(defn f " + s.params + " $1)").fill([]*N{body})}
		var p []*N
		p = append(p, parseForms(`(def x 1) (def y 2) (def res 0) (def esc []) (defn id [q] q) (defn lz [#p] (list (force #p) (force #p))) (defn st [p] (list p p)) (defn strict2 [p q] [p q])`)...)
		switch {
		case strings.HasPrefix(route, "(late"):
			p = append(p, parseForms("(def f (fn [p q] [p q]))")...)
			p = append(p, fill("(defn late [x] (f $1 $2)) (late 3)")...)
		case strings.HasPrefix(route, "(early"):
			p = append(p, parseForms("(def f (fn [#p q] 4))")...)
			p = append(p, fill("(defn early [x] (f $1 $2)) (early 3)")...)
		}
		p = append(p, def...)
		switch {
		case strings.HasPrefix(route, "(cal"):
			p = append(p, fill("(defn cal [k] (def x 61) (let [y 62] (k $1 $2)))")...)
		case strings.HasPrefix(route, "(m2"):
			p = append(p, parseForms("(defn m2 [#p #q] (f (force #p) (force #q)))")...)
		case strings.HasPrefix(route, "(m3"):
			p = append(p, parseForms("(defn m3 [& p] (apply f p))")...)
		case strings.HasPrefix(route, "(rr"):
			p = append(p, fill("(defn rr [x] (cond (== x 0) (f $1 $2) (rr (- x 1))))")...)
		}
		p = append(p, parseN("(def r "+"$1"+")").fill(fill(route)))
		return append(p, parseForms("(set x (+ x 7)) [r (map (fn [k] (k)) esc) (map (fn [k] (k)) esc) x y]")...)
	}, bound: fmt.Sprintf("%d parameter lists x %d routes", len(sigs), nr)}
}

// typed functions: lazy and strict parameters, called by position or by name
// in every order; the calls are checked against the definition directly.
func typedLazySpace(n int) *Space {
	// n parameters: each lazy or strict; each forced or not, in every order;
	// called positionally or with names in every order
	perms := permutations(n)
	size := uint64(1<<uint(n)) * uint64(1<<uint(n)) * uint64(len(perms)+1) * 2
	build := func(i uint64) (src string, wantVal string, wantLog []string) {
		d := Radix(i, 1<<uint(n), 1<<uint(n), len(perms)+1, 2)
		lazy, forced, order, tail := d[0], d[1], d[2], d[3]
		names := []string{"pa", "pb", "pc", "pd"}[:n]
		var ps, body, vals []string
		for k, nm := range names {
			if lazy>>uint(k)&1 == 1 {
				nm = "#" + nm
				names[k] = nm
			}
			ps = append(ps, nm+":int64")
			switch {
			case lazy>>uint(k)&1 == 0:
				body = append(body, nm)
				vals = append(vals, fmt.Sprint(10*k+10))
			case forced>>uint(k)&1 == 1:
				body = append(body, "(force "+nm+")", "(force "+nm+")")
				vals = append(vals, fmt.Sprint(10*k+10), fmt.Sprint(10*k+10))
			default:
				body = append(body, "(substitute "+nm+")")
				vals = append(vals, fmt.Sprintf("('t %d)", 10*k+10))
			}
		}
		// order in which the arguments are written
		perm := make([]int, n)
		for k := range perm {
			perm[k] = k
		}
		named := order > 0
		if named {
			perm = perms[order-1]
		}
		var args []string
		for _, k := range perm {
			if named {
				args = append(args, names[k]+":")
			}
			args = append(args, fmt.Sprintf("(t %d)", 10*k+10))
			if lazy>>uint(k)&1 == 0 {
				wantLog = append(wantLog, fmt.Sprint(10*k+10))
			}
		}
		wantLog = append(wantLog, "0")
		for k := range names {
			if lazy>>uint(k)&1 == 1 && forced>>uint(k)&1 == 1 {
				wantLog = append(wantLog, fmt.Sprint(10*k+10))
			}
		}
		src = "(func f [" + strings.Join(ps, " ") + "] [r: list] (t 0) (list " + strings.Join(body, " ") + "))\n"
		if tail == 1 {
			src += "(defn g [] (f " + strings.Join(args, " ") + "))\n(g)\n"
		} else {
			src += "(f " + strings.Join(args, " ") + ")\n"
		}
		src = strings.Replace(src, "[r: list]", "[r:int64]", 1)
		return src, "(" + strings.Join(vals, " ") + ")", wantLog
	}
	return &Space{Name: fmt.Sprintf("typed-%d", n), Size: size,
		Bound: fmt.Sprintf("func declarations of %d typed parameters: every choice of lazy ones, of forced ones, positional or named arguments in every order, direct or as a tail call", n),
		Run: func(i uint64, r *Rec) {
			src, val, log := build(i)
			env := NewCore()
			typedCore(env)
			tr := &Tracer{}
			tr.Install(env)
			o := Eval(env, src)
			r.Validated++
			exp := "val:" + val + " trace=[" + strings.Join(log, " ") + "]"
			got := o.Class() + " trace=[" + tr.String() + "]"
			r.State(exp)
			if exp != got {
				if o.Kind != "val" {
					got += " " + o.S
				}
				r.Violate("wrong evaluation of typed or named arguments", src, "program:\n"+src+"expected "+exp+"\ngot      "+got)
			}
			if i%101 == 3 {
				r.Sample(strings.ReplaceAll(src, "\n", " ") + "=> " + exp)
			}
		},
		Desc: func(i uint64) string { s, _, _ := build(i); return s },
	}
}

func typedCore(env *zygo.Zlisp) {
	env.AddBuilder("func", zygo.FuncBuilder)
	for _, n := range []string{"int64", "string", "float64"} {
		env.AddGlobal(n, zygo.GoStructRegistry.Lookup(n))
	}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for pos := 0; pos <= len(p); pos++ {
			q := append([]int{}, p[:pos]...)
			q = append(q, n-1)
			q = append(q, p[pos:]...)
			out = append(out, q)
		}
	}
	return out
}

func init() {
	register(&PropDef{ID: "C16", Assume: []string{
		"the value of a lazy parameter's name is the promise itself: passing it on passes the promise",
		"the arguments collected by a variadic tail are strict",
	}, Spaces: func(tier string) []*Space {
		if tier == "thorough" {
			return append([]*Space{typedLazySpace(1), typedLazySpace(2), typedLazySpace(3), typedLazySpace(4)},
				refSpaces([]*coreFam{famLazy(4, "uses", lazySigs, false), famLazy(3, "arguments", lazySigs, true)})...)
		}
		return append([]*Space{typedLazySpace(1), typedLazySpace(2), typedLazySpace(3)},
			refSpaces([]*coreFam{famLazy(3, "uses", lazySigs, false), famLazy(2, "arguments", lazySigs, true)})...)
	}})
}
