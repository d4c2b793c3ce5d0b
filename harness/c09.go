package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C09: tail calls take constant space and are invisible.

// where a call is in tail position
var tailCtx = []string{
	"(cond true $1 7)",
	"(cond false 7 (> n 0) $1 8)",
	"(cond false 7 $1)",
	"(begin (t 1) $1)",
	"(let [m n] $1)",
	"(let [m n k a] (t m) $1)",
	"(letseq [m n k m] $1)",
	"(newScope (def m n) $1)",
	"(newScope $1)",
	"(and 1 $1)",
	"(and (t 1) 2 $1)",
	"(or false $1)",
	"(or nil (t false) $1)",
	"(begin (def m n) (defn z [] m) (z) $1)",
	"(begin (for [(def i 0) (< i 2) (def i (+ i 1))] (cond (== i 1) (break) (let [q i] (continue)))) $1)",
}

type tailKind struct {
	def  string // $1: the body
	call string // the self call
	run  string // $1: the depth
	ref  string // the definition as the reference sees it, if different
}

var tailKinds = []tailKind{
	{"(defn r [n a] (t n) (cond (== n 0) a $1))", "(r (- n 1) (+ a n))", "(r $1 0)", ""},
	{"(defn r [n & a] (t n) (cond (== n 0) a $1))", "(r (- n 1) n (first a))", "(r $1 0 1)", ""},
	{"(def r (fn [n a] (t n) (cond (== n 0) a $1)))", "(r (- n 1) (+ a n))", "(r $1 0)", ""},
	{"(defn o [q] (defn r [n a] (t n q) (cond (== n 0) a $1)) (r q 0))", "(r (- n 1) (+ a n q))", "(o $1)", ""},
	{"(defn r [n a] (t n) (cond (== n 0) a $1)) (def k2 r)", "(k2 (- n 1) (+ a n))", "(r $1 0)", ""},
	{"(defn r [n #a] (t n) (cond (== n 0) (force #a) $1))", "(r (- n 1) (t n 5))", "(r $1 0)", ""},
	{"(func r [n: int64 a: int64] [z: int64] (t n) (cond (== n 0) a $1))", "(r (- n 1) (+ a n))", "(r $1 0)",
		"(defn r [n a] (t n) (cond (== n 0) a $1))"},
	{"(defn r [n a] (t n) (cond (== n 0) a (r2 n a))) (def r2 nil) (def r2 (fn [n a] $1))", "(r (- n 1) (+ a n))", "", ""}, // not a self call: transparency only
}

// nests of contexts, outermost first; index over all nests of length <= max
func nestCount(max int) uint64 {
	n, p := uint64(1), uint64(1)
	for i := 0; i < max; i++ {
		p *= uint64(len(tailCtx))
		n += p
	}
	return n
}

func nestAt(i uint64) []int {
	p := uint64(1)
	for l := 0; ; l++ {
		if i < p {
			out := make([]int, l)
			for k := range out {
				out[k] = int(i % uint64(len(tailCtx)))
				i /= uint64(len(tailCtx))
			}
			return out
		}
		i -= p
		p *= uint64(len(tailCtx))
	}
}

type marks struct {
	data, scope, addr, loop, frames int
	calls                           int
	heap                            uint64 // live heap at the innermost call (only where asked for)
}

func (m marks) String() string {
	return fmt.Sprintf("data=%d scope=%d call=%d loop=%d goframes=%d", m.data, m.scope, m.addr, m.loop, m.frames)
}

// runMarked evaluates src and returns the high-water marks of the VM stacks
// seen by a pre-call hook, and of the Go stack seen by the host function t.
func runMarked(src string, heap bool) (Out, *Tracer, marks, *zygo.Zlisp) {
	env := NewCore()
	typedCore(env)
	tr := &Tracer{}
	tr.Install(env)
	var m marks
	pcs := make([]uintptr, 4096)
	max := func(p *int, v int) {
		if v > *p {
			*p = v
		}
	}
	env.AddPreHook(func(e *zygo.Zlisp, name string, args []zygo.Sexp) {
		d, s, a, l := e.VerifDepths()
		max(&m.data, d)
		max(&m.scope, s)
		max(&m.addr, a)
		max(&m.loop, l)
		m.calls++
		if name == "t" {
			max(&m.frames, runtime.Callers(0, pcs))
			if heap && m.heap == 0 && len(args) > 0 && Dump(args[0]) == "0" {
				var ms runtime.MemStats
				runtime.GC()
				runtime.ReadMemStats(&ms)
				m.heap = ms.HeapAlloc
			}
		}
	})
	o := EvalB(env, src, 200000000)
	return o, tr, m, env
}

func tailProg(ctx []int, kind, n int) (string, []*N) {
	k := tailKinds[kind]
	body := parseN(k.call)
	for i := len(ctx) - 1; i >= 0; i-- {
		body = parseN(tailCtx[ctx[i]]).fill([]*N{body})
	}
	build := func(def string) []*N {
		fs := parseForms(def)
		var out []*N
		for _, f := range fs {
			out = append(out, f.fill([]*N{body}))
		}
		return append(out, parseN(k.run).fill([]*N{I(int64(n))}))
	}
	src := Text(build(k.def)...)
	if k.ref != "" {
		return src, build(k.ref)
	}
	return src, build(k.def)
}

func refDeep(forms []*N, max int) (*Ref, ROut) {
	m := NewRef()
	m.Max = max
	m.MaxDepth = 1 << 30
	return m, m.Run(forms)
}

const heapSlack = 2 << 20

func tailSpace(maxNest, maxKinds int, ns []int, name string) *Space {
	deep := ns[len(ns)-1] >= 100000 // 21 bytes kept per call would show
	return &Space{Name: name, Size: nestCount(maxNest) * uint64(maxKinds),
		Bound: fmt.Sprintf("all nests of <=%d tail contexts (of %d) x %d kinds of function; depths %v: same value and effects as the reference, same high-water marks of the VM stacks and the Go stack at every depth", maxNest, len(tailCtx), maxKinds, ns),
		HangS: 120,
		Run: func(i uint64, r *Rec) {
			kind := int(i % uint64(maxKinds))
			ctx := nestAt(i / uint64(maxKinds))
			var first marks
			for j, n := range ns {
				src, forms := tailProg(ctx, kind, n)
				m, ro := refDeep(forms, 1<<40)
				o, tr, mk, env := runMarked(src, deep)
				r.Trans += uint64(mk.calls)
				r.Validated++
				exp := ro.Kind + ":" + ro.S + " trace=" + strings.Join(clipLog(m.Log), " ")
				got := o.Kind + ":" + o.S + " trace=" + strings.Join(clipLog(tr.Log), " ")
				if ro.Kind == "err" {
					exp, got = "err", o.Kind
				}
				if exp != got || tr.N != m.Hosts {
					r.Violate("wrong result of a tail-recursive function", src, "program:\n"+src+"expected "+cut(exp)+"\ngot      "+cut(got))
					return
				}
				r.State(exp)
				if d, s, a, l := env.VerifDepths(); d != 0 || s != 1 || a != 0 || l != 0 {
					r.Violate("stacks not at rest after a tail-recursive run", src, fmt.Sprintf("program:\n%sdepths %d %d %d %d", src, d, s, a, l))
					return
				}
				if j == 0 {
					first = mk
					continue
				}
				// a lazy parameter's promise legitimately holds the scope it closes over
				if deep && kind != 5 && mk.heap > first.heap+heapSlack {
					r.Violate("memory grows with the depth of a tail recursion", src, fmt.Sprintf("program:\n%slive heap at the last call, depth %d: %d bytes, depth %d: %d bytes", src, ns[0], first.heap, n, mk.heap))
					return
				}
				mk.calls, mk.heap = first.calls, first.heap
				if mk != first {
					r.Violate("space grows with the depth of a tail recursion", src, fmt.Sprintf("program:\n%shigh-water marks at depth %d: %s\n               at depth %d: %s", src, ns[0], first, n, mk))
					return
				}
				if i%997 == 3 {
					r.Sample(strings.ReplaceAll(src, "\n", " ") + "=> " + mk.String())
				}
			}
		},
		Desc: func(i uint64) string {
			src, _ := tailProg(nestAt(i/uint64(maxKinds)), int(i%uint64(maxKinds)), ns[len(ns)-1])
			return src
		}}
}

func clipLog(l []string) []string {
	if len(l) > 200 {
		return append(append([]string{}, l[:100]...), l[len(l)-100:]...)
	}
	return l
}

func cut(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

// every shape of step: tail and non-tail positions mixed, locals, updates and
// closures of every iteration observed afterwards
func famTail(max int) *coreFam {
	g := NewGrammar()
	g.T("S", 0, "(r (- n 1) $1)", "A")
	g.T("S", 1, "(k2 (- n 1) $1)", "A")
	g.T("S", 1, "(r (- n 1))")
	g.T("S", 1, "a")
	g.T("S", 1, "(begin $1 $2)", "P", "S")
	g.T("S", 1, "(let [m n] $1)", "S")
	g.T("S", 1, "(let [n a a n] (set n (+ n 1)) $1)", "S")
	g.T("S", 1, "(letseq [m a a m] $1)", "S")
	g.T("S", 1, "(newScope $1 $2)", "P", "S")
	g.T("S", 1, "(cond (== (mod n 2) 0) $1 $2)", "S", "S")
	g.T("S", 1, "(cond false 1 (t true $) $1 $2)", "S", "S")
	g.T("S", 1, "(and (t n $) $1)", "S")
	g.T("S", 1, "(or (t nil $) $1)", "S")
	g.T("S", 1, "(let [r k2] $1)", "S")
	g.T("S", 1, "(begin $1 $2)", "S", "S")
	g.T("S", 1, "(+ 1 $1)", "S")
	g.T("S", 1, "(first [$1 2])", "S")
	g.T("S", 1, "(let [m $1] m)", "S")
	g.T("S", 1, "(letseq [m $1 m2 2] (+ m m2))", "S")
	g.T("S", 1, "(cond $1 $2 3)", "S", "S")
	g.T("S", 1, "(and $1 5)", "S")
	g.T("S", 1, "(or $1 5)", "S")
	g.T("S", 1, "(def m $1)", "S")
	g.T("S", 1, "(for [(def m 0) (< m 2) (def m (+ m 1))] $1)", "S")
	g.T("S", 1, "((fn [a] $1) 50)", "S")
	g.T("S", 1, "(begin (assert $1) 4)", "S")
	g.T("P", 1, "(def m n)")
	g.T("P", 1, "(def a (+ a 10))")
	g.T("P", 1, "(set n (- n 1))")
	g.T("P", 1, "(set acc (append acc (fn [] (list n a m))))")
	g.T("P", 1, "(set acc (append acc (fn [] (set a (+ a 100)) a)))")
	g.T("P", 1, "(defn z [] (set m n) m)")
	g.T("A", 0, "a")
	g.T("A", 1, "(+ a n)")
	g.T("A", 1, "(t m $)")
	g.T("A", 1, "(r (- n 2) a)")
	kinds := []string{
		"(defn r [n a] (t n a) (cond (<= n 0) a $1))",
		"(def r (fn [n a] (t n a) (cond (<= n 0) a $1)))",
		"(defn r [n & v] (let [a (first v)] (t n a) (cond (<= n 0) a $1)))",
		"(defn r [n #b] (def a (force #b)) (t n a) (cond (<= n 0) a $1))",
		"(defn r [n #a] (t n) (cond (<= n 0) (force #a) (let [a (force #a)] $1)))",
		"(def r (let [m 70] (defn r [n a] (t n a) (cond (<= n 0) a $1)) r))",
	}
	return &coreFam{name: "steps", g: g, nt: "S", max: max, vars: len(kinds), vary: func(f []*N, v int) []*N {
		b := f[len(f)-1]
		f = append([]*N{}, f[:len(f)-1]...)
		f = append(f, parseN(kinds[v]).fill([]*N{b}))
		return append(f, parseForms(`(def k2 r) (def o0 (r 3 7)) (def o1 (map (fn [k] (k)) acc)) (list o0 o1 (map (fn [k] (k)) acc) m)`)...)
	}, wrap: func(n *N) []*N {
		return append(parseForms(`(def m 60) (def acc [])`), n)
	}, bound: "six kinds of recursive function x every step shape over tail and non-tail positions, locals, updates, closures of every iteration called twice afterwards"}
}

func init() {
	register(&PropDef{ID: "C09", Assume: []string{
		"stack sizes are those of the VM's four stacks and of the Go stack, sampled at every call; the live heap is compared at depth 5 and 100000 or more, with 2 MB of slack",
	}, Spaces: func(tier string) []*Space {
		if tier == "thorough" {
			sp := []*Space{tailSpace(0, 7, []int{5, 1000000}, "deepest"), tailSpace(1, 7, []int{5, 100000}, "deeper"),
				tailSpace(2, 7, []int{5, 20000}, "deep"), tailSpace(4, 7, []int{3, 60}, "nests")}
			return append(sp, refSpaces([]*coreFam{famIter(6), famRecur(5), famTail(4)})...)
		}
		return append(refSpaces([]*coreFam{famTail(3), famIter(5), famRecur(4)}),
			tailSpace(3, 7, []int{3, 40, 150}, "nests"), tailSpace(2, 7, []int{5, 3000}, "deep"), tailSpace(0, 7, []int{5, 100000}, "deepest"))
	}})
}
