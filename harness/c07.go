package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C07: every operator on every pair of a boundary grid, against math/big.

type num struct {
	k byte // i u c f
	i int64
	u uint64
	f float64
}

func (n num) sexp() zygo.Sexp {
	switch n.k {
	case 'i':
		return &zygo.SexpInt{Val: n.i}
	case 'u':
		return &zygo.SexpUint64{Val: n.u}
	case 'c':
		return &zygo.SexpChar{Val: rune(n.i)}
	}
	return &zygo.SexpFloat{Val: n.f}
}

// lit is a source spelling, "" if there is none.
func (n num) lit() string {
	switch n.k {
	case 'i':
		return strconv.FormatInt(n.i, 10)
	case 'u':
		return strconv.FormatUint(n.u, 10) + "ULL"
	case 'c':
		if n.i >= 'A' && n.i <= 'z' {
			return "'" + string(rune(n.i)) + "'"
		}
		return ""
	}
	if math.IsNaN(n.f) {
		return "NaN"
	}
	if math.IsInf(n.f, 1) {
		return "Inf"
	}
	if math.IsInf(n.f, -1) {
		return "-Inf"
	}
	return fmtFloat(n.f)
}

func (n num) String() string {
	switch n.k {
	case 'i':
		return fmt.Sprintf("int:%d", n.i)
	case 'u':
		return fmt.Sprintf("uint64:%d", n.u)
	case 'c':
		return fmt.Sprintf("char:%d", n.i)
	}
	return fmt.Sprintf("float:%v", n.f)
}

func (n num) big() *big.Int {
	if n.k == 'u' {
		return new(big.Int).SetUint64(n.u)
	}
	return big.NewInt(n.i)
}

func (n num) float() float64 {
	switch n.k {
	case 'f':
		return n.f
	case 'u':
		return float64(n.u)
	}
	return float64(n.i)
}

func nI(v int64) num   { return num{k: 'i', i: v} }
func nU(v uint64) num  { return num{k: 'u', u: v} }
func nC(v int64) num   { return num{k: 'c', i: v} }
func nF(v float64) num { return num{k: 'f', f: v} }

// order is the specified comparison; ok=false: unordered (NaN).
// specified=false: the statement says nothing about this type combination.
func numOrder(a, b num) (cmp int, ordered, specified bool) {
	if a.k == 'f' || b.k == 'f' {
		if a.k == 'u' || b.k == 'u' {
			return 0, false, false
		}
		x, y := a.float(), b.float()
		if x != x || y != y {
			return 0, false, true
		}
		switch {
		case x < y:
			return -1, true, true
		case x > y:
			return 1, true, true
		}
		return 0, true, true
	}
	if (a.k == 'u') != (b.k == 'u') {
		return 0, false, false
	}
	return a.big().Cmp(b.big()), true, true
}

var cmpOps = []string{"<", ">", "<=", ">=", "==", "!="}

func cmpWant(op string, cmp int, ordered bool) bool {
	if !ordered {
		return op == "!="
	}
	switch op {
	case "<":
		return cmp < 0
	case ">":
		return cmp > 0
	case "<=":
		return cmp <= 0
	case ">=":
		return cmp >= 0
	case "==":
		return cmp == 0
	}
	return cmp != 0
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)
var two63 = new(big.Int).Lsh(big.NewInt(1), 63)

func wrapBig(z *big.Int, k byte) num {
	z = new(big.Int).Mod(z, two64)
	switch k {
	case 'u':
		return nU(z.Uint64())
	case 'c':
		return nC(int64(int32(uint32(z.Uint64()))))
	}
	if z.Cmp(two63) >= 0 {
		z.Sub(z, two64)
	}
	return nI(z.Int64())
}

func fdump(f float64) string { return Dump(&zygo.SexpFloat{Val: f}) }

// arithWant lists the acceptable outcomes (canonical text) of (op a b); nil: unspecified.
func arithWant(op string, a, b num) []string {
	if a.k == 'f' || b.k == 'f' {
		x, y := a.float(), b.float()
		var r float64
		switch op {
		case "+":
			r = x + y
		case "-":
			r = x - y
		case "*":
			r = x * y
		case "/":
			r = x / y
			if y == 0 {
				return []string{"val:" + fdump(r), "err"}
			}
		case "mod":
			return []string{"err"} // modulo is an integer operation
		case "**":
			r = math.Pow(x, y)
		}
		return []string{"val:" + fdump(r)}
	}
	// integer operands: the wider kind decides (uint64 > int > char)
	k := byte('c')
	if a.k == 'i' || b.k == 'i' {
		k = 'i'
	}
	if a.k == 'u' || b.k == 'u' {
		k = 'u'
	}
	A, B := a.big(), b.big()
	if k == 'u' {
		A, B = wrapBig(A, 'u').big(), wrapBig(B, 'u').big()
	}
	rk := k
	if k == 'c' || (a.k == 'c' && k == 'i') {
		rk = 'c'
	}
	v := func(z *big.Int) []string {
		w := []string{"val:" + Dump(wrapBig(z, rk).sexp())}
		if rk == 'c' {
			// the kind of the result of integer arithmetic on a char is not part of the statement
			w = append(w, "val:"+Dump(wrapBig(z, 'i').sexp()))
		}
		return w
	}
	switch op {
	case "+":
		return v(new(big.Int).Add(A, B))
	case "-":
		return v(new(big.Int).Sub(A, B))
	case "*":
		return v(new(big.Int).Mul(A, B))
	case "/":
		if B.Sign() == 0 {
			return []string{"err"}
		}
		q, m := new(big.Int).QuoRem(A, B, new(big.Int))
		if m.Sign() == 0 {
			w := v(q)
			if q.Cmp(two63) == 0 && k != 'u' { // min / -1: wraps, or exact in floating point
				w = append(w, "val:"+fdump(9223372036854775808.0))
			}
			return w
		}
		fa, _ := new(big.Float).SetInt(A).Float64()
		fb, _ := new(big.Float).SetInt(B).Float64()
		return []string{"val:" + fdump(fa/fb)}
	case "mod":
		if B.Sign() == 0 {
			return []string{"err"}
		}
		z := new(big.Int).Rem(A, B)
		w := []string{"val:" + Dump(wrapBig(z, k).sexp())}
		if k == 'c' {
			w = []string{"val:" + Dump(wrapBig(z, 'i').sexp()), "val:" + Dump(wrapBig(z, 'c').sexp())}
		}
		return w
	}
	return nil
}

func c07Grid() []num {
	var g []num
	ints := []int64{0, 1, 2, 3, 5, 7, 10, 97, 255, 1 << 31, 1<<31 - 1, 1 << 32, 3037000499, 3037000500, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1 << 62, 1<<62 + 1, math.MaxInt64 - 1, math.MaxInt64}
	for _, v := range ints {
		g = append(g, nI(v))
		if v != 0 {
			g = append(g, nI(-v))
		}
	}
	g = append(g, nI(math.MinInt64), nI(math.MinInt64+2))
	for _, v := range []uint64{0, 1, 2, 3, 97, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64, 1<<64 - 1<<10, 6148914691236517205} {
		g = append(g, nU(v))
	}
	for _, v := range []int64{'a', 'A', '0', 0, 1, 0x10ffff, math.MaxInt32, math.MinInt32, -1} {
		g = append(g, nC(v))
	}
	for _, v := range []float64{0, 0.5, 1, 1.5, 2, 3, 97, 1e10, 1<<53 - 1, 1 << 53, 1<<53 + 2, 1 << 62, 1 << 63, 1 << 64, 9223372036854774784, 5e-324, 2.2250738585072014e-308, 1e-300, math.MaxFloat64, math.Inf(1), 0.1, 1.0000000000000002} {
		g = append(g, nF(v), nF(-v))
	}
	g[len(g)-1] = nF(-1.0000000000000002)
	for i := range g {
		if g[i].k == 'f' && g[i].f == 0 {
			g[i].f = 0
		}
	}
	g = append(g, nF(math.Copysign(0, -1)), nF(math.NaN()))
	return g
}

// dense grid: +-2^i + {-1,0,1} for ints, uints; mantissa/exponent patterns for floats
func c07Dense(kind byte) []num {
	var g []num
	switch kind {
	case 'i':
		seen := map[int64]bool{}
		for i := 0; i < 64; i++ {
			for _, d := range []int64{-1, 0, 1} {
				v := int64(uint64(1)<<uint(i)) + d
				for _, w := range []int64{v, -v} {
					if !seen[w] {
						seen[w] = true
						g = append(g, nI(w))
					}
				}
			}
		}
	case 'u':
		seen := map[uint64]bool{}
		for i := 0; i < 64; i++ {
			for _, d := range []uint64{^uint64(0), 0, 1} {
				v := uint64(1)<<uint(i) + d
				for _, w := range []uint64{v, ^v} {
					if !seen[w] {
						seen[w] = true
						g = append(g, nU(w))
					}
				}
			}
		}
	case 'f':
		for _, e := range []uint64{0, 1, 2, 51, 1000, 1022, 1023, 1024, 1025, 1074, 1075, 1076, 1085, 1086, 1087, 2045, 2046, 2047} {
			for _, m := range []uint64{0, 1, 2, 1 << 51, 1<<52 - 1, 1<<52 - 2} {
				for _, s := range []uint64{0, 1} {
					f := math.Float64frombits(s<<63 | e<<52 | m)
					g = append(g, nF(f))
				}
			}
		}
	case 'c':
		for i := 0; i < 32; i++ {
			v := int64(1) << uint(i)
			for _, w := range []int64{v, -v, v - 1} {
				if w >= math.MinInt32 && w <= math.MaxInt32 {
					g = append(g, nC(w))
				}
			}
		}
	}
	return g
}

func inList(s string, l []string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

func c07Case(env *zygo.Zlisp, r *Rec, route string, a, b num, eval func(op string) (Out, string)) {
	cmp, ordered, spec := numOrder(a, b)
	res := map[string]Out{}
	for _, op := range cmpOps {
		o, src := eval(op)
		res[op] = o
		r.Validated++
		r.State(op + string(a.k) + string(b.k) + o.Class())
		if o.Kind == "panic" || o.Kind == "steps" {
			r.Violate("cmp "+o.Kind, src, fmt.Sprintf("a=%v b=%v gave %s", a, b, o))
			continue
		}
		if !spec {
			continue
		}
		want := "val:" + strconv.FormatBool(cmpWant(op, cmp, ordered))
		if o.String() != want {
			r.Violate("compare "+string(a.k)+op+string(b.k), src, fmt.Sprintf("a=%v b=%v: (%s a b) gave %s, specified %s", a, b, op, o, want))
		}
	}
	if !spec && !(a.k == 'f' && a.f != a.f) && !(b.k == 'f' && b.f != b.f) {
		// a combination without a specified order: either rejected by every
		// operator, or exactly one of <, ==, > holds
		n, e := 0, 0
		for _, op := range []string{"<", "==", ">"} {
			if res[op].Kind == "err" {
				e++
			} else if res[op].String() == "val:true" {
				n++
			}
		}
		if !(e == 3 || (e == 0 && n == 1)) {
			r.Violate("trichotomy "+string(a.k)+string(b.k), route, fmt.Sprintf("a=%v b=%v: < %s, == %s, > %s", a, b, res["<"], res["=="], res[">"]))
		}
	}
	for _, op := range []string{"+", "-", "*", "/", "mod", "**"} {
		o, src := eval(op)
		r.Validated++
		got := o.Class()
		r.State(op + string(a.k) + string(b.k) + o.Kind)
		if o.Kind == "panic" || o.Kind == "steps" {
			r.Violate("arith "+o.Kind, src, fmt.Sprintf("a=%v b=%v gave %s", a, b, o))
			continue
		}
		want := arithWant(op, a, b)
		if want == nil {
			continue
		}
		if !inList(got, want) {
			r.Violate("arith "+string(a.k)+op+string(b.k), src, fmt.Sprintf("a=%v b=%v: (%s a b) gave %s, specified %s", a, b, op, o, strings.Join(want, " or ")))
		}
	}
}

func init() {
	register(&PropDef{ID: "C07", Assume: []string{
		"operands outside the enumerated boundary grids are not explored",
		"comparisons between uint64 and other kinds are not specified by the statement: only 'rejected everywhere or trichotomous' is required",
		"int/uint/char ** is not specified by the statement and only checked not to crash",
	}, Spaces: func(tier string) []*Space {
		var out []*Space
		grid := c07Grid()
		ng := len(grid)
		var env *zygo.Zlisp
		uses := 0
		fresh := func() *zygo.Zlisp {
			if env == nil || uses > 400 {
				env = NewStd()
				uses = 0
			}
			uses++
			return env
		}
		pairs := func(name string, g1, g2 []num, both bool) *Space {
			n2 := len(g2)
			return &Space{Name: name, Size: prodSize(len(g1), n2), Bound: fmt.Sprintf("all %d x %d operand pairs x 12 operators", len(g1), n2),
				Desc: func(i uint64) string { return fmt.Sprint(g1[i/uint64(n2)], " ", g2[i%uint64(n2)]) },
				Run: func(i uint64, r *Rec) {
					a, b := g1[i/uint64(n2)], g2[i%uint64(n2)]
					e := fresh()
					e.AddGlobal("a", a.sexp())
					e.AddGlobal("b", b.sexp())
					c07Case(e, r, "a b", a, b, func(op string) (Out, string) {
						src := "(" + op + " a b)"
						return Eval(e, src), fmt.Sprintf("a=%v b=%v %s", a, b, src)
					})
					if a.k == b.k || !both {
						return
					}
				}}
		}
		out = append(out, pairs("grid-vars", grid, grid, true))
		out = append(out, &Space{Name: "grid-literals", Size: prodSize(ng, ng), Bound: "all operand pairs written as source literals",
			Run: func(i uint64, r *Rec) {
				a, b := grid[i/uint64(ng)], grid[i%uint64(ng)]
				la, lb := a.lit(), b.lit()
				if la == "" || lb == "" {
					return
				}
				e := fresh()
				c07Case(e, r, la+" "+lb, a, b, func(op string) (Out, string) {
					if la == "Inf" && (op == "+" || op == "-") {
						la = "+Inf" // "- Inf" is one documented literal
					}
					src := "(" + op + " " + la + " " + lb + ")"
					return Eval(e, src), src
				})
			}})
		out = append(out, &Space{Name: "grid-infix", Size: prodSize(ng, ng), Bound: "all operand pairs in infix form {a op b}",
			Run: func(i uint64, r *Rec) {
				a, b := grid[i/uint64(ng)], grid[i%uint64(ng)]
				e := fresh()
				e.AddGlobal("a", a.sexp())
				e.AddGlobal("b", b.sexp())
				c07Case(e, r, "infix", a, b, func(op string) (Out, string) {
					src := "{a " + op + " b}"
					return Eval(e, src), fmt.Sprintf("a=%v b=%v %s", a, b, src)
				})
			}})
		out = append(out, &Space{Name: "grid-selectors", Size: prodSize(ng, ng), Bound: "all operand pairs read through an array index and a hash field in infix form",
			Run: func(i uint64, r *Rec) {
				a, b := grid[i/uint64(ng)], grid[i%uint64(ng)]
				e := fresh()
				e.AddGlobal("v", &zygo.SexpArray{Val: []zygo.Sexp{a.sexp()}})
				e.AddGlobal("b", b.sexp())
				Eval(e, "(def w (hash z:b))")
				c07Case(e, r, "selectors", a, b, func(op string) (Out, string) {
					src := "{v[0] " + op + " w.z}"
					if op == "mod" {
						src = "(mod v[0] w.z)"
						return Eval(e, "{x := v[0]; y := w.z; (mod x y)}"), src
					}
					return Eval(e, src), fmt.Sprintf("v=[%v] w.z=%v %s", a, b, src)
				})
			}})
		// longer argument lists: (op a b c) folds from the left
		sub := []num{nI(0), nI(1), nI(-1), nI(2), nI(3), nI(math.MaxInt64), nI(math.MinInt64), nU(1), nU(math.MaxUint64), nU(3), nC('a'), nF(0.5), nF(-0.0), nF(1 << 53), nF(math.Inf(1)), nF(math.NaN()), nF(math.MaxFloat64), nI(1<<53 + 1)}
		ns := len(sub)
		out = append(out, &Space{Name: "fold3", Size: prodSize(ns, ns, ns), Bound: fmt.Sprintf("all triples over %d operands x + - * /", ns),
			Run: func(i uint64, r *Rec) {
				d := Radix(i, ns, ns, ns)
				a, b, c := sub[d[0]], sub[d[1]], sub[d[2]]
				e := fresh()
				e.AddGlobal("a", a.sexp())
				e.AddGlobal("b", b.sexp())
				e.AddGlobal("c", c.sexp())
				for _, op := range []string{"+", "-", "*", "/"} {
					o := Eval(e, "("+op+" a b c)")
					w := Eval(e, "("+op+" ("+op+" a b) c)")
					r.Validated++
					if o.Class() != w.Class() {
						r.Violate("fold "+op, fmt.Sprintf("a=%v b=%v c=%v (%s a b c)", a, b, c, op), fmt.Sprintf("gave %s, but nested %s", o, w))
					}
				}
			}})
		for _, k := range []byte{'i', 'u', 'c', 'f'} {
			d := c07Dense(k)
			out = append(out, pairs("dense-"+string(k), d, d, false))
		}
		{
			di, du, df, dc := c07Dense('i'), c07Dense('u'), c07Dense('f'), c07Dense('c')
			out = append(out, pairs("dense-if", di, df, false), pairs("dense-fi", df, di, false), pairs("dense-iu", di, du, false), pairs("dense-ui", du, di, false),
				pairs("dense-uf", du, df, false), pairs("dense-fu", df, du, false), pairs("dense-cf", dc, df, false), pairs("dense-fc", df, dc, false), pairs("dense-ci", dc, di, false), pairs("dense-ic", di, dc, false))
		}
		return out
	}})
}
