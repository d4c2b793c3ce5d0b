package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Ref is a direct reference evaluator for the core language: environments are
// chains of scopes, functions are pairs of code and environment, and evaluation
// is plain recursion over the program text.  It shares nothing with the
// implementation (no bytecode, no scope stack, no snapshots, no tail calls).
type Ref struct {
	Log      []string
	Steps    int
	Max      int
	Depth    int
	MaxDepth int
	global   *rScope
	// FailAt makes the FailAt-th host call (counted from 1) fail.
	FailAt   int
	FailKind string
	Hosts    int
	// NoBoom: the function boom exists
	noType bool
}

type RVal interface{}

type (
	rChar rune
	rNil  struct{}
	rSym  string
	rPair struct{ h, t RVal }
	rArr  struct{ v []RVal }
	rHash struct {
		keys []string
		kv   map[string]RVal
		kk   map[string]RVal
	}
	rFn struct {
		name   string
		params []string
		lazy   []bool
		rest   string
		restLz bool
		body   []*N
		env    *rScope
		isRest bool
	}
	rBuiltin struct {
		name string
		f    func(m *Ref, a []RVal) RVal
	}
	rLazy struct {
		n      *N
		env    *rScope
		forced bool
		val    RVal
		busy   bool
	}
)

type rScope struct {
	vars map[string]RVal
	up   *rScope
}

type (
	rErr   struct{ msg string }
	rBreak struct{ label string }
	rCont  struct{ label string }
	rStop  struct{} // out of steps
	rUnsup struct{ msg string }
)

func NewRef() *Ref {
	m := &Ref{Max: 20000, MaxDepth: 3000}
	m.global = &rScope{vars: map[string]RVal{}}
	return m
}

func rfail(f string, a ...interface{}) RVal { panic(rErr{fmt.Sprintf(f, a...)}) }
func unsup(s string) RVal                   { panic(rUnsup{s}) }

// ROut is the outcome of the reference: Kind "val", "err", "steps", "unsup".
type ROut struct {
	Kind, S string
	V       RVal
}

func (m *Ref) guard(f func() RVal) (o ROut) {
	defer func() {
		if p := recover(); p != nil {
			switch e := p.(type) {
			case rErr:
				o = ROut{Kind: "err", S: e.msg}
			case rStop:
				o = ROut{Kind: "steps"}
			case rUnsup:
				o = ROut{Kind: "unsup", S: e.msg}
			case rBreak, rCont:
				o = ROut{Kind: "unsup", S: "stray break"}
			default:
				panic(p)
			}
		}
	}()
	v := f()
	return ROut{Kind: "val", V: v, S: RDump(v)}
}

// Run evaluates top-level forms in order.
func (m *Ref) Run(forms []*N) ROut {
	m.Steps = 0
	m.Depth = 0
	for _, f := range forms {
		if strayLoop(f, nil) {
			return ROut{Kind: "unsup", S: "stray break"}
		}
	}
	return m.guard(func() RVal {
		var v RVal = rNil{}
		for _, f := range forms {
			v = m.eval(f, m.global)
		}
		return v
	})
}

func RDump(v RVal) string {
	var b strings.Builder
	rdump(&b, v, 0)
	return b.String()
}

func rdump(b *strings.Builder, v RVal, d int) {
	if d > 200 {
		b.WriteString("...")
		return
	}
	switch x := v.(type) {
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float64:
		if math.IsNaN(x) {
			b.WriteString("f:NaN")
		} else {
			b.WriteString("f:" + strconv.FormatFloat(x, 'g', -1, 64))
		}
	case string:
		b.WriteString(strconv.QuoteToASCII(x))
	case rChar:
		b.WriteString("c:" + strconv.FormatInt(int64(x), 10))
	case rSym:
		b.WriteString("'" + string(x))
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case rNil:
		b.WriteString("nil")
	case *rPair:
		b.WriteByte('(')
		n := 0
		var cur RVal = x
		for {
			p, ok := cur.(*rPair)
			if !ok {
				break
			}
			if n > 0 {
				b.WriteByte(' ')
			}
			rdump(b, p.h, d+1)
			cur = p.t
			n++
		}
		if _, ok := cur.(rNil); !ok {
			b.WriteString(" . ")
			rdump(b, cur, d+1)
		}
		b.WriteByte(')')
	case *rArr:
		b.WriteByte('[')
		for i, e := range x.v {
			if i > 0 {
				b.WriteByte(' ')
			}
			rdump(b, e, d+1)
		}
		b.WriteByte(']')
	case *rHash:
		b.WriteString("{hash")
		for _, k := range x.keys {
			b.WriteByte(' ')
			rdump(b, x.kk[k], d+1)
			b.WriteByte(':')
			rdump(b, x.kv[k], d+1)
		}
		b.WriteByte('}')
	case *rFn, *rBuiltin:
		b.WriteString("fn")
	case *rLazy:
		b.WriteString("<*zygo.SexpLazyArg>")
	default:
		b.WriteString(fmt.Sprintf("<%T>", v))
	}
}

func rtruthy(v RVal) bool {
	switch x := v.(type) {
	case bool:
		return x
	case int64:
		return x != 0
	case rChar:
		return x != 0
	case rNil:
		return false
	}
	return true
}

// rtype is the type under which a variable remembers its value ("" untyped).
func rtype(v RVal) string {
	switch x := v.(type) {
	case int64:
		return "int64"
	case float64:
		return "float64"
	case string:
		return "string"
	case rChar:
		return "int32"
	case bool:
		return "bool"
	case rSym:
		return "symbol"
	case *rHash:
		return "hash"
	case *rArr:
		if len(x.v) == 0 {
			return "[]"
		}
		t := rtype(x.v[0])
		if t == "" {
			return ""
		}
		return "[]" + t
	}
	return ""
}

func (m *Ref) bind(sc *rScope, name string, v RVal) {
	if old, ok := sc.vars[name]; ok && !m.noType {
		l, r := rtype(old), rtype(v)
		if l != "" && r != "" && l != r {
			if strings.HasPrefix(l, "[") || strings.HasPrefix(r, "[") {
				unsup("array variable changes type")
			}
			rfail("cannot assign %s to %s", r, l)
		}
		if _, isA := old.(*rArr); isA && l == "" && r != "" {
			unsup("array variable changes type")
		}
	}
	sc.vars[name] = v
}

func (sc *rScope) find(name string) *rScope {
	for s := sc; s != nil; s = s.up {
		if _, ok := s.vars[name]; ok {
			return s
		}
	}
	return nil
}

func (m *Ref) lookup(name string, sc *rScope) RVal {
	if s := sc.find(name); s != nil {
		return s.vars[name]
	}
	switch name {
	case "nil", "null":
		return rNil{}
	}
	if b, ok := rBuiltins[name]; ok {
		return b
	}
	return rfail("symbol `%s` not found", name)
}

// rquote turns program text into data.
func rquote(n *N) RVal {
	switch n.K {
	case NList:
		var v RVal = rNil{}
		for i := len(n.L) - 1; i >= 0; i-- {
			v = &rPair{rquote(n.L[i]), v}
		}
		return v
	case NArr:
		unsup("quoted array is code") // (array ...) once evaluated
	case NInt:
		return n.I
	case NFloat:
		return n.F
	case NStr:
		return n.S
	case NChar:
		return rChar(rune(n.I))
	case NSym:
		return rSym(n.S)
	case NBool:
		return n.I != 0
	case NNil:
		return rNil{}
	}
	return unsup("quote")
}

func (m *Ref) seq(body []*N, sc *rScope) RVal {
	var v RVal = rNil{}
	for _, f := range body {
		v = m.eval(f, sc)
	}
	return v
}

func (m *Ref) eval(n *N, sc *rScope) RVal {
	m.Steps++
	if m.Steps > m.Max {
		panic(rStop{})
	}
	m.Depth++
	defer func() { m.Depth-- }()
	if m.Depth > m.MaxDepth {
		panic(rStop{})
	}
	switch n.K {
	case NInt:
		return n.I
	case NFloat:
		return n.F
	case NStr:
		return n.S
	case NChar:
		return rChar(rune(n.I))
	case NBool:
		return n.I != 0
	case NNil:
		return rNil{}
	case NSym:
		return m.lookup(n.S, sc)
	case NArr:
		a := &rArr{}
		for _, e := range n.L {
			a.v = append(a.v, m.eval(e, sc))
		}
		return a
	case NRaw:
		return unsup("raw text")
	}
	if len(n.L) == 0 {
		return rNil{}
	}
	if n.L[0].K == NSym {
		if f, ok := rSpecials[n.L[0].S]; ok {
			return f(m, n.L[1:], sc)
		}
	}
	callee := m.eval(n.L[0], sc)
	return m.call(callee, n.L[1:], sc)
}

func (m *Ref) call(callee RVal, args []*N, sc *rScope) RVal {
	switch f := callee.(type) {
	case *rBuiltin:
		vs := make([]RVal, len(args))
		for i, a := range args {
			vs[i] = m.eval(a, sc)
		}
		return f.f(m, vs)
	case *rFn:
		vs := make([]RVal, len(args))
		for i, a := range args {
			if f.isLazy(i) {
				vs[i] = &rLazy{n: a, env: sc}
			} else {
				vs[i] = m.eval(a, sc)
			}
		}
		return m.invoke(f, vs)
	case *rArr:
		unsup("array as callee")
	case rSym:
		unsup("symbol as callee")
	}
	return rfail("not a function")
}

func (f *rFn) isLazy(i int) bool {
	if i < len(f.params) {
		return f.lazy[i]
	}
	return f.isRest && f.restLz
}

// invoke binds already prepared arguments in a fresh scope and runs the body.
func (m *Ref) invoke(f *rFn, vs []RVal) RVal {
	m.Steps++
	if len(vs) < len(f.params) || (!f.isRest && len(vs) > len(f.params)) {
		rfail("wrong number of arguments to %s", f.name)
	}
	sc := &rScope{vars: map[string]RVal{}, up: f.env}
	for i, p := range f.params {
		sc.vars[p] = vs[i]
	}
	if f.isRest {
		var l RVal = rNil{}
		for i := len(vs) - 1; i >= len(f.params); i-- {
			l = &rPair{vs[i], l}
		}
		sc.vars[f.rest] = l
	}
	return m.seq(f.body, sc)
}

// apply calls with values, as apply and map do.
func (m *Ref) apply(fv RVal, vs []RVal) RVal {
	switch f := fv.(type) {
	case *rBuiltin:
		return f.f(m, vs)
	case *rFn:
		ws := make([]RVal, len(vs))
		for i, v := range vs {
			if f.isLazy(i) {
				ws[i] = &rLazy{forced: true, val: v}
			} else {
				ws[i] = v
			}
		}
		return m.invoke(f, ws)
	}
	return rfail("first argument must be function")
}

func (m *Ref) force(l *rLazy) RVal {
	if l.forced {
		return l.val
	}
	if l.busy {
		panic(rStop{})
	}
	l.busy = true
	defer func() { l.busy = false }()
	l.val = m.eval(l.n, l.env)
	l.forced = true
	return l.val
}

func (m *Ref) makeFn(name string, params *N, body []*N, sc *rScope) *rFn {
	f := &rFn{name: name, body: body, env: sc}
	for i := 0; i < len(params.L); i++ {
		p := params.L[i].S
		if p == "&" {
			f.isRest = true
			f.rest = params.L[i+1].S
			if strings.HasPrefix(f.rest, "#") {
				f.restLz = true
			}
			break
		}
		lz := strings.HasPrefix(p, "#")
		f.lazy = append(f.lazy, lz)
		f.params = append(f.params, p)
	}
	return f
}

var rSpecials map[string]func(m *Ref, a []*N, sc *rScope) RVal

func rloop(m *Ref, label string, ctl *N, body []*N, sc *rScope) RVal {
	ls := &rScope{vars: map[string]RVal{}, up: sc}
	m.eval(ctl.L[0], ls)
	for {
		if !rtruthy(m.eval(ctl.L[1], ls)) {
			return rNil{}
		}
		brk := func() (brk bool) {
			defer func() {
				if p := recover(); p != nil {
					switch e := p.(type) {
					case rBreak:
						if e.label == "" || e.label == label {
							brk = true
							return
						}
					case rCont:
						if e.label == "" || e.label == label {
							return
						}
					}
					panic(p)
				}
			}()
			d := m.Depth
			m.seq(body, ls)
			m.Depth = d
			return false
		}()
		if brk {
			return rNil{}
		}
		m.eval(ctl.L[2], ls)
	}
}

func init() {
	rSpecials = map[string]func(m *Ref, a []*N, sc *rScope) RVal{
		"quote": func(m *Ref, a []*N, sc *rScope) RVal { return rquote(a[0]) },
		"def": func(m *Ref, a []*N, sc *rScope) RVal {
			v := m.eval(a[1], sc)
			m.bind(sc, a[0].S, v)
			return v
		},
		"set": func(m *Ref, a []*N, sc *rScope) RVal {
			v := m.eval(a[1], sc)
			if s := sc.find(a[0].S); s != nil {
				s.vars[a[0].S] = v
			} else {
				m.bind(sc, a[0].S, v)
			}
			return v
		},
		"mdef": func(m *Ref, a []*N, sc *rScope) RVal {
			n := len(a) - 1
			v := m.eval(a[n], sc)
			var vs []RVal
			for cur := v; ; {
				p, ok := cur.(*rPair)
				if !ok {
					break
				}
				vs = append(vs, p.h)
				cur = p.t
			}
			if len(vs) < n {
				rfail("mdef: not enough values")
			}
			for i := 0; i < n; i++ {
				m.bind(sc, a[i].S, vs[i])
			}
			return v
		},
		"fn": func(m *Ref, a []*N, sc *rScope) RVal { return m.makeFn("", a[0], a[1:], sc) },
		"defn": func(m *Ref, a []*N, sc *rScope) RVal {
			m.bind(sc, a[0].S, m.makeFn(a[0].S, a[1], a[2:], sc))
			return rNil{}
		},
		"begin": func(m *Ref, a []*N, sc *rScope) RVal { return m.seq(a, sc) },
		"newScope": func(m *Ref, a []*N, sc *rScope) RVal {
			return m.seq(a, &rScope{vars: map[string]RVal{}, up: sc})
		},
		"let": func(m *Ref, a []*N, sc *rScope) RVal {
			ns := &rScope{vars: map[string]RVal{}, up: sc}
			b := a[0].L
			vs := make([]RVal, len(b)/2)
			for i := range vs {
				vs[i] = m.eval(b[2*i+1], ns)
			}
			for i := len(vs) - 1; i >= 0; i-- {
				m.bind(ns, b[2*i].S, vs[i])
			}
			return m.seq(a[1:], ns)
		},
		"letseq": func(m *Ref, a []*N, sc *rScope) RVal {
			ns := &rScope{vars: map[string]RVal{}, up: sc}
			b := a[0].L
			for i := 0; i+1 < len(b); i += 2 {
				m.bind(ns, b[i].S, m.eval(b[i+1], ns))
			}
			return m.seq(a[1:], ns)
		},
		"cond": func(m *Ref, a []*N, sc *rScope) RVal {
			i := 0
			for ; i+1 < len(a); i += 2 {
				if rtruthy(m.eval(a[i], sc)) {
					return m.eval(a[i+1], sc)
				}
			}
			return m.eval(a[i], sc)
		},
		"and": func(m *Ref, a []*N, sc *rScope) RVal {
			var v RVal
			for _, e := range a {
				if v = m.eval(e, sc); !rtruthy(v) {
					return v
				}
			}
			return v
		},
		"or": func(m *Ref, a []*N, sc *rScope) RVal {
			var v RVal
			for _, e := range a {
				if v = m.eval(e, sc); rtruthy(v) {
					return v
				}
			}
			return v
		},
		"for": func(m *Ref, a []*N, sc *rScope) RVal {
			if a[0].K == NArr {
				return rloop(m, "", a[0], a[1:], sc)
			}
			return rloop(m, strings.TrimSuffix(a[0].S, ":"), a[1], a[2:], sc)
		},
		"break": func(m *Ref, a []*N, sc *rScope) RVal {
			l := ""
			if len(a) > 0 {
				l = strings.TrimSuffix(a[0].S, ":")
			}
			panic(rBreak{l})
		},
		"continue": func(m *Ref, a []*N, sc *rScope) RVal {
			l := ""
			if len(a) > 0 {
				l = strings.TrimSuffix(a[0].S, ":")
			}
			panic(rCont{l})
		},
		"assert": func(m *Ref, a []*N, sc *rScope) RVal {
			if !rtruthy(m.eval(a[0], sc)) {
				rfail("assertion failed")
			}
			return rNil{}
		},
	}
}

// ------------------------------------------------------------- builtins

var rBuiltins = map[string]*rBuiltin{}

func rdef(name string, f func(m *Ref, a []RVal) RVal) {
	rBuiltins[name] = &rBuiltin{name, f}
}

func rlist(vs []RVal) RVal {
	var l RVal = rNil{}
	for i := len(vs) - 1; i >= 0; i-- {
		l = &rPair{vs[i], l}
	}
	return l
}

func rslice(v RVal) ([]RVal, bool) {
	switch x := v.(type) {
	case *rArr:
		return append([]RVal{}, x.v...), true
	case *rPair:
		var out []RVal
		var cur RVal = x
		for {
			p, ok := cur.(*rPair)
			if !ok {
				break
			}
			out = append(out, p.h)
			cur = p.t
		}
		if _, ok := cur.(rNil); !ok {
			return nil, false
		}
		return out, true
	}
	return nil, false
}

func rarith(op byte, a, b RVal) RVal {
	if _, ok := a.(rChar); ok {
		return unsup("char arithmetic")
	}
	if _, ok := b.(rChar); ok {
		return unsup("char arithmetic")
	}
	ia, aok := a.(int64)
	ib, bok := b.(int64)
	fa, afl := a.(float64)
	fb, bfl := b.(float64)
	if !(aok || afl) || !(bok || bfl) {
		return rfail("operands have invalid type")
	}
	if aok && bok {
		switch op {
		case '+':
			return ia + ib
		case '-':
			return ia - ib
		case '*':
			return ia * ib
		case '/':
			if ib == 0 {
				return rfail("division by zero")
			}
			if ia%ib == 0 {
				return ia / ib
			}
			return float64(ia) / float64(ib)
		}
	}
	if aok {
		fa = float64(ia)
	}
	if bok {
		fb = float64(ib)
	}
	switch op {
	case '+':
		return fa + fb
	case '-':
		return fa - fb
	case '*':
		return fa * fb
	}
	return fa / fb
}

// rcmp: -1, 0, 1; 2 unordered; error for kinds that have no order.
func rcmp(a, b RVal) int {
	sg := func(lt, gt bool) int {
		if lt {
			return -1
		}
		if gt {
			return 1
		}
		return 0
	}
	num := func(v RVal) (float64, bool) {
		switch x := v.(type) {
		case int64:
			return float64(x), true
		case float64:
			return x, true
		case rChar:
			return float64(x), true
		}
		return 0, false
	}
	in := func(v RVal) (int64, bool) {
		switch x := v.(type) {
		case int64:
			return x, true
		case rChar:
			return int64(x), true
		}
		return 0, false
	}
	if x, ok := in(a); ok {
		if y, ok := in(b); ok {
			return sg(x < y, x > y)
		}
	}
	if x, ok := num(a); ok {
		y, ok := num(b)
		if !ok {
			rfail("cannot compare")
		}
		if math.IsNaN(x) || math.IsNaN(y) {
			return 2
		}
		return sg(x < y, x > y)
	}
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		if !ok {
			rfail("cannot compare")
		}
		return strings.Compare(x, y)
	case bool:
		y, ok := b.(bool)
		if !ok {
			rfail("cannot compare")
		}
		return sg(!x && y, x && !y)
	case rSym:
		y, ok := b.(rSym)
		if !ok {
			rfail("cannot compare")
		}
		if x == y {
			return 0
		}
		return 3 // unequal, order unspecified
	case rNil:
		if _, ok := b.(rNil); ok {
			return 0
		}
		return -1
	case *rPair:
		y, ok := b.(*rPair)
		if !ok {
			rfail("cannot compare")
		}
		if c := rcmp(x.h, y.h); c != 0 {
			return c
		}
		return rcmp(x.t, y.t)
	case *rArr:
		y, ok := b.(*rArr)
		if !ok {
			rfail("cannot compare")
		}
		for i := 0; i < len(x.v) && i < len(y.v); i++ {
			if c := rcmp(x.v[i], y.v[i]); c != 0 {
				return c
			}
		}
		return sg(len(x.v) < len(y.v), len(x.v) > len(y.v))
	}
	unsup("comparison")
	return 0
}

func rhkey(k RVal) string {
	switch x := k.(type) {
	case int64, string, rSym:
		return fmt.Sprintf("%T:%v", x, x)
	}
	unsup("hash key")
	return ""
}

func nargs(a []RVal, lo, hi int) {
	if len(a) < lo || (hi >= 0 && len(a) > hi) {
		rfail("wrong number of arguments")
	}
}

func init() {
	for _, op := range []byte{'+', '-', '*', '/'} {
		op := op
		rdef(string(op), func(m *Ref, a []RVal) RVal {
			nargs(a, 1, -1)
			if op == '*' && len(a) == 1 {
				return unsup("unary *")
			}
			v := a[0]
			for _, b := range a[1:] {
				v = rarith(op, v, b)
			}
			return v
		})
	}
	rdef("mod", func(m *Ref, a []RVal) RVal {
		nargs(a, 2, 2)
		x, ok := a[0].(int64)
		y, ok2 := a[1].(int64)
		_, c1 := a[0].(rChar)
		_, c2 := a[1].(rChar)
		if c1 || c2 {
			return unsup("char arithmetic")
		}
		if !ok || !ok2 {
			return rfail("mod: type")
		}
		if y == 0 {
			return rfail("mod by zero")
		}
		return x % y
	})
	for _, op := range []string{"<", ">", "<=", ">=", "==", "!="} {
		op := op
		rdef(op, func(m *Ref, a []RVal) RVal {
			nargs(a, 2, 2)
			c := rcmp(a[0], a[1])
			if c == 3 && op != "==" && op != "!=" {
				unsup("symbol order")
			}
			switch op {
			case "<":
				return c == -1
			case ">":
				return c == 1
			case "<=":
				return c == -1 || c == 0
			case ">=":
				return c == 1 || c == 0
			case "==":
				return c == 0
			}
			return c != 0
		})
	}
	rdef("not", func(m *Ref, a []RVal) RVal { nargs(a, 1, 1); return !rtruthy(a[0]) })
	rdef("list", func(m *Ref, a []RVal) RVal { return rlist(a) })
	rdef("array", func(m *Ref, a []RVal) RVal { return &rArr{append([]RVal{}, a...)} })
	rdef("cons", func(m *Ref, a []RVal) RVal { nargs(a, 2, 2); return &rPair{a[0], a[1]} })
	first := func(m *Ref, a []RVal) RVal {
		nargs(a, 1, 1)
		switch x := a[0].(type) {
		case *rPair:
			return x.h
		case *rArr:
			if len(x.v) > 0 {
				return x.v[0]
			}
		}
		return rfail("first")
	}
	rest := func(m *Ref, a []RVal) RVal {
		nargs(a, 1, 1)
		switch x := a[0].(type) {
		case *rPair:
			return x.t
		case *rArr:
			if len(x.v) > 0 {
				return &rArr{append([]RVal{}, x.v[1:]...)}
			}
			return x
		case rNil:
			return x
		}
		return rfail("rest")
	}
	rdef("first", first)
	rdef("car", first)
	rdef("rest", rest)
	rdef("cdr", rest)
	rdef("second", func(m *Ref, a []RVal) RVal {
		nargs(a, 1, 1)
		switch x := a[0].(type) {
		case *rPair:
			if p, ok := x.t.(*rPair); ok {
				return p.h
			}
		case *rArr:
			if len(x.v) > 1 {
				return x.v[1]
			}
		}
		return rfail("second")
	})
	rdef("len", func(m *Ref, a []RVal) RVal {
		nargs(a, 1, 1)
		switch x := a[0].(type) {
		case rNil:
			return int64(0)
		case *rArr:
			return int64(len(x.v))
		case string:
			return int64(len(x))
		case *rHash:
			return int64(len(x.keys))
		case *rPair:
			vs, ok := rslice(x)
			if !ok {
				return rfail("len")
			}
			return int64(len(vs))
		}
		return rfail("len")
	})
	rdef("append", func(m *Ref, a []RVal) RVal {
		nargs(a, 2, 2)
		switch x := a[0].(type) {
		case *rArr:
			return &rArr{append(append([]RVal{}, x.v...), a[1])}
		case string:
			if c, ok := a[1].(rChar); ok {
				return x + string(rune(c))
			}
			if y, ok := a[1].(string); ok {
				return x + y
			}
			return rfail("append")
		}
		return rfail("append")
	})
	rdef("appendslice", func(m *Ref, a []RVal) RVal {
		nargs(a, 2, 2)
		x, ok := a[0].(*rArr)
		y, ok2 := a[1].(*rArr)
		if !ok || !ok2 {
			return unsup("appendslice")
		}
		return &rArr{append(append([]RVal{}, x.v...), y.v...)}
	})
	rdef("concat", func(m *Ref, a []RVal) RVal {
		nargs(a, 1, -1)
		switch x := a[0].(type) {
		case *rArr:
			r := append([]RVal{}, x.v...)
			for _, b := range a[1:] {
				y, ok := b.(*rArr)
				if !ok {
					return rfail("concat")
				}
				r = append(r, y.v...)
			}
			return &rArr{r}
		case string:
			for _, b := range a[1:] {
				switch y := b.(type) {
				case string:
					x += y
				case rChar:
					x += string(rune(y))
				default:
					return rfail("concat")
				}
			}
			return x
		case *rPair:
			r, ok := rslice(x)
			if !ok {
				return unsup("concat of improper list")
			}
			for _, b := range a[1:] {
				if _, isNil := b.(rNil); isNil {
					continue
				}
				p, isP := b.(*rPair)
				if !isP {
					return rfail("concat")
				}
				y, ok := rslice(p)
				if !ok {
					return rfail("concat")
				}
				r = append(r, y...)
			}
			return rlist(r)
		}
		return rfail("concat")
	})
	rdef("aget", func(m *Ref, a []RVal) RVal {
		nargs(a, 2, 3)
		x, ok := a[0].(*rArr)
		if !ok {
			return rfail("aget")
		}
		i, ok := a[1].(int64)
		if !ok {
			return unsup("aget index")
		}
		if i < 0 || i >= int64(len(x.v)) {
			if len(a) == 3 {
				return a[2]
			}
			return rfail("out of bounds")
		}
		return x.v[i]
	})
	rdef("aset", func(m *Ref, a []RVal) RVal {
		nargs(a, 2, 3)
		x, ok := a[0].(*rArr)
		if !ok {
			return rfail("aset")
		}
		i, ok := a[1].(int64)
		if !ok {
			return unsup("aset index")
		}
		nargs(a, 3, 3)
		if i < 0 || i >= int64(len(x.v)) {
			return rfail("out of bounds")
		}
		x.v[i] = a[2]
		return rNil{}
	})
	rdef("sget", func(m *Ref, a []RVal) RVal {
		nargs(a, 2, 2)
		x, ok := a[0].(string)
		i, ok2 := a[1].(int64)
		if !ok || !ok2 {
			return rfail("sget")
		}
		if i < 0 || i >= int64(len(x)) {
			return rfail("out of bounds")
		}
		return rChar(rune(x[i]))
	})
	rdef("slice", func(m *Ref, a []RVal) RVal {
		nargs(a, 3, 3)
		i, ok := a[1].(int64)
		j, ok2 := a[2].(int64)
		if !ok || !ok2 {
			return rfail("slice")
		}
		switch x := a[0].(type) {
		case *rArr:
			if i < 0 || j < i || j > int64(len(x.v)) {
				return rfail("slice bounds")
			}
			return &rArr{append([]RVal{}, x.v[i:j]...)}
		case string:
			if i < 0 || j < i || j > int64(len(x)) {
				return rfail("slice bounds")
			}
			return x[i:j]
		}
		return rfail("slice")
	})
	rdef("hash", func(m *Ref, a []RVal) RVal {
		h := &rHash{kv: map[string]RVal{}, kk: map[string]RVal{}}
		if len(a)%2 != 0 {
			return rfail("hash requires even number of arguments")
		}
		for i := 0; i+1 < len(a); i += 2 {
			h.set(a[i], a[i+1])
		}
		return h
	})
	rdef("hget", func(m *Ref, a []RVal) RVal {
		nargs(a, 2, 3)
		h, ok := a[0].(*rHash)
		if !ok {
			if _, isA := a[0].(*rArr); isA {
				return rBuiltins["aget"].f(m, a)
			}
			return rfail("hget")
		}
		k := rhkey(a[1])
		if v, ok := h.kv[k]; ok {
			return v
		}
		if len(a) == 3 {
			return a[2]
		}
		return rfail("hash has no field")
	})
	rdef("hset", func(m *Ref, a []RVal) RVal {
		nargs(a, 1, 3)
		h, ok := a[0].(*rHash)
		if !ok {
			return rfail("hset")
		}
		nargs(a, 3, 3)
		h.set(a[1], a[2])
		return rNil{}
	})
	rdef("hdel", func(m *Ref, a []RVal) RVal {
		nargs(a, 1, 3)
		h, ok := a[0].(*rHash)
		if !ok {
			return rfail("hdel")
		}
		nargs(a, 2, 2)
		k := rhkey(a[1])
		if _, ok := h.kv[k]; ok {
			delete(h.kv, k)
			delete(h.kk, k)
			for i, x := range h.keys {
				if x == k {
					h.keys = append(append([]string{}, h.keys[:i]...), h.keys[i+1:]...)
					break
				}
			}
		}
		return rNil{}
	})
	rdef("keys", func(m *Ref, a []RVal) RVal {
		nargs(a, 1, 1)
		h, ok := a[0].(*rHash)
		if !ok {
			return rfail("keys")
		}
		r := &rArr{}
		for _, k := range h.keys {
			r.v = append(r.v, h.kk[k])
		}
		return r
	})
	rdef("map", func(m *Ref, a []RVal) RVal {
		nargs(a, 2, 2)
		switch a[0].(type) {
		case *rFn, *rBuiltin:
		default:
			return rfail("map: function")
		}
		switch x := a[1].(type) {
		case *rArr:
			r := &rArr{}
			vs := append([]RVal{}, x.v...)
			_ = vs
			for i := 0; i < len(x.v); i++ {
				r.v = append(r.v, m.apply(a[0], []RVal{x.v[i]}))
			}
			return r
		case *rPair:
			vs, ok := rslice(x)
			if !ok {
				return unsup("map over improper list")
			}
			var r []RVal
			for _, v := range vs {
				r = append(r, m.apply(a[0], []RVal{v}))
			}
			return rlist(r)
		case rNil:
			return unsup("map over the empty list")
		}
		return rfail("map: type")
	})
	rdef("apply", func(m *Ref, a []RVal) RVal {
		nargs(a, 2, 2)
		switch a[0].(type) {
		case *rFn, *rBuiltin:
		default:
			return rfail("apply: function")
		}
		if _, isNil := a[1].(rNil); isNil {
			return unsup("apply to the empty list")
		}
		vs, ok := rslice(a[1])
		if !ok {
			return rfail("apply: type")
		}
		return m.apply(a[0], vs)
	})
	rdef("makeArray", func(m *Ref, a []RVal) RVal {
		nargs(a, 1, -1)
		n, ok := a[0].(int64)
		if !ok || n < 0 {
			return rfail("makeArray")
		}
		r := &rArr{}
		for i := int64(0); i < n; i++ {
			if len(a) == 2 {
				r.v = append(r.v, a[1])
			} else {
				r.v = append(r.v, rNil{})
			}
		}
		return r
	})
	rq := func(name string, f func(v RVal) bool) {
		rdef(name, func(m *Ref, a []RVal) RVal { nargs(a, 1, 1); return f(a[0]) })
	}
	rq("null?", func(v RVal) bool { _, ok := v.(rNil); return ok })
	rq("array?", func(v RVal) bool { _, ok := v.(*rArr); return ok })
	rq("list?", func(v RVal) bool {
		if _, ok := v.(rNil); ok {
			return true
		}
		p, ok := v.(*rPair)
		if !ok {
			return false
		}
		_, ok = rslice(p)
		return ok
	})
	rq("hash?", func(v RVal) bool { _, ok := v.(*rHash); return ok })
	rq("int?", func(v RVal) bool { _, ok := v.(int64); return ok })
	rq("float?", func(v RVal) bool { _, ok := v.(float64); return ok })
	rq("string?", func(v RVal) bool { _, ok := v.(string); return ok })
	rq("symbol?", func(v RVal) bool { _, ok := v.(rSym); return ok })
	rq("number?", func(v RVal) bool {
		switch v.(type) {
		case int64, float64, rChar:
			return true
		}
		return false
	})
	rdef("force", func(m *Ref, a []RVal) RVal {
		nargs(a, 1, 1)
		if l, ok := a[0].(*rLazy); ok {
			return m.force(l)
		}
		return a[0]
	})
	rdef("substitute", func(m *Ref, a []RVal) RVal {
		nargs(a, 1, 1)
		if l, ok := a[0].(*rLazy); ok {
			if l.n == nil {
				return l.val
			}
			return rquote(l.n)
		}
		return a[0]
	})
	rdef("t", func(m *Ref, a []RVal) RVal {
		m.Hosts++
		var s []string
		for _, v := range a {
			s = append(s, RDump(v))
		}
		if len(m.Log) < 4000 {
			m.Log = append(m.Log, strings.Join(s, ","))
		}
		if m.FailAt > 0 && m.Hosts == m.FailAt {
			rfail("injected")
		}
		if len(a) == 0 {
			return rNil{}
		}
		return a[0]
	})
}

func (h *rHash) set(k, v RVal) {
	s := rhkey(k)
	if _, ok := h.kv[s]; !ok {
		h.keys = append(h.keys, s)
		h.kk[s] = k
	}
	h.kv[s] = v
}

// BuiltinNames the reference knows (for building small interpreters).
func refBuiltinNames() []string {
	var r []string
	for n := range rBuiltins {
		r = append(r, n)
	}
	return r
}

// strayLoop reports whether n contains a break or continue without a loop to
// leave: not lexically inside a loop of that label, or cut off from it by a
// function boundary or by being an argument of a call.  Such programs are not
// well formed.
func strayLoop(n *N, labels []string) bool {
	any := func(l []*N, labels []string) bool {
		for _, c := range l {
			if strayLoop(c, labels) {
				return true
			}
		}
		return false
	}
	if n.K == NArr {
		return any(n.L, labels)
	}
	if n.K != NList || len(n.L) == 0 {
		return false
	}
	if n.L[0].K != NSym {
		return any(n.L, nil)
	}
	a := n.L[1:]
	switch n.L[0].S {
	case "quote":
		return false
	case "break", "continue":
		want := ""
		if len(a) > 0 {
			want = strings.TrimSuffix(a[0].S, ":")
		}
		for _, l := range labels {
			if want == "" || l == want {
				return false
			}
		}
		return true
	case "for":
		l := "#"
		if len(a) > 0 && a[0].K == NSym {
			l = strings.TrimSuffix(a[0].S, ":")
			a = a[1:]
		}
		return any(a, append(append([]string{}, labels...), l))
	case "fn", "defn":
		return any(a, nil)
	case "begin", "newScope", "cond", "and", "or", "let", "letseq", "def", "set", "mdef", "assert":
		return any(a, labels)
	}
	return any(a, nil)
}
