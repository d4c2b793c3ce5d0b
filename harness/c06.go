package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C06: infix blocks. Every bounded text of an infix block is tokenised and
// parsed by the oracle below, written from the documented table only; the
// tree of (infixExpand {...}) and the effects of {...} are compared with it.

// --- oracle: tokens

type iTok struct {
	k string // op num str id dot label call arr blk semi comma colon
	s string
	n []iTok // of arr, blk
}

var iOps = []string{"++", "--", "+=", "-=", "==", ":=", "<=", ">=", "<-", "->", "*=", "/=", "**", "!=", "<!", "&&", "||", "=", "+", "-", "*", "<", ">", "!", "/"}

const iSignAfter = " \t\n([{,;:+-*/<>=!&|"

type iUnsup string

func iTokens(t string) (ts []iTok) {
	p := 0
	return iTokens1(t, &p, 0)
}

func iAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func iDigit(c byte) bool { return c >= '0' && c <= '9' }

func iTokens1(t string, p *int, end byte) (ts []iTok) {
	for {
		if *p >= len(t) {
			if end != 0 {
				panic(iUnsup("open bracket"))
			}
			return ts
		}
		c := t[*p]
		rest := t[*p:]
		switch {
		case c == end && end != 0:
			*p++
			return ts
		case c == ' ' || c == '\n' || c == '\t':
			*p++
		case strings.HasPrefix(rest, "//"):
			*p += strings.IndexByte(rest, '\n')
		case strings.HasPrefix(rest, "/*"):
			q := strings.Index(rest, "*/")
			if q < 0 {
				panic(iUnsup("open comment"))
			}
			*p += q + 2
		case c == ';':
			ts = append(ts, iTok{k: "semi"})
			*p++
		case c == ',':
			ts = append(ts, iTok{k: "comma", s: ","})
			*p++
		case c == '[' || c == '{':
			*p++
			k, e := "arr", byte(']')
			if c == '{' {
				k, e = "blk", '}'
			}
			ts = append(ts, iTok{k: k, n: iTokens1(t, p, e)})
		case c == '(':
			d, q := 0, *p
			for ; ; q++ {
				if t[q] == '(' {
					d++
				} else if t[q] == ')' {
					if d--; d == 0 {
						break
					}
				}
			}
			ts = append(ts, iTok{k: "call", s: iCall(t[*p : q+1])})
			*p = q + 1
		case c == '"':
			q := strings.IndexByte(rest[1:], '"')
			ts = append(ts, iTok{k: "str", s: rest[:q+2]})
			*p += q + 2
		case iDigit(c) || c == '-' && len(rest) > 1 && (iDigit(rest[1]) || rest[1] == '.' && len(rest) > 2 && iDigit(rest[2])) && (*p == 0 || strings.IndexByte(iSignAfter, t[*p-1]) >= 0):
			q := 1
			for q < len(rest) && (iDigit(rest[q]) || rest[q] == '.') {
				q++
			}
			if q < len(rest) && rest[q] == ':' && end == ']' {
				ts = append(ts, iTok{k: "num", s: rest[:q]})
				ts = append(ts, iTok{k: "colon"})
				*p += q + 1
				continue
			}
			if q < len(rest) && iAlpha(rest[q]) {
				panic(iUnsup("number"))
			}
			ts = append(ts, iTok{k: "num", s: strings.Replace(rest[:q], "-.", "-0.", 1)})
			*p += q
		case iAlpha(c) || c == '.' && len(rest) > 1 && iAlpha(rest[1]):
			q := 1
			for q < len(rest) && (iAlpha(rest[q]) || iDigit(rest[q]) || rest[q] == '.' && q+1 < len(rest) && iAlpha(rest[q+1])) {
				q++
			}
			w := rest[:q]
			*p += q
			switch {
			case c == '.':
				ts = append(ts, iTok{k: "dot", s: w})
			case w == "and" || w == "or" || w == "mod" || w == "not":
				ts = append(ts, iTok{k: "op", s: w})
			case q < len(rest) && rest[q] == ':' && (q+1 == len(rest) || rest[q+1] != '='):
				*p++
				if end == ']' {
					ts = append(ts, iTok{k: "id", s: w}, iTok{k: "colon"})
				} else {
					ts = append(ts, iTok{k: "label", s: w})
				}
			default:
				ts = append(ts, iTok{k: "id", s: w})
			}
		default:
			op := ""
			for _, o := range iOps {
				if strings.HasPrefix(rest, o) {
					op = o
					break
				}
			}
			if op == "" && c == ':' && end == ']' {
				ts = append(ts, iTok{k: "colon"})
				*p++
				continue
			}
			switch op {
			case "", "<-", "->", "*=", "/=", "<!", "!":
				panic(iUnsup("token " + op + string(c)))
			case "&&":
				op, *p = "and", *p+2
			case "||":
				op, *p = "or", *p+2
			default:
				*p += len(op)
			}
			ts = append(ts, iTok{k: "op", s: op})
		}
	}
}

// iCall puts the prefix forms of the blocks inside a call.
func iCall(t string) string {
	var b strings.Builder
	for p := 0; p < len(t); {
		if t[p] != '{' {
			b.WriteByte(t[p])
			p++
			continue
		}
		p++
		b.WriteString(iBlock(iTokens1(t, &p, '}')))
	}
	return b.String()
}

// --- oracle: precedence levels, loosest first

type iParser struct {
	ts []iTok
	i  int
}

// set when what a block does as an operand differs from its content:
// what is assigned to isn't evaluated, nor are the parts of a comma
var iBlockAsIs bool

type iBad string // not an expression: an error is expected

var iLevels = []struct {
	ops   string
	right bool
}{
	{" = := += -= ", true},
	{" , ", false},
	{" and or ", true},
	{" == != < > <= >= ", false},
	{" + - ", false},
	{" * / mod ", false},
	{" ** ", true},
}

func (p *iParser) peek() iTok {
	if p.i < len(p.ts) {
		return p.ts[p.i]
	}
	return iTok{k: "end"}
}

func (p *iParser) infix(l int) (string, bool) {
	t := p.peek()
	if (t.k == "op" || t.k == "comma") && strings.Contains(iLevels[l].ops, " "+t.s+" ") {
		return t.s, true
	}
	return "", false
}

func (p *iParser) level(l int) string {
	if l == len(iLevels) {
		return p.unary()
	}
	first := p.peek().k
	left := p.level(l + 1)
	for {
		op, is := p.infix(l)
		if is && (op == "," || l == 0 && first == "blk") {
			iBlockAsIs = true
		}
		if !is {
			break
		}
		p.i++
		name := op
		if op == "=" || op == ":=" {
			name = "set"
		} else if op == "," {
			name = "comma"
		}
		if iLevels[l].right {
			return "(" + name + " " + left + " " + p.level(l) + ")"
		}
		left = "(" + name + " " + left + " " + p.level(l+1) + ")"
	}
	if l == 0 {
		for t := p.peek(); t.k == "op" && (t.s == "++" || t.s == "--"); t = p.peek() {
			iBlockAsIs = iBlockAsIs || first == "blk"
			p.i++
			left = "(" + t.s + " " + left + ")"
			if n := p.peek(); n.k == "op" && n.s != "not" || n.k == "arr" || n.k == "dot" || n.k == "comma" {
				panic(iUnsup("operator after a postfix assignment"))
			}
		}
	}
	return left
}

func (p *iParser) unary() string {
	t := p.peek()
	if t.k == "op" && (t.s == "not" || t.s == "*") {
		p.i++
		return "(" + t.s + " " + p.unary() + ")"
	}
	return p.postfix()
}

func (p *iParser) postfix() string {
	left := p.primary()
	for {
		switch t := p.peek(); t.k {
		case "arr":
			p.i++
			left = "(arrayidx " + left + " " + iSelector(t.n) + ")"
		case "dot":
			p.i++
			left = "(hashidx " + left + " " + t.s + ")"
		default:
			return left
		}
	}
}

func iOne(ts []iTok) string {
	q := &iParser{ts: ts}
	s := q.level(0)
	if q.i < len(ts) {
		panic(iUnsup("several expressions"))
	}
	return s
}

func iSelector(ts []iTok) string {
	colon := -1
	for i, t := range ts {
		if t.k == "colon" {
			if colon >= 0 {
				panic(iBad("two colons"))
			}
			colon = i
		}
	}
	if colon < 0 {
		if len(ts) == 0 {
			return "[]"
		}
		return "[" + iOne(ts) + "]"
	}
	s := ":"
	if colon > 0 {
		s = iOne(ts[:colon]) + " " + s
	}
	if colon+1 < len(ts) {
		s += " " + iOne(ts[colon+1:])
	}
	return "[" + s + "]"
}

func (p *iParser) block() string {
	t := p.peek()
	if t.k != "blk" {
		panic(iUnsup("no block"))
	}
	p.i++
	return iBlock(t.n)
}

func (p *iParser) primary() string {
	t := p.peek()
	switch t.k {
	case "end", "semi":
		panic(iBad("operand missing"))
	case "num", "str", "call":
		p.i++
		return t.s
	case "blk":
		return p.block()
	case "arr":
		p.i++
		var xs []string
		for _, x := range t.n {
			if x.k == "comma" {
				continue
			}
			if x.k == "op" || x.k == "colon" {
				panic(iUnsup("array literal"))
			}
			xs = append(xs, (&iParser{ts: []iTok{x}}).primary())
		}
		return "[" + strings.Join(xs, " ") + "]"
	case "id":
		p.i++
		switch t.s {
		case "if":
			c := p.level(1)
			then := p.block()
			els := "nil"
			if n := p.peek(); n.k == "id" && n.s == "else" {
				p.i++
				if n := p.peek(); n.k == "id" && n.s == "if" {
					els = p.primary()
				} else {
					els = p.block()
				}
			}
			if n := p.peek(); n.k == "op" || n.k == "arr" || n.k == "dot" || n.k == "comma" {
				panic(iUnsup("operator after an if"))
			}
			return "(cond " + c + " " + then + " " + els + ")"
		case "for":
			return p.forLoop("")
		case "break", "continue":
			if n := p.peek(); n.k == "id" {
				p.i++
				return "(" + t.s + " " + n.s + ")"
			}
			return "(" + t.s + ")"
		case "else", "range":
			panic(iUnsup(t.s))
		}
		return t.s
	case "label":
		if p.i+1 < len(p.ts) && p.ts[p.i+1].s == "for" {
			p.i += 2
			return p.forLoop(t.s + ": ")
		}
	case "dot":
		p.i++
		return t.s
	}
	panic(iUnsup("operand " + t.k + t.s))
}

// forLoop: the header ends before the block that stands where an operator
// would have to.
func (p *iParser) forLoop(label string) string {
	clause := func() string {
		if k := p.peek().k; k == "semi" {
			return ""
		}
		return p.level(0)
	}
	init, test, post := "nil", "true", "nil"
	switch {
	case p.peek().k == "blk" && (p.i+1 == len(p.ts) || p.ts[p.i+1].k != "op"):
	default:
		first := clause()
		if p.peek().k != "semi" {
			if p.peek().k != "blk" || first == "" {
				panic(iUnsup("for header"))
			}
			test = first
			break
		}
		p.i++
		if first != "" {
			init = first
		}
		if s := clause(); s != "" {
			test = s
		}
		if p.peek().k != "semi" {
			panic(iBad("for header"))
		}
		p.i++
		if p.peek().k != "blk" || p.i+1 < len(p.ts) && p.ts[p.i+1].k == "op" {
			post = p.level(0)
		}
	}
	t := p.peek()
	body := p.block()
	if len(t.n) == 0 {
		body = ""
	} else {
		body = " " + body
	}
	if n := p.peek(); n.k == "op" && n.s != "not" || n.k == "arr" || n.k == "dot" || n.k == "comma" {
		panic(iUnsup("operator after a for"))
	}
	return "(for " + label + "[" + init + " " + test + " " + post + "]" + body + ")"
}

// iBlock is the prefix form of what stands between braces.
func iBlock(ts []iTok) string {
	if len(ts) == 0 {
		return "(hash)"
	}
	p := &iParser{ts: ts}
	var xs []string
	for p.i < len(ts) {
		if p.peek().k == "semi" {
			p.i++
			continue
		}
		if n := p.peek(); n.k == "op" && n.s != "not" && n.s != "*" {
			panic(iUnsup("operator as an operand"))
		}
		xs = append(xs, p.level(0))
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return "(begin " + strings.Join(xs, " ") + ")"
}

// iPrefix: bad reports text that is no sequence of expressions, unsup text
// the documentation leaves open.
func iPrefix(t string) (s string, bad, unsup bool) {
	iBlockAsIs = false
	defer func() {
		switch p := recover(); p.(type) {
		case nil:
		case iBad:
			bad = true
		case iUnsup:
			unsup = true
		default:
			panic(p)
		}
	}()
	s = iBlock(iTokens(t))
	return
}

// --- the real tree, printed the same way

func iShow(env *zygo.Zlisp, x zygo.Sexp) string {
	var list func(x zygo.Sexp) []string
	list = func(x zygo.Sexp) (out []string) {
		for {
			p, is := x.(*zygo.SexpPair)
			if !is {
				if x != zygo.SexpNull {
					out = append(out, "\\", iShow(env, x))
				}
				return
			}
			out = append(out, iShow(env, p.Head))
			x = p.Tail
		}
	}
	switch v := x.(type) {
	case *zygo.SexpPair:
		if s, is := v.Head.(*zygo.SexpSymbol); is && s.Name() == "infix" {
			if t, is := v.Tail.(*zygo.SexpPair); is {
				if a, is := t.Head.(*zygo.SexpArray); is {
					xs, err := zygo.InfixExpandArray(env, a)
					if err != nil {
						return "!" + err.Error()
					}
					return iStmts(env, xs)
				}
			}
		}
		return "(" + strings.Join(list(x), " ") + ")"
	case *zygo.SexpArray:
		var xs []string
		for _, e := range v.Val {
			if _, is := e.(*zygo.SexpComma); is {
				continue
			}
			xs = append(xs, iShow(env, e))
		}
		return "[" + strings.Join(xs, " ") + "]"
	case *zygo.SexpStr:
		return strconv.Quote(v.S)
	case *zygo.SexpSymbol:
		return v.SexpString(nil)
	case *zygo.SexpHash:
		if v.NumKeys == 0 {
			return "(hash)"
		}
	}
	return x.SexpString(nil)
}

func iStmts(env *zygo.Zlisp, xs []zygo.Sexp) string {
	var out []string
	for _, e := range xs {
		out = append(out, iShow(env, e))
	}
	if len(out) == 1 {
		return out[0]
	}
	return "(begin " + strings.Join(out, " ") + ")"
}

// --- comparison

const iSetup = `(def tr []) (defn e [n] (set tr (append tr n)) n) (defn f [] (e 11)) (defn mk [] (hash k: 5)) (defn g [p q] (e (+ p q)))
(def x 7) (def y 3) (def z 2) (def b true) (def c false) (def s "st") (def a [5 6 7 [1 2 3]]) (def h (hash k: 4 j: (hash m: 9 n: [1 2]))) (def v 0) (def w 0) (def i 0) (def px (& x))`
const iReset = `(set tr []) (set x 7) (set y 3) (set z 2) (set b true) (set c false) (set s "st") (set a [5 6 7 [1 2 3]]) (set h (hash k: 4 j: (hash m: 9 n: [1 2]))) (set v 0) (set w 0) (set i 0)`
const iState = `(list tr x y z b c s a h v w i)`

var iEnvs [2]*zygo.Zlisp
var iStates [2]string
var iInitial string

// canReset: nothing in a case binds new global names.
func iCheck(t string, eval bool, r *Rec) {
	want, bad, unsup := iPrefix(t)
	if unsup {
		r.Count("left_open", 1)
		return
	}
	for k := range iEnvs {
		if iEnvs[k] == nil {
			iEnvs[k] = NewStd()
			if o := Eval(iEnvs[k], iSetup); o.Kind != "val" {
				panic(o.String())
			}
		}
	}
	env := iEnvs[0]
	src := "{" + t + "}"
	r.Validated++
	o := Eval(env, "(infixExpand "+src+")")
	if bad {
		r.Count("not_expressions", 1)
		if p, is := o.V.(*zygo.SexpPair); o.Kind == "val" && !(is && strings.Contains(iShow(env, p), "!")) {
			r.Violate("no error", src, "an operand is missing, but infixExpand gives "+o.V.SexpString(nil))
		} else if o = Eval(env, src); o.Kind == "val" {
			r.Violate("no error", src, "an operand is missing, but the value is "+o.S)
		}
		return
	}
	if o.Kind != "val" {
		r.Violate("tree", src, "infixExpand gives "+o.String()+"\nexpected "+want)
		return
	}
	got := ""
	if p, is := o.V.(*zygo.SexpPair); is {
		xs, err := zygo.ListToArray(p)
		if err == nil {
			got = iStmts(env, xs[1:])
		}
	} else if o.V == zygo.SexpNull && want == "(hash)" {
		got = want
	}
	if got != strings.ReplaceAll(want, "for L: [", "for L [") {
		r.Violate("tree", src, "translated to "+got+"\nexpected      "+want)
		return
	}
	if !eval || iBlockAsIs && strings.Contains(t, "{") {
		return
	}
	iEffects(src, want, r)
}

func iEffects(src, want string, r *Rec) {
	for k := range iEnvs {
		// most cases change nothing
		if iStates[k] == "" || iStates[k] != iInitial {
			Eval(iEnvs[k], iReset)
			iInitial = Eval(iEnvs[k], iState).S
		}
		iStates[k] = ""
	}
	o1, o2 := EvalB(iEnvs[0], src, 3000), EvalB(iEnvs[1], want, 3000)
	if o1.Kind == "steps" && o2.Kind == "steps" {
		iEnvs[0].Clear()
		iEnvs[1].Clear()
		r.Count("endless", 1)
		return
	}
	s1, s2 := Eval(iEnvs[0], iState), Eval(iEnvs[1], iState)
	iStates = [2]string{s1.S, s2.S}
	r.Count("evaluated_"+o2.Kind, 1)
	if o1.Kind != "val" || o2.Kind != "val" {
		iEnvs[0].Clear()
		iEnvs[1].Clear()
	}
	if o1.Class() != o2.Class() || s1.S != s2.S {
		iEnvs, iStates = [2]*zygo.Zlisp{}, [2]string{}
		r.Violate("effects", src, fmt.Sprintf("gives %s, state %s\nprefix form %s\ngives %s, state %s", o1, s1.S, want, o2, s2.S))
	}
}

// --- spaces

var iBin = []string{"=", ":=", "+=", "-=", ",", "and", "or", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "mod", "**"}

var iSpacings = [][2]string{{" ", " "}, {"", ""}, {" ", ""}, {"", " "}, {"\n", "\t"}, {" /* c */ ", " // d\n"}}

// operators between operands, all spacings
func iOpSpace(name string, n int, operands [][]string, ops []string, spacings [][2]string, uniform, eval bool, bound string) *Space {
	ns := uint64(len(spacings))
	size := uint64(1)
	for k := 0; k <= n; k++ {
		size *= uint64(len(operands[k%len(operands)]))
	}
	for k := 0; k < n; k++ {
		size *= uint64(len(ops))
		if !uniform {
			size *= ns
		}
	}
	if uniform {
		size *= ns
	}
	text := func(i uint64) string {
		take := func(m int) int { k := i % uint64(m); i /= uint64(m); return int(k) }
		var us [2]string
		if uniform {
			us = spacings[take(int(ns))]
		}
		var b strings.Builder
		for k := 0; k <= n; k++ {
			os := operands[k%len(operands)]
			b.WriteString(os[take(len(os))])
			if k < n {
				s := us
				if !uniform {
					s = spacings[take(int(ns))]
				}
				op := ops[take(len(ops))]
				if iAlpha(op[0]) {
					op = " " + op + " "
				}
				b.WriteString(s[0] + op + s[1])
			}
		}
		return b.String()
	}
	return iSpace(name, bound, size, eval, text)
}

func iSpace(name, bound string, size uint64, eval bool, text func(i uint64) string) *Space {
	return &Space{Name: name, Size: size, Bound: bound, Desc: func(i uint64) string { return "{" + text(i) + "}" },
		Run: func(i uint64, r *Rec) { iCheck(text(i), eval, r) }}
}

// seqs of n of pool, joined by seps, between the two halves of wraps
func iSeq(name, bound string, pools [][]string, seps []string, wraps []string, eval bool) *Space {
	size := uint64(len(wraps))
	for k, p := range pools {
		size *= uint64(len(p))
		if k > 0 {
			size *= uint64(len(seps))
		}
	}
	return iSpace(name, bound, size, eval, func(i uint64) string {
		take := func(m int) int { k := i % uint64(m); i /= uint64(m); return int(k) }
		w := wraps[take(len(wraps))]
		var b strings.Builder
		for k, p := range pools {
			if k > 0 {
				b.WriteString(seps[take(len(seps))])
			}
			b.WriteString(p[take(len(p))])
		}
		return strings.Replace(w, "%", b.String(), 1)
	})
}

var iOperands = []string{"x", "2", "-1", "h.k", "a[0]", "(f)", "{1 + y}", "not b", "a[1:2][0]", "h.j.n[1]", "1.5", "\"q\"", "*px", "[1 2]", "(g 1 2)", "-.5", "not {c}", "a[i+1]", "not not b", "{e}"}
var iStmtPool = []string{
	"x", "1", "x = 4", "y = x + 1", "x++", "y--", "v := 5", "(e 1)", "(e x)", "x += 2", "a[0] = 9", "h.k = x * 2", "{x = 8; (e 3)}", "if b {(e 4)} else {(e 5)}", "if x > 3 {x = 1}", "for i = 0; i < 2; i++ {(e i)}", "not b", "-1", "a[1:2]", "w = v = 3", "\"s\"",
	"{}", "h.j.m -= 1", "if c {(e 6)} else if b {(e 7)} else {(e 8)}", "z = {x = 5; y}", "(g x y)", "2 * (f) + 1",
}

func iIndexes() (out []string) {
	idx := []string{"0", "i", "i+1", "z-1", "x - 7", "(f)", "{1 + 1}", "h.k - 3", "a[0]-5", "-1", "i:", "0:2", "i:z", "i+1:", ":2", ":z", "z-1:z+1", "1 : 2", ": z", "i :", ":", "0 :2", "a[0]-5:h.k", "1:{1 + 1}", "(e 0):(e 2)", "z mod 2", "x=0", "1 2", "", "i:z:1", "3", "3][1", "3][0:2][1", "\"k\"", "b", "i++", "not b"}
	for _, b := range []string{"a", "{a}", "(list 1 2)", "h.j.n", "[4 5 6]", "a[1:]", "\"abcd\"", "h"} {
		for _, k := range idx {
			out = append(out, b+"["+k+"]")
		}
	}
	return append(out, "h .k", "h.j .m", "a[3] .k", "{h}.k", "{h}.j.m", "{h} .j .m", "(mk).k", "(mk) .k", "h.j.n[0]", "h.j.n[0:1][0]", "{h.j}.n[1]", "h[k:]", "x.k", "h.nosuch", "h.j.n[1].k")
}

func init() {
	register(&PropDef{ID: "C06", Assume: []string{
		"a '-' directly before a digit is a sign unless it follows an operand without a space (what the lexer documents): {a -1} is two statements, {a-1} a difference",
		"newlines separate statements only where the next one cannot continue the expression: a statement starting with [ or . after a newline continues it",
		"operators used as operands ({f = +}), operators after x++, after an if or after a for are left open",
		"and/or share one level and associate to the right as the implementation's table says; f(a) is two statements, (f a) a call",
	}, Spaces: func(tier string) []*Space {
		th := tier == "thorough"
		core := iOperands[:8]
		two := [][]string{{"x"}, {"y", "-1"}, {"z"}, {"2"}, {"h.k"}, {"x"}, {"y"}}
		tight := iSpacings[:4]
		cl := iIndexes()
		forClause := [][]string{
			{"", "i = 0", "i := 0", "v = 1", "i = {0}", "i=x-6", "(e 5)", "i, v = 0, 0"},
			{"", "i < 2", "i<{1 + 1}", "i != 2 and b", "not {i > 1}", "i < a[0] - 3", "i + v * 2 < 3", "not (> i 1)"},
			{"", "i++", "i += 1", "i = i + 1", "i = {i + 1}", "i=i+1"},
		}
		bodies := []string{"{}", "{(e i)}", "{ (e i); (e 1) }", "{if i == 1 {break} else {(e 3)}; i++}", "{i++; if i == 1 {continue}; (e i)}", "{i = i + 1}", "{for v = 0; v < 2; v++ {(e v); if v == i {break}}; i++}", "{for v = 0; v < 2; v++ {if i == 0 {i++; continue L}; (e v); break L}; i++}"}
		var fors []string
		for _, lab := range []string{"", "L: "} {
			for _, a := range forClause[0] {
				for _, b := range forClause[1] {
					for _, c := range forClause[2] {
						for _, d := range bodies {
							if lab == "" && strings.Contains(d, " L") {
								continue
							}
							fors = append(fors, lab+"for "+a+"; "+b+"; "+c+" "+d)
						}
					}
				}
			}
			for _, b := range forClause[1][1:] {
				fors = append(fors, lab+"for "+b+" {(e i); i++}", lab+"for "+b+"{(e i); i++}")
			}
			fors = append(fors, lab+"for {(e i); i++; if i > 2 {break}}", lab+"for ; ; {(e i); i++; if i > 2 {break}}", lab+"for i = 0; i < 2 {}", lab+"for i = 0; i < 2; i++; i {}", lab+"for i < 2")
		}
		conds := []string{"b", "c", "not b", "x > y", "x == 7 and y == 4 or b", "{b}", "a[0] == 5", "(> x y)", "h.k < 4", "b and {c}", "x + 1 > y * 3"}
		blks := []string{"{}", "{(e 1)}", "{x = 2; (e 2)}", "{if c {1} else {2}}", "{y}", "{x + 1}", "{3;}"}
		var ifs []string
		for _, a := range conds {
			for _, t := range blks {
				ifs = append(ifs, "if "+a+" "+t)
				for _, e := range blks {
					ifs = append(ifs, "if "+a+" "+t+" else "+e)
				}
				for _, b := range conds {
					for _, e := range []string{"", " else {(e 9)}"} {
						ifs = append(ifs, "if "+a+" "+t+" else if "+b+" {(e 7)}"+e)
					}
				}
			}
		}
		wraps := []string{"%", "(e 1); %", "%; x", "v = %", "x = 1\n%\n(e 2)", "{%}", "(e {%})", "for i = 0; i < 2; i++ {%}", "if b {%} else {c}", "w = v = {%}", " % ", "\n%\n;", "[{%}]"}
		unfin := []string{"x +", "x -", "x *", "x **", "x /", "x mod", "x and", "x or", "x ==", "x <", "x =", "x :=", "x +=", "x ,", "not", "x = not", "x + not", "*", "x * *", "x[", "x = y =", "x + ;", "x = ; y", "not ; x", "a[1 +]", "a[1 + :]", "a[: 1 *]", "x = {y +}", "if", "x and ;"}
		nest := []string{"%", "{%}", "{% + 1}", "{1 - {%}}", "{x; %}", "not {%}", "{%} * {%}", "a[{%} mod 3]", "(g {%} 1)", "x = {%}", "{{%} ** 2}", "{y = %}", "{% == 3}"}
		seps := []string{";", "\n", "; ", ";\n", " ;\n ; ", " /* c */ ;", " // c\n", " "}
		out := []*Space{
			iSeq("unfinished", "texts whose last operand is missing x places", [][]string{unfin}, []string{""}, wraps, false),
			iOpSpace("pairs-all-spacings", 2, [][]string{core}, iBin, tight, false, false, "all 2 operators between 3 operands of 8, each with 4 spacings: tree"),
			iOpSpace("pairs", 2, [][]string{core}, iBin, iSpacings[:1], true, true, "all 2 operators between 3 operands of 8: tree and effects"),
			iOpSpace("one-operator", 1, [][]string{iOperands}, iBin, iSpacings, false, true, "every operator between every two of 20 operands, 6 spacings: tree and effects"),
			iOpSpace("three", 3, two, iBin, iSpacings, true, true, "all 3 operators, uniform spacing: tree and effects"),
			iSeq("selectors", "all of 308 index, slice and field forms x 2 x 11 places", [][]string{cl}, []string{""}, append(append([]string{}, wraps...), "% + 1", "1 + %", "% = 9", "not %", "2 ** %", "% ** 2", "%[0]", "v = % * 2 + 1", "x+%-y"), true),
			iSeq("ifs", "all of 1900 if forms x places", [][]string{ifs}, []string{""}, wraps, true),
			iSeq("fors", "all of 6000 for headers and bodies x places", [][]string{fors}, []string{""}, []string{"%", "(e 1); %; (e 2)", "v = 3\n%\nx"}, true),
			iSeq("statements-2", "all 2 statements x separators x places", [][]string{iStmtPool, iStmtPool}, seps, wraps, true),
			iSeq("statements-3", "all 3 statements x separators", [][]string{iStmtPool, iStmtPool, iStmtPool}, seps[:2], wraps[:1], true),
		}
		nestSpace := func(name string, d int, leaves []string) *Space {
			n := uint64(len(leaves))
			for k := 0; k < d; k++ {
				n *= uint64(len(nest))
			}
			return iSpace(name, fmt.Sprintf("all nests of %d of %d around %d expressions: tree and effects", d, len(nest), len(leaves)), n, true, func(i uint64) string {
				t := leaves[i%uint64(len(leaves))]
				i /= uint64(len(leaves))
				for k := 0; k < d; k++ {
					t = strings.ReplaceAll(nest[i%uint64(len(nest))], "%", t)
					i /= uint64(len(nest))
				}
				return t
			})
		}
		leaves := append(append([]string{"x + y * z", "x - y - z", "2 ** 3 ** 2", "x = y", "x+1", "(e 2) - (e 1)"}, iOperands[:8]...), iStmtPool...)
		out = append(out, nestSpace("nested", 3, leaves), iOpSpace("four", 4, [][]string{{"x"}, {"y"}, {"z"}, {"2"}, {"h.k"}}, iBin, iSpacings[:1], true, th, "all 4 operators: tree"))
		if th {
			out = append(out, nestSpace("nested-4", 4, leaves), iSeq("statements-3-all-separators", "all 3 statements x separators x places", [][]string{iStmtPool, iStmtPool, iStmtPool}, seps, wraps[:4], true),
				iOpSpace("pairs-20-operands", 2, [][]string{iOperands}, iBin, iSpacings, true, true, "all 2 operators between 3 operands of 20, uniform spacings: tree and effects"),
				iOpSpace("three-all-spacings", 3, two, iBin, tight, false, false, "all 3 operators, each with 4 spacings: tree"),
				iOpSpace("five", 5, [][]string{{"x"}, {"y"}, {"z"}, {"2"}, {"h.k"}, {"-1"}}, iBin, iSpacings[:2], true, false, "all 5 operators: tree"),
				iOpSpace("pairs-20-operands-all-spacings", 2, [][]string{iOperands}, iBin, tight, false, false, "all 2 operators between 3 operands of 20, each with 4 spacings: tree"))
		}
		return out
	}})
}
