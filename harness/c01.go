package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C01: whatever text is loaded, parsed, compiled, expanded or run, the call
// returns a value or an error. Panics are caught here and reported; fatal
// errors and endless loops end the worker process, which the pool reports.

const c01Setup = catSetup + `
(def cya [1 2]) {cya[1] = cya} (def cyh (hash k: 1)) (hset cyh (quote s) cyh) (def cyl (list 1 cya cyh))
(def nst (list [1 (list 2 [3])] (hash p: (hash q: [1])))) (def raw0 (raw "ab")) (def clo (let [w 5] (fn [z] (+ z w))))
`

// names not called by the checks: they act on the world outside or block
var c01Skip = map[string]bool{
	"system": true, "sys": true, "exit": true, "setenv": true, "writef": true, "save": true, "owritef": true, "bsave": true,
	"greenpack": true, "<!": true, "send": true, "select": true, "stop": true, "bload": true, "_closdump": true, "dump": true, "_ls": true,
	"println": true, "print": true, "printf": true, "typelist": true, "getenv": true, "fieldls": true, "methodls": true, "close": true, "timeit": true,
}

var c01Heads []string

func initHeads() {
	if c01Heads != nil {
		return
	}
	seen := map[string]bool{}
	for _, h := range append(newC01Env().VerifGlobals(), "f1", "va", "lz", "tf", "m1", "m2", "P0", "pk0", "a", "h", "5", "\"s\"", "(fn [q] q)", "nosuch", "h.k", "pk0.F", "nil", "(f1 1)", "[f1]", "clo", "k:", "%f1", ".k", "if", "else", "unquote", "unquote-splicing", "infixExpand", "field", "pk0.m") {
		if !c01Skip[h] && !seen[h] && !strings.HasPrefix(h, "__") && h != "cya" && h != "cyl" {
			seen[h] = true
			c01Heads = append(c01Heads, h)
		}
	}
	sort.Strings(c01Heads)
}

func newC01Env() *zygo.Zlisp {
	e := NewStd()
	if o := Eval(e, c01Setup); o.Kind != "val" {
		panic("c01 setup: " + o.String())
	}
	return e
}

var c01Pool = []string{
	"1", "0", "-1", "9223372036854775807", "1.5", "NaN", "3ULL", "true", "nil", `""`, `"ab"`, "'c'", "x", "a", "[]", "h", "l", "()", "(hash)",
	"%x", "%(1 2)", "%(1 \\ 2)", "%[1 x]", "f1", "(fn [z] z)", "P0", "r0", "px", "pk0", "#p", "k:", "h.k", ".k", "a.b.c", ",", ":", "int64", "raw0", "(& r0)", "{a[0]}", "nosuch",
	"cya", "cyh", "cyl", "~x", "~@l", "^(x ~y)", "m1", "(m1 x)", "[x 1]", "[z]", "[[p q] r]", "(f1 x)", "{x}", "+", "&", "quote", "begin", "clo", "nst", "\\", ";", "// c\n", "[a: int64]", "[p & q]", "{x = 1}", "=", "cyc.s.k",
}

var c01Small = []string{"1", "nil", `"ab"`, "x", "a", "[x 1]", "%x", "f1", "k:", "(f1 x)", "h", "()", "cyh", "&", "[z]", "pk0", "-1", ","}

// history runs case i after the earlier cases of its block, in one
// interpreter; blocks start fresh.
type history struct {
	block uint64
	mk    func() *zygo.Zlisp
	text  func(i uint64) string
	env   *zygo.Zlisp
	next  uint64
}

func (h *history) at(i uint64) *zygo.Zlisp {
	if h.env == nil || h.next != i || i%h.block == 0 {
		h.env = h.mk()
		for j := i - i%h.block; j < i; j++ {
			c01Run(h.env, h.text(j), true)
		}
	}
	h.next = i + 1
	return h.env
}

const c01Budget = 20000

// c01Run hands t to the entry points; the first outcome that is neither a
// value nor an error is returned.
func c01Run(env *zygo.Zlisp, t string, all bool) (bad string, o Out) {
	o = guard(c01Budget, func() (zygo.Sexp, error) { return env.EvalString(t) })
	check := func(what string, o Out) string {
		if o.Kind == "panic" {
			return what + " panics: " + o.S
		}
		if o.Kind == "val" {
			if o.V == nil {
				return what + " returns neither a value nor an error"
			}
			p := guard(c01Budget, func() (zygo.Sexp, error) { o.V.SexpString(nil); return zygo.SexpNull, nil })
			if p.Kind == "panic" {
				return "printing what " + what + " returned panics: " + p.S
			}
		} else {
			p := guard(c01Budget, func() (zygo.Sexp, error) { env.Clear(); return zygo.SexpNull, nil })
			if p.Kind == "panic" {
				return "Clear after " + what + " panics: " + p.S
			}
		}
		return ""
	}
	if bad = check("EvalString", o); bad != "" || !all {
		return
	}
	p := guard(c01Budget, func() (zygo.Sexp, error) {
		if err := env.LoadString(t); err != nil {
			return nil, err
		}
		return env.Run()
	})
	if bad = check("LoadString+Run", p); bad != "" {
		return
	}
	p = guard(c01Budget, func() (zygo.Sexp, error) {
		ps := env.NewParser()
		defer ps.Stop()
		ps.ResetAddNewInput(strings.NewReader(t))
		xs, err := ps.ParseTokens()
		if err != nil {
			return nil, err
		}
		return env.EvalExpressions(xs)
	})
	bad = check("ParseTokens+EvalExpressions", p)
	return
}

// textCase checks case i of a space of texts.
func (h *history) check(i uint64, all bool, r *Rec) {
	env := h.at(i)
	t := h.text(i)
	bad, o := c01Run(env, t, all)
	r.Validated++
	r.Count(o.Kind, 1)
	if bad == "" {
		return
	}
	h.env = nil
	if b2, _ := c01Run(h.mk(), t, all); b2 != "" {
		r.Violate("a panic leaves the library", t, b2)
		return
	}
	var b strings.Builder
	for j := i - i%h.block; j <= i; j++ {
		b.WriteString(h.text(j) + "\n")
	}
	r.Violate("a panic leaves the library", t, bad+"\nafter these evaluations in one interpreter:\n"+b.String())
}

func textSpace(name, bound string, n uint64, block uint64, all bool, mk func() *zygo.Zlisp, text func(i uint64) string) *Space {
	h := &history{block: block, mk: mk, text: text}
	return &Space{Name: name, Size: n, Bound: bound, Desc: text, HangS: 20, Chunk: block * 4,
		Init: func() { os.Chdir(scratch()) },
		Run: func(i uint64, r *Rec) { h.check(i, all, r) }}
}

func wordsOver(alpha []string, sep string, n int) (uint64, func(i uint64) string) {
	k := uint64(len(alpha))
	size := uint64(1)
	for j := 0; j < n; j++ {
		size *= k
	}
	return size, func(i uint64) string {
		var b strings.Builder
		for j := 0; j < n; j++ {
			if j > 0 {
				b.WriteString(sep)
			}
			b.WriteString(alpha[i%k])
			i /= k
		}
		return b.String()
	}
}

func byteSpace(alpha string, n int) *Space {
	as := make([]string, 0, 256)
	what := fmt.Sprintf("%d bytes %q", len(alpha), alpha)
	if alpha == "" {
		what = "all 256 bytes"
		for i := 0; i < 256; i++ {
			as = append(as, string([]byte{byte(i)}))
		}
	}
	for i := 0; i < len(alpha); i++ {
		as = append(as, alpha[i:i+1])
	}
	size, text := wordsOver(as, "", n)
	return textSpace(fmt.Sprintf("bytes-%d-of-%d", n, len(as)), fmt.Sprintf("all strings of %d of %s, through 3 entry points", n, what), size, 256, true, newC01Env, text)
}

var c01Tokens = []string{
	"(", ")", "[", "]", "{", "}", "x", "a", "1", "-1", "1.5", `"s"`, "'c'", "`r`", "nil", "k:", "h.k", ".k", "#p", "%", "^", "~", "~@", "@", "\\", ",", ";", ":", "=", ":=", "+", "-", "++", "!", "not", "and", "<", "&", "*", "//c\n", "/*c*/", "\n",
	"fn", "def", "defn", "let", "cond", "for", "if", "else", "quote", "begin", "defmac", "set", "struct", "func", "return", "break", "continue", "package", "hash", "range", "mdef", "var", "assert", "macexpand", "syntaxQuote", "newScope", "f1", "m1", "P0", "pk0.V", "\"", "`", "'", "/*", "lab:", "0x", "é", "\x80", "$", "|", "?", "/", "**", ".", "->", "==",
}

func tokenSpace(alpha []string, name string, n int) *Space {
	size, text := wordsOver(alpha, " ", n)
	return textSpace(fmt.Sprintf("%s-%d", name, n), fmt.Sprintf("all sequences of %d of %d tokens, through 3 entry points", n, len(alpha)), size, 256, n <= 3, newC01Env, text)
}

// tightSpace: bracketed token sequences without spaces
func tightSpace(alpha []string, n int) *Space {
	size, text := wordsOver(alpha, "", n)
	wraps := []string{"%s", "(%s)", "[%s]", "{%s}", "(x %s)"}
	k := uint64(len(wraps))
	return textSpace(fmt.Sprintf("tight-%d", n), fmt.Sprintf("all %d of %d tokens written without spaces, alone and in 4 brackets", n, len(alpha)), size*k, 256, false, newC01Env,
		func(i uint64) string { return strings.Replace(wraps[i%k], "%s", text(i/k), 1) })
}

// callSpace: every name in head position with all arguments of a pool
func callSpace(n int, pool []string, form string) *Space {
	initHeads()
	na, args := wordsOver(pool, " ", n)
	nh := uint64(len(c01Heads))
	return textSpace(fmt.Sprintf("calls-%d-of-%d%s", n, len(pool), map[string]string{"(%s)": "", "{%s}": "-infix"}[form]),
		fmt.Sprintf("every one of %d names (special forms, builders, macros, builtins, types, values) applied as %s to all sequences of %d of %d arguments: of every kind, cyclic, unbound, malformed", nh, fmt.Sprintf(form, "f ..."), n, len(pool)), na*nh, 128, false, newC01Env,
		func(i uint64) string { return fmt.Sprintf(form, c01Heads[i%nh]+" "+args(i/nh)) })
}

// tokens of a form, for editing
func splitTokens(s string) (out []string) {
	i := 0
	for i < len(s) {
		c := s[i]
		j := i + 1
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			i++
			continue
		case c == '"' || c == '`':
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(s))
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for j < len(s) && s[j] != '\n' {
				j++
			}
			j = min(j+1, len(s))
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			if k := strings.Index(s[i:], "*/"); k >= 0 {
				j = i + k + 2
			} else {
				j = len(s)
			}
		case strings.IndexByte("()[]{}%^~,;", c) >= 0:
			if c == '~' && j < len(s) && s[j] == '@' {
				j++
			}
		default:
			for j < len(s) && strings.IndexByte(" \n\t()[]{}\"`,;", s[j]) < 0 {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return
}

var c01Edits = []string{"", "1", "-1", "nil", "x", "a", "[]", "()", `"s"`, "'c'", "k:", "(f1 x)", "[x 1]", ",", "=", "{", ")", "(", "]", "&", "fn", "h.k", "#p", "~x", "%x", "cyh", "f1", "1.5", "\\", ";", "begin", "return", ":", "P0", "pk0"}

type edit struct{ form, pos, kind int }

func editSpace(name string, forms []string, pairs bool) *Space {
	toks := make([][]string, len(forms))
	var es []edit
	ne := len(c01Edits)
	for f, s := range forms {
		toks[f] = splitTokens(s)
		for p := range toks[f] {
			for k := 0; k < ne+2; k++ {
				es = append(es, edit{f, p, k})
			}
		}
	}
	apply := func(ts []string, e edit) []string {
		out := append([]string{}, ts[:e.pos]...)
		switch {
		case e.kind < ne:
			out = append(append(out, c01Edits[e.kind]), ts[e.pos+1:]...)
		case e.kind == ne: // twice
			out = append(append(out, ts[e.pos], ts[e.pos]), ts[e.pos+1:]...)
		default: // changed places with the next
			if e.pos+1 < len(ts) {
				out = append(append(out, ts[e.pos+1], ts[e.pos]), ts[e.pos+2:]...)
			} else {
				out = append(out, ts[e.pos:]...)
			}
		}
		return out
	}
	n := uint64(len(es))
	if !pairs {
		return textSpace(name, fmt.Sprintf("%d forms with every token in turn left out, doubled, moved or replaced by each of %d others", len(forms), ne-1), n, 64, false, newC01Env,
			func(i uint64) string { e := es[i]; return strings.Join(apply(toks[e.form], e), " ") })
	}
	// two edits at neighbouring tokens
	return textSpace(name, fmt.Sprintf("%d forms with every two neighbouring tokens each left out, doubled, moved or replaced by each of %d others", len(forms), ne-1), n*uint64(ne), 64, false, newC01Env,
		func(i uint64) string {
			e := es[i/uint64(ne)]
			ts := toks[e.form]
			if e.pos+1 < len(ts) {
				ts = apply(ts, edit{e.form, e.pos + 1, int(i % uint64(ne))})
			}
			return strings.Join(apply(ts, edit{e.form, e.pos, e.kind}), " ")
		})
}

func ctxSpace(depth int) *Space {
	nf, nc := uint64(len(catForms)), uint64(len(catContexts))
	n := nf
	for j := 0; j < depth; j++ {
		n *= nc
	}
	return textSpace(fmt.Sprintf("forms-in-contexts-%d", depth), fmt.Sprintf("%d uses of the forms in all nests of %d of %d contexts", nf, depth, nc), n, 64, depth <= 1, newC01Env,
		func(i uint64) string {
			s := catForms[i%nf]
			i /= nf
			for j := 0; j < depth; j++ {
				s = fillText(catContexts[i%nc], s)
				i /= nc
			}
			return s
		})
}

// --- depth, recursion, cycles ---

var c01Nests = [][3]string{
	{"(", "", ")"}, {"[", "", "]"}, {"{", "", "}"}, {"(", "x", ""}, {"[", "", ""}, {"{", "", ""}, {"{a:", "1", "}"}, {"(quote ", "x", ")"}, {"%", "x", ""}, {"^", "x", ""}, {"~", "x", ""}, {"(+ 1 ", "x", ")"},
	{"(begin ", "x", ")"}, {"(let [w ", "1", "] w)"}, {"(fn [] ", "x", ")"}, {"((fn [] ", "x", "))"}, {"(cond true ", "x", " 2)"}, {"{if x == 1 {", "x", "}}"}, {"{x + (", "x", ")}"}, {"{(", "x", ")}"},
	{"- ", "x", ""}, {"{not ", "x", "}"}, {"(x \\ ", "x", ")"}, {"{- ", "x", "}"}, {"(for [nil false nil] ", "x", ")"}, {"(defn ff [] ", "x", ")"}, {"(m1 ", "x", ")"}, {"(and 1 ", "x", ")"}, {"(package \"p\" ", "x", ")"}, {"(lz ", "x", ")"},
	{"(eval (quote ", "x", "))"}, {"(list 1 ", "x", ")"}, {"(newScope ", "x", ")"}, {"(hash k: ", "x", ")"}, {"(f1 ", "x", ")"}, {"(return ", "x", ")"}, {"(read \"", "x", "\")"}, {"(defmac mm [] ", "x", ")"}, {"^(1 ~(", "x", "))"}, {"^[", "~x", "]"}, {"^(", "~x", ")"}, {"%(", "x", ")"}, {"%[", "x", "]"}, {"(infixExpand {", "x", "})"}, {"(macexpand (m1 ", "x", "))"}, {"(== ", "x", " 1)"}, {"(var v (* ", "int64", "))"}, {"(& ", "x", ")"}, {"(assert ", "true", ")"}, {"{for false {", "x", "}}"},
	{"(struct S [(field a: ", "int64", ")])"}, {"a[", "0", "]"}, {"(a ", "0", ")"}, {"(%f ", "0", ")"}, {"(func q [] [] ", "x", ")"}, {"[,", "x", ",]"}, {"(syntaxQuote ", "x", ")"}, {"(mdef w ", "x", ")"}, {"(expectError \"\" ", "x", ")"}, {"(map f1 ", "[]", ")"}, {"(apply f2 ", "[]", ")"},
}

// repeated inside one infix block or list
var c01Chains = []string{"{x%s}| + x", "{x%s}| ** x", "{x%s}| = x", "{x%s}| and x", "{a%s}|[0]", "{%sx}|not ", "{%sx}|- ", "h%s|.k", "{x%s}|, x", "{%s}|x; ", "(+%s)| x", "[%s]| x", "(list%s)| [1]", "(cond%s 1)| false x", "(let [%s] 1)| w x", "(str%s)| x", "%s|x ", "%s|(x) ", "%s|[x] ", "%s|{x} ", "{if x {1}%s}| else if x {2}", "{%s}|x\n", "%s|/* c */ ", "%s|// c\n", "\"%s\"|ab", "`%s`|ab", "x%s|x", "1%s|1", "(begin%s)| (def q x)", "(and%s)| x", "(mdef%s [])| q", "(hash%s)| k: 1", "(fn [%s] 1)| q", "(f1%s)| x", "%s|:", "%s|.", "%s|'c'", "%s|#", "%s|@", "%s|\\", "(quote (%s))|x ", "^(%s)|~x "}

func deepText(i uint64, depths []int) string {
	n := uint64(len(c01Nests))
	c := uint64(len(c01Chains))
	d := depths[i/(n+c)]
	k := i % (n + c)
	if k < n {
		w := c01Nests[k]
		return strings.Repeat(w[0], d) + w[1] + strings.Repeat(w[2], d)
	}
	t, rep, _ := strings.Cut(c01Chains[k-n], "|")
	return strings.Replace(t, "%s", strings.Repeat(rep, d), 1)
}

func deepTextSpace(depths []int) *Space {
	n := uint64(len(depths) * (len(c01Nests) + len(c01Chains)))
	desc := func(i uint64) string {
		t := deepText(i, []int{3, 3, 3, 3, 3, 3, 3}[:len(depths)])
		return fmt.Sprintf("%s nested or repeated %d times", t, depths[i/uint64(len(c01Nests)+len(c01Chains))])
	}
	return &Space{Name: "deep-texts", Size: n, Chunk: 1, HangS: 40,
		Bound: fmt.Sprintf("%d kinds of brackets and forms nested, %d kinds of chains repeated, %v times", len(c01Nests), len(c01Chains), depths),
		Desc:  desc,
		Init:  func() { debug.SetMaxStack(600 << 20) },
		Run: func(i uint64, r *Rec) {
			bad, o := c01Run(newC01Env(), deepText(i, depths), false)
			r.Validated++
			r.Count(o.Kind, 1)
			if bad != "" {
				r.Violate("a panic leaves the library", desc(i), bad)
			}
		}}
}

var c01Builds = []string{
	"[v]", "(list v)", "(hash k: v)", "(cons v 1)", "(let [w v] (fn [] w))", "(list (quote quote) v)", "(list (quote begin) v)", "(list (quote +) 1 v)", "(list (quote fn) [] v)", "(& v)", "(concat [v] [1])", "(P0 a: v)", "(list (quote infix) [v])", "(package \"q\" (def V v))", "(hash v 1)",
}

// values whose parts are shared exponentially often
var c01Shared = []string{"[v v]", "(list v v)", "(hash k: v j: v)", "(cons v v)", "[(list v) (hash k: v)]"}

var c01Ops = []string{
	"v", "(str v)", "(== v v)", "(== v u)", "(json v)", "(msgpack v)", "(hash v 1)", "(eval v)", "(append [] v)", "(type? v)", "(flatten v)", "(len v)", "(fn [] v)", "((fn [q] q) v)", "(infixExpand {v})", "(eval (list (quote quote) v))", "(macexpand v)", "^(1 ~v)", "(m1 v)", "(lz v)", "(sprintf \"%v\" v)", "(togo v)", "(assert (== v v))", "(+ v 1)", "(v)", "(v 1)", "(map (fn [q] q) [v])", "(apply str [v])", "(hget v v)", "(read (str v))", "(gob v)", "(defn g [] v)", "(let [w v] (fn [] w))", "(nosuch v)", "(f1 v)", "(< v v)", "(empty? v)", "(set x v)", "(hset h (quote k) v)", "(substitute v)", "(expectError \"q\" (f1 v v))", "(sym2str v)", "(first v)", "(copy v)", "(defined? v)", "(eval [v])", "(deref v)", "(return v)", "(fromgo v)", "(keys v)", "{v.k}", "{v[0]}",
}

var c01Cycles = []string{
	"(def v [1]) {v[0] = v}", "(def v (hash k: 1)) (hset v (quote k) v)", "(def v [1]) (def w (hash k: v)) {v[0] = w}", "(def v [1]) {v[0] = (list 1 v)} (def v {v[0]})", "(def v [1 2]) {v[0] = v; v[1] = v}",
	"(def v (hash k: 1)) (hset v (quote k) (fn [] v))", "(def v [1]) {v[0] = (fn [] v)}", "(def v 1) (def pv (& v))", "(def q (P0 a: 1)) (def v [q]) (def v (hash k: v)) (hset v (quote j) [v v v])", "(def v [0 0]) (def w [v v]) {v[0] = w; v[1] = w}",
	"(def v [1]) (def v (append v (quote x))) {v[0] = (list (quote begin) v)} (def v {v[0]})", "(def v (hash k: 1)) (def pv (& v)) (hset v (quote k) pv)", "(def v (list (quote fn) [1] 2)) {v = (list (quote quote) [v])}",
	"(def v (package \"q\" (def V [1]))) {v.V[0] = v}", "(def v [1]) {v[0] = (macexpand (m1 v))} {v[0] = (list (quote infix) v)} (def v {v[0]})",
}

func cycleSpace() *Space {
	nc, no := uint64(len(c01Cycles)), uint64(len(c01Ops))
	text := func(i uint64) string {
		return c01Cycles[i/no] + " (def u [v]) (def u v)\n" + strings.ReplaceAll(c01Ops[i%no], "u", "u")
	}
	second := c01Cycles
	return &Space{Name: "cycles", Size: nc * no, Chunk: 1, HangS: 20,
		Bound: fmt.Sprintf("%d ways to make data contain itself x %d operations", nc, no),
		Desc:  text,
		Init:  func() { debug.SetMaxStack(200 << 20) },
		Run: func(i uint64, r *Rec) {
			env := newC01Env()
			// an equal twin, for comparisons
			c01Run(env, second[i/no]+" (def u v)", false)
			bad, o := c01Run(env, text(i), false)
			r.Validated++
			r.Count(o.Kind, 1)
			if bad != "" {
				r.Violate("a panic leaves the library", text(i), bad)
			}
		}}
}

func deepValueSpace(name string, builds []string, depths []int) *Space {
	nb, no := uint64(len(builds)), uint64(len(c01Ops))
	text := func(i uint64) string {
		op := c01Ops[i%no]
		i /= no
		b := builds[i%nb]
		i /= nb
		return fmt.Sprintf("(def v [1]) (def u [1]) (for [(def i9 0) (< i9 %d) (set i9 (+ i9 1))] (set v %s)) (set u v) %s", depths[i], b, op)
	}
	return &Space{Name: name, Size: uint64(len(depths)) * nb * no, Chunk: 1, HangS: 40,
		Bound: fmt.Sprintf("%d ways to nest a value %v times x %d operations", nb, depths, no),
		Desc:  text,
		Init:  func() { debug.SetMaxStack(130 << 20) },
		Run: func(i uint64, r *Rec) {
			if name == "shared-values" && (strings.HasPrefix(c01Ops[i%no], "(eval") || c01Ops[i%no] == "(hget v v)") {
				return // code of that size takes as many steps
			}
			env := newC01Env()
			o := guard(1<<40, func() (zygo.Sexp, error) { return env.EvalString(text(i)) })
			r.Validated++
			r.Count(o.Kind, 1)
			if o.Kind == "panic" {
				r.Violate("a panic leaves the library", text(i), o.S)
				return
			}
			if o.Kind == "val" {
				if p := guard(1<<40, func() (zygo.Sexp, error) { o.V.SexpString(nil); return zygo.SexpNull, nil }); p.Kind == "panic" {
					r.Violate("printing panics", text(i), p.S)
				}
			}
		}}
}

var c01Recs = []string{
	"(defn f [x] (+ 1 (f x))) (f 1)", "(defn f [x] (map f [x])) (f 1)", "(defn f [x] (apply f [x]) 1) (f 1)", "(defmac m [x] ^(m ~x)) (m 1)", "(defmac m [x] ^(+ 1 (m ~x))) (m 1)", "(defmac m [x] (m x)) (m 1)", "(defmac m [x] (eval (quote (m 1)))) (m 1)", "(defn f [x] (eval (quote (f 1)))) (f 1)", "(defn f [x] [(f x)]) (f 1)", "(defn f [x] (let [w (f x)] w)) (f 1)", "(defn f [#x] (force #x)) (defn g [] (f (g))) (g)", "(defn f [x] (g x) 1) (defn g [x] (f x) 1) (f 1)", "(def h (hash)) (defn f [x] (h.g x) 1) (hset h (quote g) f) (f 1)",
	"(defn f [g] (list (g g))) (f f)", "(defn f [x] (cond (f x) 1 2)) (f 1)", "(defn f [x] (and (f x) 1)) (f 1)", "(func f [a:int64] [n:int64] (+ 1 (f a))) (f 1)", "(defn f [x] (source \"@F/self.zy\")) (f 1)", "(source \"@F/self.zy\")", "(include \"@F/selfinc.zy\")", "(req \"@F/self\")", "(defn f [x] (macexpand (m x))) (defmac m [e] (f e)) (f 1)", "(defn f [x] (for [nil (f x) nil] 1)) (f 1)", "(defn f [x] (assert (f x))) (f 1)", "(defn f [x] (read \"1\") (eval (read \"(f 1)\")) 1) (f 1)", "(defn f [x] {1 + f(x)}) (f 1)", "(defn f [x] (timeit (fn [] (f x)) 1)) (f 1)", "(defn f [x] (package \"p\" (def A (f x)))) (f 1)", "(defn f [x] (newScope (f x) 1)) (f 1)", "(defn f [x] (expectError \"\" (f x))) (f 1)", "(defn f [x] ^(1 ~(f x))) (f 1)", "(defn f [x] (begin (eval (list (quote begin) (quote (f 1)))) 1)) (f 1)", "(defn f [x] (str (f x))) (f 1)", "(defn f [x] (sort f [2 1])) (f 1)", "(defn f [x] (return (+ 1 (f x)))) (f 1)", "(def f (fn [g x] (+ 1 (g g x)))) (f f 1)", "(defn f [x] (hash k: (f x))) (f 1)", "(defn f [x] (def z (f x))) (f 1)", "(defn f [x] (set q (f x))) (f 1)", "(defn f [x] {a[f(x)] = 1}) (f 1)", "(defn f [x & r] (apply f (cons x r)) 1) (f 1)",
}

var recFiles = map[string]string{"self.zy": "(source \"@F/self.zy\")\n", "selfinc.zy": "(include \"@F/selfinc.zy\")\n"}

func recSpace() *Space {
	return &Space{Name: "recursion", Size: uint64(len(c01Recs)), Chunk: 1, HangS: 200,
		Bound: fmt.Sprintf("%d programs that recurse without end through every kind of call, compile-time and run-time", len(c01Recs)),
		Desc:  func(i uint64) string { return c01Recs[i] },
		Init: func() {
			debug.SetMaxStack(800 << 20)
			for n, s := range recFiles {
				os.WriteFile(filepath.Join(scratch(), n), []byte(strings.ReplaceAll(s, "@F", scratch())), 0o644)
			}
		},
		Run: func(i uint64, r *Rec) {
			env := newC01Env()
			t := strings.ReplaceAll(c01Recs[i], "@F", scratch())
			o := guard(1<<40, func() (zygo.Sexp, error) { return env.EvalString(t) })
			r.Validated++
			r.Count(o.Kind, 1)
			if o.Kind == "panic" {
				r.Violate("a panic leaves the library", c01Recs[i], o.S)
			} else if o.Kind == "err" {
				env.Clear()
				if p := Eval(env, "(+ 1 2)"); p.S != "3" {
					r.Violate("the interpreter is unusable after endless recursion", c01Recs[i], p.String())
				}
			}
		}}
}

// --- the zygo command ---

func procSpace(texts []string, name string) *Space {
	const per = 48
	n := (len(texts) + per - 1) / per
	modes := uint64(5)
	var dir string
	died := func(err error, out []byte) string {
		if err == nil {
			return ""
		}
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return err.Error()
		}
		s := string(out)
		if ee.ExitCode() < 0 || ee.ExitCode() == 2 || strings.Contains(s, "goroutine 1 [") {
			if len(s) > 600 {
				s = s[:300] + "..." + s[len(s)-300:]
			}
			return fmt.Sprintf("%v\n%s", err, s)
		}
		return ""
	}
	run := func(t string, mode uint64) (string, []byte) {
		var cmd *exec.Cmd
		switch mode {
		case 0:
			cmd = exec.Command(zygoBin(), "-quiet", "-exitonfail", "-c", t)
		case 1:
			f := filepath.Join(dir, "script.zy")
			os.WriteFile(f, []byte(t), 0o644)
			cmd = exec.Command(zygoBin(), "-quiet", "-exitonfail", f)
		case 2:
			cmd = exec.Command(zygoBin(), "-quiet", "-no-liner")
			cmd.Stdin = strings.NewReader(t)
		case 3:
			cmd = exec.Command(zygoBin())
			cmd.Stdin = strings.NewReader(t)
		default:
			// an error leads to the prompt, on a stdin that is no terminal
			f := filepath.Join(dir, "script.zy")
			os.WriteFile(f, []byte(t), 0o644)
			cmd = exec.Command(zygoBin(), f)
			cmd.Stdin = strings.NewReader(t)
		}
		cmd.Dir = dir
		tm := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		defer tm.Stop()
		out, err := cmd.CombinedOutput()
		return died(err, out), out
	}
	return &Space{Name: name, Size: uint64(n) * modes, Chunk: 1, HangS: 300,
		Bound: fmt.Sprintf("%d texts given to the zygo command with -c, as a script, in two ways to its REPL, and as a script leading to the REPL: exit status", len(texts)),
		Desc:  func(i uint64) string { return fmt.Sprintf("texts %d-, mode %d", i/modes*per, i%modes) },
		Init:  func() { dir = scratch() },
		Run: func(i uint64, r *Rec) {
			mode := i % modes
			ts := texts[i/modes*per : min(int(i/modes*per)+per, len(texts))]
			r.Validated += uint64(len(ts))
			if mode == 2 || mode == 3 {
				// one session for all
				bad, out := run(strings.Join(ts, "\n/* */\n")+"\n", mode)
				if bad == "" && !strings.Contains(string(out), "EOF") {
					bad = "the session did not reach its end"
				}
				if bad == "" {
					return
				}
			}
			for _, t := range ts {
				if mode == 2 || mode == 3 {
					t += "\n"
				}
				if bad, _ := run(t, mode); bad != "" {
					r.Violate("the zygo command dies", t, fmt.Sprintf("mode %d\n%s", mode, bad))
				}
			}
		}}
}

func init() {
	register(&PropDef{ID: "C01", Assume: []string{
		"programs block only where the language says so: channel operations, sleep and reading standard input are not called; nor are the functions that act on files, processes or the environment",
		"no allocation larger than the machine is asked for",
		"the default limit of Go stacks (1 GB) is not lowered by the host",
	}, Spaces: func(tier string) []*Space {
		th := tier == "thorough"
		brk := []string{"(", ")", "[", "]", "{", "}", "x", "1", ":", ",", "=", "+", "-", "\"", "if", "a"}
		chars := " \n()[]{}x1.-+'\"`/*#:;,\\~@^%=!<&|"
		dt, dv := []int{100, 3000}, []int{100, 12000}
		if th {
			dt, dv = []int{100, 10000, 30000}, []int{100, 30000, 100000}
		}
		out := []*Space{
			recSpace(), cycleSpace(), deepTextSpace(dt), deepValueSpace("deep-values", c01Builds, dv),
			deepValueSpace("shared-values", c01Shared, []int{20, 90}), byteSpace("", 1), byteSpace("", 2), byteSpace(chars, 3), byteSpace("()[]{}x1-.\"'/:", 4),
			tokenSpace(c01Tokens, "tokens", 1), tokenSpace(c01Tokens, "tokens", 2), tokenSpace(brk, "brackets", 4), tightSpace(c01Tokens, 2),
			callSpace(0, c01Pool, "(%s)"), callSpace(1, c01Pool, "(%s)"), callSpace(1, c01Pool, "{%s}"), callSpace(2, c01Pool, "(%s)"), callSpace(2, c01Small, "{%s}"),
			ctxSpace(0), ctxSpace(1), editSpace("edited-forms", catForms, false),
			procSpace(append(append([]string{}, c01Tokens...), catForms...), "command"),
		}
		if th {
			out = append(out, tokenSpace(c01Tokens, "tokens", 3), tightSpace(c01Tokens, 3), callSpace(2, c01Pool, "{%s}"), callSpace(3, c01Small, "(%s)"),
				editSpace("edited-forms-pairs", catForms, true), ctxSpace(2), byteSpace("", 3), byteSpace(chars, 5), callSpace(3, c01Pool, "(%s)"))
		}
		return out
	}})
}
