package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C05: a failed evaluation restores the interpreter.

// ways in which the k-th host call fails
var failKinds = []string{"error", "panic", "apply", "compile", "macro", "lazy", "read", "nested"}

// evaluated in the real interpreter before the program under test
const failSetup = `(defn zzboom [q] (let [z q] (for [(def zi 0) (< zi 2) (def zi (+ zi 1))] (let [w zi] (nosuchfn z)))))
(defmac zzbad [e] (begin (let [z 1] (nosuchfn z))))
(defn zzlz [#p] (let [z 1] (force #p)))
(def zzcompile (quote (let [z 1] (for [(def zi 0) (< zi 2) (def zi (+ zi 1))] (let [w] 1)))))
(def zzmacro (quote (let [z 1] (zzbad 1))))
(def zzlazy (quote (let [z 1] (zzlz (nosuchfn 3)))))
(def zzread (quote (let [z 1] (read "(1 2"))))
(def zznested (quote (let [z 1] (eval (quote (for [(def zi 0) (< zi 2) (def zi (+ zi 1))] (let [z 1] (eval (quote (zzboom z))))))))))
`

type failTracer struct {
	Tracer
	At   int // the call that fails, counted from 1
	Kind string
}

func (t *failTracer) Install(env *zygo.Zlisp) {
	env.AddFunction("t", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		t.N++
		var s []string
		for _, a := range args {
			s = append(s, Dump(a))
		}
		if len(t.Log) < 4000 {
			t.Log = append(t.Log, strings.Join(s, ","))
		}
		if t.At > 0 && t.N == t.At {
			switch t.Kind {
			case "error":
				return zygo.SexpNull, errors.New("injected")
			case "panic":
				panic("injected")
			case "apply":
				f, _ := env.FindObject("zzboom")
				_, err := env.Apply(f.(*zygo.SexpFunction), []zygo.Sexp{&zygo.SexpInt{Val: 3}})
				return zygo.SexpNull, err
			default:
				x, _ := env.FindObject("zz" + t.Kind)
				_, err := zygo.EvalFunction(env, "eval", []zygo.Sexp{x})
				return zygo.SexpNull, err
			}
		}
		if len(args) == 0 {
			return zygo.SexpNull, nil
		}
		return args[0], nil
	})
}

// battery of evaluations made after a failure in a core interpreter
var coreBattery = []string{
	"(begin (def bx 0) (for [(def bi 0) (< bi 4) (def bi (+ bi 1))] (let [bz bi] (cond (== bi 2) (continue) (set bx (+ bx bz))))) [bx ((fn [q] (let [r q] (cond (== r 7) r 8))) 7)])",
	"(begin (defn br [n acc] (cond (== n 0) acc (let [m n] (br (- m 1) (append acc (fn [] (+ m 1))))))) (map (fn [f] (f)) (br 3 [])))",
	"(for lab: [(def bi 0) (< bi 3) (def bi (+ bi 1))] (for [(def bj 0) (< bj 3) (def bj (+ bj 1))] (let [k bj] (break lab:))))",
	"(and 1 (or nil bi))",
}

var coreBatteryForms [][]*N

func globalsOf(m *Ref) []string {
	var ns []string
	for n := range m.global.vars {
		if _, ok := rBuiltins[n]; ok {
			continue
		}
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func refGlobals(m *Ref, names []string) string {
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "%s=%s ", n, RDump(m.global.vars[n]))
	}
	return b.String()
}

func envGlobals(env *zygo.Zlisp, names []string) string {
	var b strings.Builder
	for _, n := range names {
		v, ok := env.FindObject(n)
		s := "<undefined>"
		if ok {
			s = Dump(v)
		}
		fmt.Fprintf(&b, "%s=%s ", n, s)
	}
	return b.String()
}

// failSpace: every program of a family x every host call in it x every kind of
// failure, followed by the program itself and a battery of other programs, all
// compared with the reference evaluator after the same prefix.
func failSpace(f *coreFam, kinds int) *Space {
	s := famSpace(f, func(forms []*N, src string, r *Rec, i uint64) {
		if coreBatteryForms == nil {
			for _, b := range coreBattery {
				coreBatteryForms = append(coreBatteryForms, parseForms(b))
			}
		}
		m0, o0 := refRun(forms)
		if o0.Kind == "unsup" || o0.Kind == "steps" {
			r.Count("skipped_"+o0.Kind, 1)
			return
		}
		k0 := m0.Hosts
		if k0 > 12 {
			r.Count("host_calls_beyond_12", 1)
			k0 = 12
		}
		last := k0
		if o0.Kind == "err" {
			last++ // the program's own failure
		}
		for k := 1; k <= last; k++ {
			for kk := 0; kk < kinds; kk++ {
				kind := failKinds[(kk+int(i)+k)%len(failKinds)]
				if kinds == len(failKinds) {
					kind = failKinds[kk]
				}
				if k > k0 {
					if kk > 0 {
						break
					}
					kind = "its own"
				}
				if !failOne(forms, src, k, kind, r) {
					return
				}
			}
		}
		if i%9973 == 11 {
			r.Sample(strings.ReplaceAll(src, "\n", " "))
		}
	})
	s.Bound += fmt.Sprintf("; every host call (the first 12 of each program) failing in %d of %d ways, then the program again and %d other programs", kinds, len(failKinds), len(coreBattery))
	return s
}

func failOne(forms []*N, src string, k int, kind string, r *Rec) bool {
	input := fmt.Sprintf("%s## host call %d fails: %s", src, k, kind)
	m := NewRef()
	if kind != "its own" {
		m.FailAt = k
	}
	o := m.Run(forms)
	if o.Kind == "steps" || o.Kind == "unsup" {
		r.Count("skipped_"+o.Kind, 1)
		return true
	}
	if o.Kind != "err" {
		r.Count("skipped_no_failure", 1) // e.g. caught
		return true
	}
	env := NewCore()
	tr := &failTracer{Kind: kind}
	if kind != "its own" {
		tr.At = k
	}
	tr.Install(env)
	if out := Eval(env, failSetup); out.Kind != "val" {
		r.Violate("setup fails", failSetup, out.String())
		return false
	}
	out := Eval(env, src)
	r.Validated++
	r.Trans += uint64(m.Steps)
	bad := func(sig, d string) bool {
		r.Violate(sig, input, "program:\n"+src+fmt.Sprintf("failing host call: %d (%s)\noutcome %s\n", k, kind, out)+d)
		return false
	}
	if out.Kind != "err" {
		return bad("a failure is swallowed ("+out.Kind+")", "expected an error")
	}
	if tr.String() != strings.Join(m.Log, " ") {
		return bad("wrong effects before the failure", "expected "+strings.Join(m.Log, " ")+"\ngot "+tr.String())
	}
	if d := depthsOf(env); d != restDepths {
		return bad("interpreter not at rest after a failure", d)
	}
	r.State(out.Kind + tr.String())
	m.FailAt = 0
	tr.At = 0
	names := globalsOf(m)
	cmpGlobals := func(when string) bool {
		for _, n := range names {
			a, b := refGlobals(m, []string{n}), envGlobals(env, []string{n})
			if a != b {
				return bad("definitions differ after a failure", when+"\nexpected "+a+"\ngot      "+b)
			}
		}
		return true
	}
	if !cmpGlobals("right after the failure") {
		return false
	}
	if o := Eval(env, "\n"); o.Kind != "val" || o.V != zygo.SexpNull {
		return bad("empty input after a failure", "evaluates to "+o.String())
	}
	stop := false
	after := func(what string, fs []*N, text string) bool {
		m.Log, tr.Log = nil, nil
		eo := m.Run(fs)
		if eo.Kind == "steps" || eo.Kind == "unsup" {
			r.Count("skipped_later_"+eo.Kind, 1)
			stop = true
		}
		if stop {
			return true
		}
		ro := Eval(env, text)
		exp := eo.Kind
		if exp == "val" {
			exp += ":" + eo.S
		}
		exp += " trace=" + strings.Join(m.Log, " ")
		got := ro.Class() + " trace=" + tr.String()
		if exp != got {
			return bad("a later evaluation differs", what+": "+text+"expected "+exp+"\ngot      "+ro.String()+" trace="+tr.String())
		}
		if d := depthsOf(env); d != restDepths {
			return bad("interpreter not at rest after a later evaluation", what+": "+text+d)
		}
		return true
	}
	if !after("the same program again", forms, src) {
		return false
	}
	names = globalsOf(m)
	if !stop && !cmpGlobals("after the same program again") {
		return false
	}
	for j, b := range coreBattery {
		if !after("battery", coreBatteryForms[j], b+"\n") {
			return false
		}
	}
	return true
}

// ---- the full language: failing forms in contexts

// each fails whenever it is evaluated (or compiled, or parsed)
var failForms = []string{
	// while running
	"(boom)", "(kaboom)", "nosuchsym", "(nosuchfn 1)", "(f1)", "(f1 1 2)", "(/ 1 0)", "(aget a 99)", "(hget h %none)", "(+ 1 \"a\")", "(1 2)", "(assert false)", "(fb 3)", "(lz (boom))", "(map fb a)", "(apply fb [1])", "(eval (quote (boom)))", "(+ 1 h.nosuch)", "(pk0.G 1)", "(+ 1 pk0.W)", "(first [])", "(tf 1)", "(tf \"a\" 2)", "(tf a: 1 b: 2 c: 3)", "(mdef p q [1])", "{a[9] = 1}", "{r0.a = \"s\"}", "(sget \"abc\" 9)", "(read \"(1\")", "(unjson (raw \"{\"))", "(unmsgpack (raw \"\"))", "(str2sym 4)", "(expectError \"zzz\" 1)", "(expectError \"zzz\" (boom))", "(for [(def i 0) (< i 3) (set i (+ i 1))] (let [q i] (boom)))", "(let [q 1] (newScope (fb q)))", "(package \"pf\" (def A 1) (boom))", "(package \"pf\" (defn B [] (boom)) (B))", "{(boom)}", "{x = (fb 2)}", "(range k v a (fb v))", "{for k, v := range h { (boom) }}", "((fn [q] (return (fb q))) 3)", "(return (boom))", "(substitute)", "(force)",
	// builders
	"(struct Bad [(field 1 2)])", "(struct)", "(func bf [a:nosuchtype] [n:int64] a)", "(var)", "(var bv nosuchtype)", "(P0 nosuch: 1)", "(P0 a: \"s\")", "(interface)", "(package)", "(method)", "(& nosuch)", "(* x)", "(slice)", "(hash 1)",
	// while compiling
	"(let [q] 1)", "(let)", "(for [])", "(for [(def i 0) true (def i 1)] (let [q] 1))", "(fn)", "(fn [q])", "(defn)", "(defn bd [q] (let [z] 1))", "(cond)", "(def)", "(def 3 4)", "(set)", "(mdef)", "(quote)", "(defmac)", "(syntaxQuote)", "(newScope (let [z] 1))", "(let [q 1] (letseq [r 2] (fn [s] (let [z] 1))))", "(a b = 1)", "^(1 ~@)", "(include)", "(macexpand)", "(eval (quote (let [z] 1)))", "(defmac mbad2 [x] (let [z] 1))", "(for [(def i 0) (< i 2) (def i (+ i 1))] (for lab: [(def j 0) (< j 2) (def j (+ j 1))] (let [q] 1)))",
	// while expanding
	"(mbad 1)", "(mbad)", "(let [q 1] (mbad q))", "(m1)", "(for [(def i 0) (< i 2) (def i (+ i 1))] (mbad i))",
	// while parsing
	"(", ")", "[1 2", "{x", "\"abc", "`abc", "(1 2]", "#", "~", "(quote", "'ab'", "0xzz", "(a . )", "/* c", "@@", "1a", "{x = ", "(hash a:",
}

const failCatSetup = catSetup + `(defmac mbad [e] (begin (let [z 1] (nosuchfn z)))) (defn fb [q] (let [w q] (boom)))
`

// evaluated after a failure; their results must be those of an interpreter
// that never ran the failing program
var catBattery = []string{
	"", "[x y a l r0 vi]\n", "h\n", "(begin (def b1 0) (for [(def b2 0) (< b2 4) (def b2 (+ b2 1))] (let [b3 b2] (cond (== b3 2) (continue) (set b1 (+ b1 b3))))) [b1 b2])\n",
	"(for lab: [(def b2 0) (< b2 3) (set b2 (+ b2 1))] (for [(def b4 0) (< b4 3) (set b4 (+ b4 1))] (let [q b4] (break lab:))))\n",
	"[(f1 2) (f2 1 2) (va 1 2) (lz (f1 1)) (m1 4) (pk0.F 1) (tf a: 3 b: 4)]\n", "(range k v a (def b5 v))\n", "(begin (struct Zs [(field q: int64)]) (Zs q: 4))\n", "(begin (package \"zp\" (def Zq 4)) zp.Zq)\n",
	"{b6 := 3; b6 = b6 + 1}\n", "(begin (func zf [q:int64] [n:int64] (+ q 1)) (zf 3))\n", "(eval (quote (let [b7 1] (begin (def b8 b7) (+ b8 1)))))\n",
	"(begin (defn b9 [n] (cond (== n 0) [] (let [m n] (append (b9 (- m 1)) m)))) (b9 3))\n", "(begin (defn b0 [n] (cond (== n 0) x (let [m n] (b0 (- m 1))))) (b0 3))\n", "(map (fn [z] (let [w z] (+ w x))) a)\n", "(macexpand (m1 4))\n",
	"(nosuch2)\n", "[z w p q lab]\n", "ff\n", "pf\n", "ctx\n", "gg9\n", "mm9\n", "(str [1 \"a\" 'c'])\n",
}

// names of values printed the same in two interpreters
func catBatteryRun(env *zygo.Zlisp) []string {
	var out []string
	for _, b := range catBattery {
		o := Eval(env, b)
		out = append(out, noAddr(o.Class())+" "+depthsOf(env))
	}
	return out
}

type boomTracer struct {
	Tracer
}

func (t *boomTracer) Install(env *zygo.Zlisp) {
	t.Tracer.Install(env)
	env.AddFunction("boom", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		return zygo.SexpNull, errors.New("injected")
	})
	env.AddFunction("kaboom", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		var m map[string]int
		m["x"] = 1
		return zygo.SexpNull, nil
	})
}

func failEnv(setup string) (*zygo.Zlisp, *boomTracer, Out) {
	env := NewStd()
	tr := &boomTracer{}
	tr.Install(env)
	return env, tr, Eval(env, setup)
}

var twinMemo = map[string][]string{}

// twinOf is the battery's outcome after prog alone.
func twinOf(prog string) ([]string, bool) {
	if t, ok := twinMemo[prog]; ok {
		return t, t != nil
	}
	env, _, _ := failEnv(failCatSetup)
	var t []string
	if prog == "" || Eval(env, prog).Kind == "val" {
		t = catBatteryRun(env)
	}
	if len(twinMemo) > 3000 {
		twinMemo = map[string][]string{}
	}
	twinMemo[prog] = t
	return t, t != nil
}

func runsIt(shape string) bool {
	env, tr, _ := failEnv(failCatSetup)
	Eval(env, fillText(shape, "(t 5)")+"\n")
	return tr.N > 0
}

var runsMemo = map[string]bool{}

func runs(shape string) bool {
	b, ok := runsMemo[shape]
	if !ok {
		b = runsIt(shape)
		if len(runsMemo) > 5000 {
			runsMemo = map[string]bool{}
		}
		runsMemo[shape] = b
	}
	return b
}

func ctxShape(d int, i uint64) string {
	s := "$1"
	for k := 0; k < d; k++ {
		s = fillText(catContexts[i%uint64(len(catContexts))], s)
		i /= uint64(len(catContexts))
	}
	return s
}

// checkFailed: src was expected to fail if must.  The interpreter must be at
// rest, and behave like one that evaluated only twin.
func checkFailed(env *zygo.Zlisp, src, setup string, must, battery bool, twin string, r *Rec) {
	o := Eval(env, src)
	if o.Kind == "steps" || o.Kind == "panic" {
		r.Count("skipped_"+o.Kind, 1)
		return
	}
	r.Validated++
	r.State(o.Kind + strings.SplitN(noAddr(o.S), "\n", 2)[0])
	bad := func(sig, d string) { r.Violate(sig, src, "program:\n"+src+"\noutcome "+o.String()+"\n"+d) }
	if o.Kind == "val" && must {
		bad("a failure is swallowed", "expected an error")
		return
	}
	if d := depthsOf(env); d != restDepths {
		bad("interpreter not at rest after "+map[string]string{"val": "a value", "err": "a failure"}[o.Kind], d)
		return
	}
	if o.Kind != "err" {
		r.Count("no_failure", 1)
		return
	}
	if !battery {
		return
	}
	want, ok := twinOf(twin)
	if !ok {
		r.Count("skipped_no_twin", 1)
		return
	}
	got := catBatteryRun(env)
	for i := range want {
		if got[i] != want[i] {
			bad("a later evaluation differs", fmt.Sprintf("later evaluation: %q\nexpected %s\ngot      %s", catBattery[i], want[i], got[i]))
			return
		}
	}
}

// changes the battery would see: contexts that complete a definition before
// the failing form runs are compared by rest only
func failCtxSpace(d int, forms []string, name string) *Space {
	n := uint64(1)
	for k := 0; k < d; k++ {
		n *= uint64(len(catContexts))
	}
	nf := uint64(len(forms))
	return &Space{Name: name, Size: n * nf,
		Bound: fmt.Sprintf("%d forms that fail while running, declaring, compiling, expanding or being parsed, in every nest of %d of %d contexts; then %d evaluations compared with an interpreter that never ran the failing program", nf, d, len(catContexts), len(catBattery)),
		Desc:  func(i uint64) string { return fillText(ctxShape(d, i/nf), forms[i%nf]) },
		Run: func(i uint64, r *Rec) {
			shape := ctxShape(d, i/nf)
			src := fillText(shape, forms[i%nf]) + "\n"
			env, _, so := failEnv(failCatSetup)
			if so.Kind != "val" {
				r.Violate("setup fails", failCatSetup, so.String())
				return
			}
			must := runs(shape) && !strings.Contains(shape, "expectError")
			// a half-open literal that stands in the text twice closes itself
			if f := forms[i%nf]; strings.Count(src, f) > 1 && (f == "\"abc" || f == "`abc") {
				r.Count("skipped_closes_itself", 1)
				return
			}
			twin := ""
			for _, c := range []string{"(defn ff ", "(func gg9 ", "(defmac mm9 "} {
				if strings.Contains(shape, c) {
					twin = "-"
				}
			}
			checkFailed(env, src, failCatSetup, must, twin == "", "", r)
			if i%9973 == 3 {
				r.Sample(src)
			}
		}}
}

// shapes in which $1 completes before $2 fails
var afterShapes = []string{
	"$1\n$2",
	"(t 77) $1\n$2",
	"(begin (t 77) $1 $2)",
	"(let [zz1 (t 77) zz2 $1] $2)",
	"(list (t 77) $1 $2)",
	"((fn [] (t 77) $1 $2))",
	"(for [(t 77) true nil] $1 $2)",
	"(eval (quote (begin (t 77) $1 $2)))",
	"(lz (begin (t 77) $1 $2))",
	"(map (fn [zz1] (t 77) $1 $2) [1 2])",
	"(package \"pf2\" (t 77) $1 $2)",
	"(m2 (t 77) $1 $2)",
}

var afterFails = []string{"(boom)", "(kaboom)", "(let [q] 1)", "(mbad 1)", "(fb 2)", "(", "(var bv nosuchtype)", "(for [(def b1 0) true nil] (newScope (boom)))"}

func fill2(shape, a, b string) string {
	return strings.ReplaceAll(strings.ReplaceAll(shape, "$2", "\x01"), "$1", a)[:0] + func() string {
		s := strings.ReplaceAll(shape, "$1", "\x01")
		s = strings.ReplaceAll(s, "$2", "\x02")
		s = strings.ReplaceAll(s, "\x01", a)
		return strings.ReplaceAll(s, "\x02", b)
	}()
}

func failAfterSpace(stride int) *Space {
	ns, nf := uint64(len(afterShapes)), uint64(len(afterFails))
	var forms []string
	for i := 0; i < len(catForms); i += stride {
		forms = append(forms, catForms[i])
	}
	at := func(i uint64) (shape, form, fail string) {
		return afterShapes[i%ns], forms[i/ns/nf], afterFails[i/ns%nf]
	}
	return &Space{Name: "after-work", Size: ns * nf * uint64(len(forms)),
		Bound: fmt.Sprintf("%d forms x %d places x %d failures right after the form; the battery compared with an interpreter that ran the form alone in that place", len(forms), ns, nf),
		Desc:  func(i uint64) string { s, a, b := at(i); return fill2(s, a, b) },
		Run: func(i uint64, r *Rec) {
			shape, form, fail := at(i)
			if strings.Contains(form, "//") || strings.Contains(form, "gensym") {
				return
			}
			src := fill2(shape, form, fail) + "\n"
			env, tr, _ := failEnv(failCatSetup)
			// what ran before the failure?
			probe, ptr, _ := failEnv(failCatSetup)
			Eval(probe, src)
			_ = tr
			twin := ""
			if strings.HasPrefix(shape, "$1") {
				// all or nothing: the text is compiled as a whole
				if fail == "(let [q] 1)" || fail == "(" || fail == "(mbad 1)" {
					twin = ""
				} else {
					twin = form + "\n"
				}
			} else if ptr.N > 0 {
				end := "(t 78)"
				if strings.HasPrefix(shape, "(for") {
					end = "(break)"
				}
				if strings.HasPrefix(shape, "(map") {
					shape = strings.Replace(shape, "[1 2]", "[1]", 1)
				}
				twin = fill2(shape, form, end) + "\n"
				if strings.HasPrefix(shape, "(package") {
					twin = "(begin " + strings.TrimSuffix(twin, "\n") + " 1)\n"
				}
			}
			checkFailed(env, src, failCatSetup, !strings.Contains(form, "return"), true, twin, r)
		}}
}

// cut texts: every form cut short at every byte, and with every byte left out
func cutSpace(stride int) *Space {
	var texts []string
	for i := 0; i < len(catForms); i += stride {
		texts = append(texts, catForms[i])
	}
	type cut struct {
		t, at int
		del   bool
	}
	var cuts []cut
	for t, s := range texts {
		for k := 1; k < len(s); k++ {
			cuts = append(cuts, cut{t, k, false}, cut{t, k, true})
		}
	}
	text := func(i uint64) string {
		c := cuts[i]
		if c.del {
			return texts[c.t][:c.at] + texts[c.t][c.at+1:]
		}
		return texts[c.t][:c.at]
	}
	return &Space{Name: "cut-texts", Size: uint64(len(cuts)),
		Bound: fmt.Sprintf("%d forms cut short at every byte and with every byte left out, followed by a newline or by nothing; after a parse error the battery is compared with an untouched interpreter", len(texts)),
		Desc:  text,
		Run: func(i uint64, r *Rec) {
			src := text(i)
			if i%2 == 0 {
				src += "\n"
			}
			env, _, _ := failEnv(failCatSetup)
			probe := NewBare()
			perr := probe.LoadString(src)
			parse := perr != nil && strings.Contains(perr.Error(), "Error on line")
			checkFailed(env, src, failCatSetup, parse, parse, "", r)
		}}
}

// failure histories: sequences of failing programs, then the battery
func failSeqSpace(n int, forms []string) *Space {
	nf := uint64(len(forms))
	size := uint64(1)
	for k := 0; k < n; k++ {
		size *= nf
	}
	at := func(i uint64) []string {
		var s []string
		for k := 0; k < n; k++ {
			s = append(s, forms[i%nf])
			i /= nf
		}
		return s
	}
	return &Space{Name: fmt.Sprintf("failures-%d", n), Size: size,
		Bound: fmt.Sprintf("all sequences of %d of %d failing programs, then the battery", n, nf),
		Desc:  func(i uint64) string { return strings.Join(at(i), " ;; ") },
		Run: func(i uint64, r *Rec) {
			env, _, _ := failEnv(failCatSetup)
			fs := at(i)
			for _, f := range fs[:n-1] {
				Eval(env, f+"\n")
			}
			checkFailed(env, fs[n-1]+"\n", failCatSetup, true, true, "", r)
		}}
}

func init() {
	register(&PropDef{ID: "C05", Assume: []string{
		"the part of a program that ran before the failure is found by replaying it in the reference evaluator (core language) or in a second interpreter (full language)",
	}, Spaces: func(tier string) []*Space {
		fams := []*coreFam{famControl(3), famBlocks(3), famLoops(3), famLabels(3), famCalls(3), famRecur(2), famMut(2), famMixed(3), famTail(1), famLazy(2, "lazy", lazySigs[:1], false), famIter(2)}
		kinds := 3
		out := []*Space{failCtxSpace(0, failForms, "failing"), failCtxSpace(1, failForms, "failing-1"), cutSpace(4), failAfterSpace(12), failSeqSpace(2, failForms), declSpace()}
		if tier == "thorough" {
			fams = []*coreFam{famControl(4), famBlocks(4), famLoops(4), famLabels(4), famCalls(4), famRecur(3), famMut(2), famMixed(4), famTail(2), famIter(3), famLazy(2, "lazy", lazySigs, false)}
			kinds = len(failKinds)
			out = []*Space{failCtxSpace(0, failForms, "failing"), failCtxSpace(1, failForms, "failing-1"), cutSpace(1), failAfterSpace(1), failSeqSpace(2, failForms), declSpace()}
		}
		for _, f := range fams {
			out = append(out, failSpace(f, kinds))
		}
		if tier == "thorough" {
			out = append(out, failCtxSpace(2, failForms, "failing-2"))
		}
		return out
	}})
}

// ---- declarations that fail leave nothing of the name behind

var declKinds = []string{
	"(defmac zzd [q] $1)", "(defmac zzd $2 q)", "(defn zzd [q] $1)", "(defn zzd $2 q)", "(func zzd [q:int64] [n:int64] $1)", "(func zzd [q:$3] [n:int64] q)", "(func zzd [q:int64] [n:$3] q)",
	"(def zzd $1)", "(set zzd $1)", "{zzd = $1}", "{zzd := $1}", "{zzd, zze = $1, 2}", "{zzd, zze = 1, $1}", "(mdef zzd zze $1)", "(mdef zze zzd $1)", "(var zzd $3)",
	"(struct zzd [(field q: $3)])", "(struct zzd [(field q: int64) (field r: $3)])", "(struct zzd $2)", "(interface zzd [(func q [r:$3] [n:int64])])", "(interface zzd $2)",
	"(method [q: (* P0)] zzd [] [n:int64] $1)", "(method [q: (* $3)] zzd [] [n:int64] q)",
	"(package \"zzd\" $1)", "(package zzd $1)", "(package \"zzd\" (def A 1) (defn B [] 2) $1)", "(let [zzd $1] zzd)", "(let [zzd 1] $1)", "((fn [zzd] $1) 1)", "(for [(def zzd 0) (< zzd 2) $1] 1)", "(for zzd: [1 $1 2] 3)",
	"(range zzd zze a $1)", "(zzd $1)", "(def zzd (hash q: $1))", "(defmac zzd [q] ^(~q $1))", "{zzd.q = $1}", "(defn zzd [q] (defmac zze [r] $1) q)", "(defn zzd [q] (struct zze [(field r: $3)]))",
}
var declBodies = []string{"(boom)", "(kaboom)", "(let [z] 1)", "nosuch", "(nosuch 1)", "^(1 ~(boom))", "(fb 1)", "(mbad 1)", "(def)", "(struct)", "(defn bd [q] (let [z] 1))", "(hash 1)", "(break)", "{1 +}", "(return (boom))"}
var declArgs = []string{"[1]", "[q 3]", "q", "(q)", "[q & 1]", "[\"q\"]", "[[q]]", "[q:]", "5", "[(field)]", "[(field q: int64) (field q: int64)]", "[(field q: int64) 3]"}
var declTypes = []string{"nosuch", "(boom)", "5", "\"int64\"", "(* nosuch)", "([] nosuch)", "[]"}
var declPlaces = []string{"$1", "(let [q 1] $1)", "((fn [] $1))", "(begin (t 1) $1)", "(eval (quote $1))", "(newScope $1)", "[1 $1 2]", "(lz $1)"}
var declAfter = []string{"zzd", "zze", "(zzd)", "(zzd 1)", "(zzd q: 1)", "zzd.q", "zzd.A", "(zzd.B)", "(type? zzd)", "(macexpand (zzd 1))", "(macexpand (zze 1))", "(& zzd)", "(r0.zzd)", "(defined? %zzd)",
	"(defn zzd [q] (+ q 1))\n(zzd 2)", "(defmac zzd [q] ^(+ 1 ~q))\n(zzd 2)", "(struct zzd [(field s: int64)])\n(zzd s: 2)", "(def zzd 4)\nzzd", "(func zzd [q:int64] [n:int64] q)\n(zzd 2)", "(package \"zzd\" (def Q 4))\nzzd.Q", "(package zzd (def Q 4))\nzzd.Q",
	"(var zzd int64)\nzzd", "{zzd := 5}\nzzd", "(interface zzd [])\nzzd", "(mdef zzd zze [1 2])\n[zzd zze]", "(zze 1)", "(defn zze [q] q)\n(zze 2)", "(struct zze [(field s: int64)])\n(zze s: 2)", "(for zzd: [(def i 0) (< i 2) (set i (+ i 1))] (continue zzd:))", "(let [zzd 3] zzd)", "((fn [zzd] zzd) 3)", "(hash zzd: 3)", "(bd 1)"}

func declSpace() *Space {
	var progs []string
	seen := map[string]bool{}
	for _, k := range declKinds {
		fills := declBodies
		mark := "$1"
		if strings.Contains(k, "$2") {
			fills, mark = declArgs, "$2"
		} else if strings.Contains(k, "$3") {
			fills, mark = declTypes, "$3"
		}
		for _, f := range fills {
			p := strings.ReplaceAll(k, mark, f)
			if !seen[p] {
				seen[p] = true
				progs = append(progs, p)
			}
		}
	}
	np := uint64(len(declPlaces))
	at := func(i uint64) string { return fillText(declPlaces[i%np], progs[i/np]) + "\n" }
	twins := map[string]string{}
	follow := func(env *zygo.Zlisp, a string) string {
		var out []string
		for _, line := range strings.Split(a, "\n") {
			o := Eval(env, line+"\n")
			out = append(out, noAddr(o.Class())+" "+depthsOf(env))
		}
		return strings.Join(out, "; ")
	}
	return &Space{Name: "declarations", Size: uint64(len(progs)) * np,
		Bound: fmt.Sprintf("%d declarations that fail x %d places; each of %d uses of the name afterwards compared with an interpreter that never ran it", len(progs), np, len(declAfter)),
		Desc:  at,
		Run: func(i uint64, r *Rec) {
			src := at(i)
			for _, a := range declAfter {
				env, _, _ := failEnv(failCatSetup)
				o := Eval(env, src)
				if o.Kind != "err" {
					r.Count("no_failure", 1)
					return
				}
				r.Validated++
				r.State(noAddr(o.Class()))
				want, ok := twins[a]
				if !ok {
					tw, _, _ := failEnv(failCatSetup)
					want = follow(tw, a)
					twins[a] = want
				}
				if got := follow(env, a); got != want {
					r.Violate("a failed declaration leaves something behind", src+a+"\n", "after "+o.String()+"\nthen     "+a+"\nexpected "+want+"\ngot      "+got)
					return
				}
			}
		}}
}
