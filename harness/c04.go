package main

import (
	"os"
	"fmt"
	"regexp"
	"runtime"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C04: an evaluation that succeeds leaves nothing behind.

func depthsOf(env *zygo.Zlisp) string {
	d, s, a, l := env.VerifDepths()
	return fmt.Sprintf("data=%d scope=%d call=%d loop=%d", d, s, a, l)
}

const restDepths = "data=0 scope=1 call=0 loop=0"

var emptyInputs = []string{"", "\n", " \n\t\n", "// c\n", "/* c */\n"}

// atRest checks the interpreter after an evaluation that returned a value.
func atRest(env *zygo.Zlisp, empties []string) string {
	if d := depthsOf(env); d != restDepths {
		return "not at rest: " + d
	}
	for _, e := range empties {
		o := Eval(env, e)
		if o.Kind != "val" || o.V != zygo.SexpNull {
			return fmt.Sprintf("empty input %q evaluates to %s", e, o)
		}
		if d := depthsOf(env); d != restDepths {
			return "not at rest after empty input: " + d
		}
	}
	return ""
}

// sameTogether: forms evaluated one at a time against all at once.
func restCheck(mk func() *zygo.Zlisp, setup string, forms []string, input string, r *Rec) {
	src := strings.Join(forms, "\n") + "\n"
	env := mk()
	tr := &Tracer{}
	tr.Install(env)
	if setup != "" {
		if o := Eval(env, setup); o.Kind != "val" {
			r.Violate("setup fails", setup, o.String())
			return
		}
		if d := depthsOf(env); d != restDepths {
			r.Violate("interpreter not at rest after a value", setup, d)
			return
		}
	}
	whole := EvalB(env, src, 20000)
	if whole.Kind == "steps" {
		r.Count("skipped_steps", 1)
		return
	}
	if whole.Kind == "panic" {
		r.Count("skipped_panic", 1) // C01's subject
		return
	}
	r.Validated++
	r.State(whole.Class())
	if whole.Kind == "val" {
		if bad := atRest(env, emptyInputs[:1+int(r.idx%uint64(len(emptyInputs)))]); bad != "" {
			r.Violate("interpreter not at rest after a value", input, "program:\n"+src+"value "+whole.S+"\n"+bad)
			return
		}
	}
	// one at a time
	env2 := mk()
	tr2 := &Tracer{}
	tr2.Install(env2)
	if setup != "" {
		Eval(env2, setup)
	}
	last := Out{Kind: "val", V: zygo.SexpNull, S: "nil"}
	for i, f := range forms {
		o := Eval(env2, f+"\n")
		if t := strings.TrimSpace(f); strings.HasPrefix(t, "//") || strings.HasPrefix(t, "/*") && strings.HasSuffix(t, "*/") {
			if o.Kind != "val" || o.V != zygo.SexpNull {
				r.Violate("input without forms gives a value", input, f+" evaluates to "+o.String())
				return
			}
			continue
		}
		last = o
		if last.Kind != "val" {
			break
		}
		if d := depthsOf(env2); d != restDepths {
			r.Violate("interpreter not at rest after a value", input, fmt.Sprintf("program:\n%sform %d: value %s\n%s", src, i, last.S, d))
			return
		}
	}
	if last.Kind == "steps" || last.Kind == "panic" {
		r.Count("skipped_"+last.Kind, 1)
		return
	}
	if whole.Kind == "val" && (noAddr(whole.Class()) != noAddr(last.Class()) || tr.String() != tr2.String()) ||
		whole.Kind == "err" && last.Kind == "val" {
		r.Violate("one form at a time differs from all together", input, fmt.Sprintf("program:\n%stogether: %s trace=%s\nseparately: %s trace=%s", src, whole, tr, last, tr2))
		return
	}
	if whole.Kind != "val" {
		return
	}
	// again and again in the same interpreter: nothing may accumulate
	var sizes [2]string
	for k := 0; k < 2; k++ {
		for j := 0; j < 2; j++ {
			o := Eval(env, src)
			if o.Kind != "val" {
				return // redefinitions may be refused
			}
			if d := depthsOf(env); d != restDepths {
				r.Violate("interpreter not at rest after a value", input, "evaluated again, program:\n"+src+"value "+o.S+"\n"+d)
				return
			}
		}
		sy, gl, ma, mn := env.VerifTables()
		sizes[k] = fmt.Sprintf("symbols=%d globals=%d macros=%d main=%d", sy, gl, ma, mn)
	}
	if sizes[0] != sizes[1] && !strings.Contains(src, "gensym") {
		r.Violate("the interpreter grows with every evaluation", input, "program:\n"+src+"after 3 evaluations: "+sizes[0]+"\nafter 5 evaluations: "+sizes[1])
	}
}

var addrRe = regexp.MustCompile("0x[0-9a-f]{8,}")

// noAddr masks the addresses some printed forms contain (C20's subject).
func noAddr(s string) string {
	if !strings.Contains(s, "0x") {
		return s
	}
	return addrRe.ReplaceAllString(s, "0xADDR")
}

func splitForms(forms []*N) []string {
	var out []string
	for _, f := range forms {
		out = append(out, strings.TrimRight(Text(f), "\n"))
	}
	return out
}

// restSpace checks every program of a core family.
func restSpace(f *coreFam) *Space {
	return famSpace(f, func(forms []*N, src string, r *Rec, i uint64) {
		if strayAny(forms) {
			r.Count("skipped_stray_break", 1)
			return
		}
		restCheck(NewCore, "", splitForms(forms), src, r)
		if i%9973 == 5 {
			r.Sample(strings.ReplaceAll(src, "\n", " "))
		}
	})
}

func strayAny(forms []*N) bool {
	for _, f := range forms {
		if strayLoop(f, nil) {
			return true
		}
	}
	return false
}

// catSpace: every catalogue form in every nest of contexts up to depth d.
func catNest(d int, i uint64) (form string, ctx []int) {
	form = catForms[i%uint64(len(catForms))]
	i /= uint64(len(catForms))
	for k := 0; k < d; k++ {
		ctx = append(ctx, int(i%uint64(len(catContexts))))
		i /= uint64(len(catContexts))
	}
	return
}

func catText(d int, i uint64) string {
	s, ctx := catNest(d, i)
	for _, c := range ctx {
		s = fillText(catContexts[c], s)
	}
	return s
}

func catSize(d int) uint64 {
	n := uint64(len(catForms))
	for k := 0; k < d; k++ {
		n *= uint64(len(catContexts))
	}
	return n
}

func catSpace(d int) *Space {
	return &Space{Name: fmt.Sprintf("catalogue-%d", d), Size: catSize(d),
		Bound: fmt.Sprintf("every one of %d uses of the language's forms, builders, declarations and builtins in every nest of %d of %d contexts", len(catForms), d, len(catContexts)),
		Run: func(i uint64, r *Rec) {
			src := catText(d, i)
			restCheck(NewStd, catSetup, []string{src}, src, r)
			if i%9973 == 7 {
				r.Sample(src)
			}
		},
		Desc: func(i uint64) string { return catText(d, i) },
	}
}

// files: forms that load other files
var scratchFiles = map[string]string{
	"a.zy": "(def s1 11) s1\n", "b.zy": "(defn sf [] 5)\n(sf)", "empty.zy": "", "comment.zy": "// nothing\n", "boom.zy": "(def s3 1) (boom)\n",
	"bad.zy": "(def s4 (\n", "let.zy": "(let [q 1] (newScope (boom)))\n", "pkg.zy": "(package \"fp\" (def V 1) (defn F [] V))\n", "nopkg.zy": "7\n", "many.zy": "1 2 3\n[4]\n",
	"src.zy": "(source \"@F/a.zy\" \"@F/b.zy\")\n", "badpkg.zy": "(package \"fp\" (def V 1) (boom))\n",
}

var fileForms = []string{
	"(source \"@F/a.zy\")", "(source \"@F/a.zy\" \"@F/b.zy\")", "(source [\"@F/a.zy\" \"@F/b.zy\"] \"@F/many.zy\")", "(source (list \"@F/b.zy\"))", "(source [])", "(source \"@F/empty.zy\")", "(source \"@F/comment.zy\")",
	"(source \"@F/boom.zy\")", "(source \"@F/a.zy\" \"@F/boom.zy\")", "(source \"@F/a.zy\" \"@F/bad.zy\")", "(source \"@F/a.zy\" 3)", "(source \"@F/nofile\")", "(source \"@F/let.zy\")", "(source \"@F/many.zy\")", "(source \"@F/src.zy\")",
	"(include \"@F/a.zy\")", "(include \"@F/a.zy\" \"@F/b.zy\")", "(include [\"@F/a.zy\" \"@F/b.zy\"])", "(include \"@F/empty.zy\")", "(include \"@F/comment.zy\")", "(include \"@F/boom.zy\")", "(include \"@F/bad.zy\")", "(include \"@F/many.zy\")", "(include \"@F/nofile\")",
	"(import fp9 \"@F/pkg.zy\")", "(begin (import fp8 \"@F/pkg.zy\") (fp8.F))", "(import fp7 \"@F/nopkg.zy\")", "(import fp6 \"@F/badpkg.zy\")", "(import fp5 \"@F/nofile\")", "(import \"@F/pkg.zy\")",
	"(slurpf \"@F/a.zy\")", "(req \"@F/a.zy\")", "(req \"@F/boom.zy\")", "(req a)",
}

var scratchDir string

// scratch makes this process's own directory of script files.
func scratch() string {
	if scratchDir == "" {
		d, err := os.MkdirTemp(os.Getenv("VZ_BUILD"), "files.")
		if err != nil {
			panic(err)
		}
		scratchDir = d
		for n, s := range scratchFiles {
			os.WriteFile(d+"/"+n, []byte(strings.ReplaceAll(s, "@F", d)), 0o644)
		}
	}
	return scratchDir
}

func fileSpace(d int) *Space {
	n := uint64(len(fileForms))
	for k := 0; k < d; k++ {
		n *= uint64(len(catContexts))
	}
	text := func(i uint64) string {
		return fillText(ctxShape(d, i/uint64(len(fileForms))), fileForms[i%uint64(len(fileForms))])
	}
	return &Space{Name: fmt.Sprintf("files-%d", d), Size: n,
		Bound: fmt.Sprintf("%d uses of source, include, import, req and slurpf on good, empty, failing and missing files in every nest of %d of %d contexts", len(fileForms), d, len(catContexts)),
		Desc:  text,
		Run: func(i uint64, r *Rec) {
			src := text(i)
			restCheck(NewStd, catSetup, []string{strings.ReplaceAll(src, "@F", scratch())}, src, r)
		}}
}

// seqSpace: all sequences of n catalogue forms, together and one at a time.
func seqSpace(n, stride int) *Space {
	var firsts []string
	for i := 0; i < len(catForms); i += stride {
		firsts = append(firsts, catForms[i])
	}
	size := uint64(len(firsts))
	for i := 1; i < n; i++ {
		size *= uint64(len(catForms))
	}
	at := func(i uint64) []string {
		fs := []string{firsts[i%uint64(len(firsts))]}
		i /= uint64(len(firsts))
		for k := 1; k < n; k++ {
			fs = append(fs, catForms[i%uint64(len(catForms))])
			i /= uint64(len(catForms))
		}
		return fs
	}
	return &Space{Name: fmt.Sprintf("sequences-%d", n), Size: size,
		Bound: fmt.Sprintf("all sequences of %d of %d forms (the first one of every %d-th), evaluated together and one at a time", n, len(catForms), stride),
		Run: func(i uint64, r *Rec) {
			fs := at(i)
			restCheck(NewStd, catSetup, fs, strings.Join(fs, "\n"), r)
		},
		Desc: func(i uint64) string { return strings.Join(at(i), "\n") },
	}
}

// growSpace: the live heap after many evaluations of every catalogue form.
func growSpace(n int) *Space {
	return &Space{Name: "growth", Size: uint64(len(catForms)), Chunk: 4, HangS: 300,
		Bound: fmt.Sprintf("every catalogue form evaluated %d times in one interpreter; live heap after the first %d and after all", 3*n, n),
		Run: func(i uint64, r *Rec) {
			src := catForms[i] + "\n"
			env := NewStd()
			Eval(env, catSetup)
			heap := func() uint64 {
				var ms runtime.MemStats
				runtime.GC()
				runtime.ReadMemStats(&ms)
				return ms.HeapAlloc
			}
			run := func(n int) bool {
				for k := 0; k < n; k++ {
					if o := Eval(env, src); o.Kind != "val" {
						return false
					}
				}
				return true
			}
			if strings.Contains(src, "gensym") || strings.Contains(src, "timeit") || !run(n) {
				r.Count("skipped_not_repeatable", 1)
				return
			}
			h1 := heap()
			run(2 * n)
			h2 := heap()
			r.Validated++
			if h2 > h1+uint64(n)*2*16 && h2-h1 > 20000 {
				r.Violate("memory grows with every evaluation", src, fmt.Sprintf("form: %slive heap after %d evaluations: %d, after %d: %d", src, n, h1, 3*n, h2))
			}
		},
		Desc: func(i uint64) string { return catForms[i] },
	}
}

func init() {
	register(&PropDef{ID: "C04", Assume: []string{
		"table sizes and the live heap are compared between repetitions of one program; symbols a script itself interns or generates stay",
	}, Spaces: func(tier string) []*Space {
		fams := []*coreFam{famControl(4), famBlocks(4), famLoops(4), famLabels(4), famCalls(4), famRecur(3), famData(2), famMut(2), famMixed(4), famTail(2), famLazy(2, "lazy", lazySigs, false), famIter(3)}
		seq := []*Space{seqSpace(2, 5)}
		cat := []*Space{catSpace(0), catSpace(1)}
		grow := growSpace(300)
		if tier == "thorough" {
			fams = []*coreFam{famControl(5), famBlocks(5), famLoops(5), famLabels(5), famCalls(4), famRecur(4), famData(3), famMut(3), famMixed(5), famTail(3), famLazy(3, "lazy", lazySigs, false), famIter(4), famScope(4), famMakers(3), famRoutes(3)}
			seq = []*Space{seqSpace(2, 1), catSpace(2)}
			grow = growSpace(3000)
		}
		out := append(cat, grow, fileSpace(0), fileSpace(1))
		for _, f := range fams {
			out = append(out, restSpace(f))
		}
		return append(out, seq...)
	}})
}
