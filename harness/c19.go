package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C19: all histories of interning, generating and duplicating over a family
// of interpreters that share one symbol table.

type c19Fam struct {
	envs []*zygo.Zlisp
	base int
	seen map[string]int // name -> number
	byNo map[int]string
	syms []*zygo.SexpSymbol
}

func (f *c19Fam) note(r *Rec, hist func() string, sym *zygo.SexpSymbol, want string, generated bool) {
	r.Validated++
	name, no := sym.Name(), sym.Number()
	if want != "" && name != want {
		r.Violate("symbol has another name", hist(), fmt.Sprintf("asked for %q, got %q", want, name))
	}
	if generated {
		if _, old := f.seen[name]; old {
			r.Violate("generated symbol is not new", hist(), fmt.Sprintf("%q existed already", name))
		}
		if p, old := f.byNo[no]; old {
			r.Violate("generated symbol is not new", hist(), fmt.Sprintf("number %d belongs to %q", no, p))
		}
	}
	if o, ok := f.seen[name]; ok && o != no {
		r.Violate("one name, two symbols", hist(), fmt.Sprintf("%q is %d and %d", name, o, no))
	}
	if p, ok := f.byNo[no]; ok && p != name {
		r.Violate("one symbol, two names", hist(), fmt.Sprintf("%d is %q and %q", no, p, name))
	}
	f.seen[name] = no
	f.byNo[no] = name
	f.syms = append(f.syms, sym)
}

// equality as scripts see it: Compare and use as a hash key.
func (f *c19Fam) final(r *Rec, hist func() string) {
	if len(f.syms) == 0 {
		return
	}
	for _, e := range f.envs {
		h, err := zygo.MakeHash(nil, "hash", e)
		if err != nil {
			r.Violate("hash", hist(), err.Error())
			return
		}
		names := map[string]int{}
		for i, a := range f.syms {
			h.HashSet(a, &zygo.SexpInt{Val: int64(i)})
			names[a.Name()] = i
			for _, b := range f.syms[:i] {
				c, err := e.Compare(a, b)
				r.Validated++
				if err != nil || (c == 0) != (a.Name() == b.Name()) {
					r.Violate("symbol equality", hist(), fmt.Sprintf("Compare(%q,%q) = %d %v", a.Name(), b.Name(), c, err))
				}
			}
		}
		r.Validated++
		if zygo.HashCountKeys(h) != len(names) {
			r.Violate("symbols as hash keys", hist(), fmt.Sprintf("%d keys for %d names", zygo.HashCountKeys(h), len(names)))
		}
		for n, v := range names {
			got, err := h.HashGet(e, e.MakeSymbol(n))
			if err != nil || Dump(got) != strconv.Itoa(v) {
				r.Violate("symbols as hash keys", hist(), fmt.Sprintf("%q maps to %v %v, want %d", n, got, err, v))
			}
		}
	}
}

var c19Funcs map[string]zygo.ZlispUserFunction

func c19New() *c19Fam {
	if c19Funcs == nil {
		all := zygo.AllBuiltinFunctions()
		c19Funcs = map[string]zygo.ZlispUserFunction{}
		for _, n := range []string{"gensym", "str2sym", "list", "=="} {
			c19Funcs[n] = all[n]
		}
	}
	e := zygo.NewZlispWithFuncs(c19Funcs)
	f := &c19Fam{envs: []*zygo.Zlisp{e}, seen: map[string]int{}, byNo: map[int]string{}}
	f.base = e.MakeSymbol("probe").Number() + 1
	return f
}

// names around the ones that would be generated next
func (f *c19Fam) names() []string {
	g := func(p string, d int) string { return p + strconv.Itoa(f.base+d) }
	return []string{"x", g("g", 0), g("g", 1), g("g", 2), g("g", 3), g("__gensym", 1)}
}

type c19Op struct {
	kind string
	env  int
	arg  int
}

func (o c19Op) text(ns []string) string {
	switch o.kind {
	case "intern", "quote", "str2sym":
		return fmt.Sprintf("%s(e%d,%s)", o.kind, o.env, ns[o.arg])
	case "gensym", "gens", "genmac":
		return fmt.Sprintf("%s(e%d,%s)", o.kind, o.env, []string{"g", "__gensym", "", ns[1]}[o.arg])
	}
	return fmt.Sprintf("%s(e%d)", o.kind, o.env)
}

func c19Apply(f *c19Fam, o c19Op, r *Rec, hist func() string) bool {
	if o.env >= len(f.envs) {
		return false
	}
	e := f.envs[o.env]
	ns := f.names()
	pref := []string{"g", "__gensym", "", ns[1]}
	ev := func(src, want string, gen bool) {
		out := Eval(e, src)
		s, ok := out.V.(*zygo.SexpSymbol)
		if !ok {
			r.Violate("no symbol", hist(), src+" gave "+out.String())
			return
		}
		f.note(r, hist, s, want, gen)
	}
	switch o.kind {
	case "dup", "clone":
		if len(f.envs) >= 3 {
			return false
		}
		if o.kind == "dup" {
			f.envs = append(f.envs, e.Duplicate())
		} else {
			f.envs = append(f.envs, e.Clone())
		}
	case "intern":
		f.note(r, hist, e.MakeSymbol(ns[o.arg]), ns[o.arg], false)
	case "gensym":
		f.note(r, hist, e.GenSymbol(pref[o.arg]), "", true)
	case "quote":
		ev("(quote "+ns[o.arg]+")\n", ns[o.arg], false)
	case "str2sym":
		ev("(str2sym \""+ns[o.arg]+"\")\n", ns[o.arg], false)
	case "gens":
		if o.arg == 1 {
			ev("(gensym)\n", "", true)
		} else {
			ev("(gensym \""+pref[o.arg]+"\")\n", "", true)
		}
	case "genmac": // expanded in a duplicate
		ev("(begin (defmac mm [] (list (quote quote) (gensym \"g\"))) (mm))\n", "", true)
	}
	return true
}

func init() {
	register(&PropDef{ID: "C19", Assume: []string{
		"families of up to three interpreters; histories of the stated length; names chosen around the numbers the generator would use next",
	}, Spaces: func(tier string) []*Space {
		mk := func(name string, alpha []c19Op, depth int, famDup bool, bound string) *Space {
			return &Space{Name: name, Size: strCount(len(alpha), depth), Bound: fmt.Sprintf("all histories up to length %d over %d operations: %s", depth, len(alpha), bound),
				Run: func(i uint64, r *Rec) {
					f := c19New()
					if famDup {
						f.envs = append(f.envs, f.envs[0].Duplicate(), f.envs[0].Clone())
					}
					ns := f.names()
					ix := strNth(len(alpha), depth, i)
					hist := func() string {
						var s []string
						for _, k := range ix {
							s = append(s, alpha[k].text(ns))
						}
						return strings.Join(s, " ")
					}
					for _, k := range ix {
						if !c19Apply(f, alpha[k], r, hist) {
							r.Count("histories_with_inapplicable_step", 1)
							return
						}
						r.Trans++
					}
					f.final(r, hist)
					s := ""
					for _, y := range f.syms {
						s += y.Name() + "=" + strconv.Itoa(y.Number()) + " "
					}
					r.State(strconv.Itoa(len(f.envs)) + s)
					if i%4001 == 17 {
						r.Sample(hist() + " => " + s)
					}
				}}
		}
		var a, b []c19Op
		for e := 0; e < 3; e++ {
			a = append(a, c19Op{"dup", e, 0}, c19Op{"clone", e, 0})
			for k := 0; k < 6; k++ {
				a = append(a, c19Op{"intern", e, k})
			}
			a = append(a, c19Op{"gensym", e, 0}, c19Op{"gensym", e, 1}, c19Op{"gensym", e, 3})
			for _, k := range []int{1, 2, 3} {
				b = append(b, c19Op{"quote", e, k})
			}
			b = append(b, c19Op{"str2sym", e, 2}, c19Op{"gens", e, 0}, c19Op{"gens", e, 1}, c19Op{"gens", e, 2}, c19Op{"gens", e, 3}, c19Op{"genmac", e, 0})
		}
		var c []c19Op
		for _, o := range a {
			if o.kind != "dup" && o.kind != "clone" {
				c = append(c, o)
			}
		}
		d1, d2 := 4, 3
		if tier == "thorough" {
			d1, d2 = 5, 4
		}
		return []*Space{
			mk("family", a, d1, false, "intern, generate, duplicate, clone on up to three interpreters through the Go API"),
			mk("family-of-3", c, d1, true, "intern and generate on an interpreter, its duplicate and its clone"),
			mk("scripts", b, d2, true, "quoting, str2sym, gensym and gensym in a macro on an interpreter, its duplicate and its clone"),
		}
	}})
}
