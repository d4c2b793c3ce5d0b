package main

import (
	"fmt"
	"os"
	"strings"
	"unicode"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C18: package members are private unless capitalised.

// pk is the model of a value reachable from a package.
type pk struct {
	kind string // int str func hash arr pkg
	name string // name of the package (pkg)
	val  int    // int: the value; str, func, arr: what reading it yields
	keys []string
	kids map[string]*pk
	get  string // name of the inside accessor of an int / hash leaf, or ""
	own  *pk    // the package whose code holds that accessor
}

func newPk(kind string, val int) *pk { return &pk{kind: kind, val: val, kids: map[string]*pk{}} }

func (p *pk) add(k string, c *pk) *pk {
	if _, ok := p.kids[k]; !ok {
		p.keys = append(p.keys, k)
	}
	p.kids[k] = c
	return c
}

// visibility of a package member
const (
	vPub = iota
	vPriv
	vOpen
)

func pkVis(name string) int {
	c := []rune(name)[0]
	switch {
	case unicode.IsUpper(c):
		return vPub
	case unicode.IsLower(c):
		return vPriv
	}
	return vOpen // not a letter with case: not decided by the property
}

type pkPath struct {
	segs []string // below the root package
	node *pk
	vis  int
	via  []*pk // every package on the way, the root first
}

// pkPaths lists every path to a member, with what may be done through it.
func pkPaths(root *pk, max int) []pkPath {
	var out []pkPath
	var walk func(n *pk, segs []string, vis int, via []*pk)
	walk = func(n *pk, segs []string, vis int, via []*pk) {
		if len(segs) >= max {
			return
		}
		for _, k := range n.keys {
			c := n.kids[k]
			v := vis
			if n.kind == "pkg" && c.kind != "pkg" {
				if w := pkVis(k); w == vPriv || v == vPriv {
					v = vPriv
				} else if w == vOpen {
					v = vOpen
				}
			}
			s := append(append([]string{}, segs...), k)
			w := via
			if c.kind == "pkg" {
				w = append(append([]*pk{}, via...), c)
			}
			out = append(out, pkPath{s, c, v, w})
			if c.kind == "pkg" || c.kind == "hash" {
				walk(c, s, v, w)
			}
		}
	}
	walk(root, nil, vPub, []*pk{root})
	return out
}

// ways of writing a definition inside a package
var pkDefs = []string{"(def %s %s)", "{%s := %s}", "{%s = %s}", "(mdef %s zq (list %s 1))", "(set %s %s)"}

type pkConf struct {
	names []string // names under which the nested packages are stored
	def   int
	how   int // how the root package comes about
}

func (c pkConf) String() string { return strings.Join(c.names, "/") + fmt.Sprintf(" d%d h%d", c.def, c.how) }

// pkBuild writes package number lv and its model.
func pkBuild(c pkConf, lv int) (string, *pk) {
	n := newPk("pkg", 0)
	n.name = fmt.Sprintf("pk%d", lv)
	base := 700000 + lv*1000
	next := func() int { base++; return base }
	var b strings.Builder
	def := func(name, val string) {
		fmt.Fprintf(&b, pkDefs[c.def]+"\n", name, val)
	}
	leaf := func(name string) *pk { // an int member with inside accessors
		v := next()
		def(name, fmt.Sprint(v))
		m := n.add(name, newPk("int", v))
		fmt.Fprintf(&b, "(defn Get%s [] %s)\n(defn Set%s [v] (set %s v))\n", name, name, name, name)
		m.get, m.own = "Get"+name, n
		return m
	}
	hleaf := func(h *pk, path, key, acc string) string {
		v := next()
		m := h.add(key, newPk("int", v))
		m.get, m.own = "Get"+acc, n
		fmt.Fprintf(&b, "(defn Get%s [] (+ 0 %s.%s))\n(defn Set%s [v] {%s.%s = v})\n", acc, path, key, acc, path, key)
		return fmt.Sprintf("%s: %d", key, v)
	}
	for _, nm := range []string{"x", "X", "éa", "Éa", "_u", "中u", "xY", "Xy"} {
		leaf(nm)
	}
	if lv > 0 {
		// not in the enclosing package's list: only known here
		leaf(fmt.Sprintf("deep%d", lv))
	}
	only := leaf(fmt.Sprintf("only%d", lv))
	_ = only
	for _, nm := range []string{"s", "S"} {
		v := next()
		def(nm, fmt.Sprintf("%q", fmt.Sprint(v)))
		n.add(nm, newPk("str", v))
	}
	for _, nm := range []string{"f", "F"} {
		v := next()
		fmt.Fprintf(&b, "(defn %s [n] %d)\n", nm, v)
		n.add(nm, newPk("func", v))
	}
	for _, nm := range []string{"g", "G"} {
		v := next()
		def(nm, fmt.Sprintf("(fn [n] (cond true %d x))", v))
		n.add(nm, newPk("func", v))
	}
	for _, nm := range []string{"a", "A"} {
		v := next()
		def(nm, fmt.Sprintf("[%d]", v))
		n.add(nm, newPk("arr", v))
	}
	for _, nm := range []string{"h", "H"} {
		h := n.add(nm, newPk("hash", 0))
		in := h.add("in", newPk("hash", 0))
		in2 := in.add("Q", newPk("hash", 0))
		k1 := hleaf(h, nm, "k", nm+"k")
		k2 := hleaf(h, nm, "K", nm+"K")
		k3 := hleaf(in, nm+".in", "m", nm+"m")
		k4 := hleaf(in2, nm+".in.Q", "w", nm+"w")
		def(nm, fmt.Sprintf("(hash %s %s in: (hash %s Q: (hash %s)))", k1, k2, k3, k4))
	}
	if lv < len(c.names) {
		src, inner := pkBuild(c, lv+1)
		nm := c.names[lv]
		if strings.HasPrefix(pkDefs[c.def], "{") || strings.HasPrefix(pkDefs[c.def], "(set") {
			// these write an existing variable of the enclosing scopes:
			// the nested package comes before them
			rest := b.String()
			b.Reset()
			def(nm, src)
			b.WriteString(rest)
		} else {
			def(nm, src)
		}
		n.add(nm, inner)
		for i, h := range []string{"hp", "HP"} {
			hn := n.add(h, newPk("hash", 0))
			hn.add("q", inner)
			hw := hn.add("w", newPk("hash", 0))
			hw.add("v", inner)
			def(h, fmt.Sprintf("(hash q: %s w: (hash v: %s))", nm, nm))
			_ = i
		}
		// the enclosing package looking into the nested one: it is outside of it
		fmt.Fprintf(&b, "(defn TryPriv [] (+ 0 %s.x))\n(defn TryPub [] (+ 0 %s.X))\n(defn TryPrivSet [] {%s.x = 4})\n", nm, nm, nm)
	}
	// code of this package reaching what encloses it
	for up := 0; up < lv; up++ {
		fmt.Fprintf(&b, "(defn Up%d [] only%d)\n(defn UpSet%d [v] (set only%d v))\n", up, up, up, up)
	}
	fmt.Fprintf(&b, "(defn Mk [] (fn [] x))\n(defn MkH [] (fn [] (+ 0 h.in.m)))\n(defn Call [fun] (fun))\n(defn Id [v] v)\n(defn Ent [] (Call (fn [] (+ x h.k))))\n(defn Cnt [] (for [(def i 0) (< i 1) (def i (+ i 1))] (set x (+ x 0))) x)\n(defn Mp [] (aget (map (fn [v] (+ v x)) [0]) 0))\n(defn Le [] (let [w x] (+ 0 w)))\n(defn Infx [] {x + 0})\n(defn Loc [] (def x 1) x)\n(defn Par [x] x)\n")
	return fmt.Sprintf("(package %q (begin\n%s))", n.name, b.String()), n
}

// how the root package comes about; $ is the package form
var pkHows = []string{
	"(def p $)",
	"{p := $}",
	"{p = $}",
	"(def p ((fn [] $)))",
	"(def p (let [zz 3] $))",
	"(def p (hget (hash k: $) %k))",
	"(def p (source \"FILE\"))", // written to a file
	"(def p0 $) (def p p0)",
	"(def p ((fn [] ((fn [] (source \"FILE\"))))))",
	"(def mkp (fn [] $)) (def other (mkp)) (def p (mkp))",
}

// where the access is written; $E is the access, R the root name to use
type pkView struct{ name, pre, root, wrap string }

var pkViews = []pkView{
	{"top", "", "p", "$E"},
	{"function", "", "p", "((fn [] $E))"},
	{"nested function", "", "p", "((fn [] ((fn [] $E))))"},
	{"let", "", "p", "(let [zz 1] $E)"},
	{"for", "", "p", "(let [acc 0] (for [(def i 0) (< i 1) (def i (+ i 1))] (set acc $E)) acc)"},
	{"another package", "", "p", "(begin (def other (package \"other\" (begin (defn x [] 5) (defn Run [] $E)))) (other.Run))"},
	{"package body", "", "p", "(begin (def got nil) (package \"other\" (begin (set got $E))) got)"},
	{"callback", "", "p", "(p.Call (fn [] $E))"},
	{"macro", "", "p", "(begin (defmac mm [] (quote $E)) (mm))"},
	{"eval", "", "p", "(eval (quote $E))"},
	{"alias", "(def z p)", "z", "$E"},
	{"alias in a hash", "(def hh (hash z: p))", "hh.z", "$E"},
	{"alias deep in a hash", "(def hh (hash z: (hash y: (hash v: p))))", "hh.z.y.v", "$E"},
	{"parameter", "", "z", "((fn [z] $E) p)"},
	{"let alias", "", "z", "(let [z p] $E)"},
	{"package in a package", "(def w (package \"wrap\" (begin (def low p))))", "w.low", "$E"},
	{"package in a package's hash", "(def w (package \"wrap\" (begin (def Box (hash low: p)))))", "w.Box.low", "$E"},
	{"lazy argument", "", "p", "((fn [#q] (force #q)) $E)"},
	{"captured alias", "", "z", "(((fn [z] (fn [] $E)) p))"},
}

type pkRoute struct {
	src  string
	must bool // a public member must give its value through this route
}

// routes by the kind of the final member; $ is the path, N a fresh number
var pkReads = map[string][]pkRoute{
	"int": {
		{"(+ 0 $)", true}, {"(- $ 0)", true}, {"(+ $ (- $ $))", true}, {"{$ + 0}", true}, {"{0 + $}", true}, {"{1 * $}", true},
		{"(begin (def wa $) (+ 0 wa))", true}, {"(begin (set wb $) (+ 0 wb))", true}, {"(begin {wc = $} (+ 0 wc))", true}, {"(begin {wd := $} (+ 0 wd))", true},
		{"(let [w $] (+ 0 w))", true}, {"(letseq [w $ u w] (+ 0 u))", true}, {"((fn [w] (+ 0 w)) $)", true}, {"(apply + [0 $])", false},
		{"(begin (mdef we wf (list $ 1)) we)", false}, {"(begin {wg, wh = $, 1} wg)", false},
		{"$", false}, {"{$}", false}, {"(begin $)", false}, {"[$]", false}, {"(list $)", false}, {"(hash k: $)", false}, {"(aget [$] 0)", false},
		{"(cond true $ 1)", false}, {"(cond (== $ $) $ 1)", false}, {"(and true $)", false}, {"(or false $)", false}, {"(str $)", false}, {"(sprintf \"%v\" $)", false},
		{"(sprintf \"%d\" $)", false}, {"(json $)", false}, {"(& $)", false}, {"(* (& $))", false}, {"(quote $)", false}, {"^(1 ~$)", false}, {"^(1 ~(+ 0 $))", false},
		{"(concat \"\" $)", false}, {"(msgpack $)", false}, {"(append [0] $)", false}, {"(cons $ 1)", false}, {"(first [$])", false}, {"(map (fn [v] v) [$])", false},
		{"(eval (quote (+ 0 $)))", true}, {"(eval $)", false}, {"(type? $)", false}, {"(not $)", false}, {"(assert $)", false}, {"(aget $ 0)", false}, {"(hget $ %k)", false},
		{"($)", false}, {"($ 1)", false}, {"{$[0]}", false}, {"(newScope (+ 0 $))", true}, {"(return $)", false}, {"(str2sym $)", false}, {"(sym2str $)", false},
		{"(let [wk 0] (for [(def i 0) (< i 1) (def i (+ i 1))] (set wk $)) (+ 0 wk))", true}, {"(begin (def wm (+ 0 $)) wm)", true}, {"(-> $ 0)", false}, {"(bitOr 0 $)", false},
		{"((fn [] (+ 0 $)))", true}, {"((fn [& r] (first r)) $)", false}, {"(copy $)", false}, {"(raw $)", false}, {"(assert (== (+ 0 $) $))", false}, {"(< 0 $)", false},
	},
	"str": {
		{"(concat \"\" $)", true}, {"(concat $ \"\")", true}, {"(begin (def was $) (concat \"\" was))", true}, {"(let [w $] (concat w \"\"))", true}, {"(concat $ $)", false},
		{"(str $)", false}, {"(sprintf \"%s\" $)", false}, {"(list $)", false}, {"$", false}, {"(sget $ 0)", false}, {"(len $)", false}, {"(+ \"\" $)", false}, {"(str2sym $)", false}, {"(raw $)", false},
		{"(split $ \"x\")", false}, {"(chomp $)", false}, {"(append $ #a)", false}, {"(eval (read $))", false},
	},
	"func": {
		{"($ 1)", true}, {"(+ 0 ($ 1))", true}, {"((fn [] ($ 1)))", true}, {"(let [k $] (k 1))", true}, {"(begin (def waf $) (waf 1))", true}, {"(begin {wbf = $} (wbf 1))", true},
		{"(map $ [1])", false}, {"(apply $ [1])", false}, {"((fn [k] (k 1)) $)", false}, {"(first [($ 1)])", true}, {"(cond true ($ 1) 0)", true}, {"(let [w ($ 1)] w)", true},
		{"$", false}, {"(str $)", false}, {"(list $)", false}, {"($)", false}, {"{$(1)}", false}, {"(foldr $ [1] 2)", false}, {"(eval (quote ($ 1)))", true}, {"((begin $) 1)", false},
		{"((cond true $ 1) 1)", false}, {"((aget [$] 0) 1)", false}, {"(newScope ($ 1))", true}, {"(comp $ $)", false}, {"(defmap $)", false}, {"(_closdump $)", false},
	},
	"arr": {
		{"(aget $ 0)", false}, {"{$[0]}", false}, {"(+ 0 {$[0]})", true}, {"(+ 0 (aget $ 0))", false}, {"(let [w $] (aget w 0))", true}, {"(begin (def war $) (aget war 0))", true}, {"(first $)", false}, {"(map (fn [v] v) $)", false},
		{"(str $)", false}, {"$", false}, {"(append $ 1)", false}, {"(concat $ [1])", false}, {"(apply + $)", false}, {"(list $)", false}, {"(slice $ 0 1)", false}, {"(flatten $)", false},
		{"(aget $ 5)", false}, {"(arrayidx $ [0])", false}, {"(: 0 $)", false}, {"(:0 $)", false}, {"(json $)", false}, {"(len $)", false}, {"(rest $)", false}, {"(second $)", false}, {"(sprintf \"%v\" $)", false},
		{"(range i v $ (set wv v))", false}, {"{for i, v := range $ { wv = v }}", false}, {"(raw2str $)", false}, {"(flip $)", false},
	},
	"hash": {
		{"(str $)", false}, {"$", false}, {"(keys $)", false}, {"(json $)", false}, {"(len $)", false}, {"(list $)", false}, {"(hget $ %k)", false}, {"(hget $ %q)", false}, {"{$[%k]}", false}, {"(hpair $ 0)", false},
		{"(let [w $] (+ 0 w.k))", false}, {"(begin (def wah $) (+ 0 wah.k))", false}, {"(hashidx $ [%k])", false}, {"(range k v $ (set wv v))", false}, {"{for k, v := range $ { wv = v }}", false},
		{"(msgpack $)", false}, {"(:k $)", false}, {"(fieldls $)", false}, {"(sprintf \"%v\" $)", false}, {"(== $ $)", false}, {"(hashidx $ .k)", false}, {"(hget $ %in)", false}, {"(map (fn [v] v) $)", false},
	},
	"pkg": {},
}

var pkWrites = []pkRoute{
	{"(set $ N)", true}, {"{$ = N}", true}, {"(begin (set $ N) 1)", true}, {"((fn [v] (set $ v)) N)", true}, {"(let [v N] {$ = v})", true}, {"{$ = N + 0}", true},
	{"{$ := N}", false}, {"(def $ N)", false}, {"{$ += 1}", false}, {"{$++}", false}, {"{$--}", false}, {"{$ -= 1}", false}, {"(mdef $ wq (list N 1))", false}, {"{$, wq = N, 1}", false}, {"{wq, $ = 1, N}", false},
	{"($ = N)", false}, {"(derefSet (& $) N)", false}, {"(var $ int64)", false}, {"(defn $ [] N)", false}, {"(defmac $ [] N)", false},
	{"(hset $ %k N)", false}, {"(hset $ k: N)", false}, {"(hdel $ %k)", false}, {"(aset $ 0 N)", false}, {"{$[0] = N}", false}, {"{$.k = N}", false}, {"{$[%k] = N}", false}, {"(hset $ %q N)", false},
	{"(append $ N)", false}, {"(package \"$\" (begin (def x N)))", false}, {"{$ = (package \"q\" (begin (def X N)))}", false}, {"(rmsym $)", false}, {"(undef $)", false},
	{"(-= $ N)", false}, {"(+= $ N)", false}, {"(= $ N)", false}, {"(let [$ N] 1)", false}, {"((fn [$] 1) N)", false}, {"(for [(set $ N) false 1] 1)", true}, {"{for $ = N; false; {1} { 1 }}", false},
	{"(range $ wv [N] 1)", false}, {"(range wk $ [N] 1)", false}, {"(struct $ [(field N: int64)])", false}, {"(sort $)", false}, {"(func $ [] [] N)", false},
}

func sentinels(root *pk) map[string]bool {
	m := map[string]bool{}
	seen := map[*pk]bool{}
	var walk func(n *pk)
	walk = func(n *pk) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.val != 0 {
			m[fmt.Sprint(n.val)] = true
		}
		for _, k := range n.keys {
			walk(n.kids[k])
		}
	}
	walk(root)
	return m
}

func pkRebaseNumbers(s string, set map[string]bool, except map[string]bool) string {
	// the first known sentinel occurring in s
	for i := 0; i+6 <= len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			continue
		}
		j := i
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		w := s[i:j]
		if set[w] && !except[w] {
			return w
		}
		i = j
	}
	return ""
}

type pkWorld struct {
	env   *zygo.Zlisp
	root  *pk
	src   string
	paths []pkPath
	acc   map[*pk]string // path of each package from p
	fresh int
	log   []string
}

func pkOpen(c pkConf, v pkView) *pkWorld {
	body, root := pkBuild(c, 0)
	w := &pkWorld{root: root, env: NewStd(), acc: map[*pk]string{}, fresh: 810000}
	how := pkHows[c.how]
	if strings.Contains(how, "FILE") {
		f := scratch() + "/pk.zy"
		if err := os.WriteFile(f, []byte(body+"\n"), 0o644); err != nil {
			panic(err)
		}
		how = strings.Replace(how, "FILE", f, 1)
	} else {
		how = strings.Replace(how, "$", body, 1)
	}
	w.src = how + "\n" + v.pre
	o := Eval(w.env, w.src)
	if o.Kind != "val" {
		w.log = append(w.log, o.String())
	}
	w.paths = pkPaths(root, 7)
	w.acc[root] = "p"
	for _, q := range w.paths {
		if q.node.kind == "pkg" && w.acc[q.node] == "" && q.vis == vPub {
			w.acc[q.node] = "p." + strings.Join(q.segs, ".")
		}
	}
	return w
}

// value of an int leaf seen by the code of its own package
func (w *pkWorld) inside(n *pk) (string, Out) {
	s := "(" + w.acc[n.own] + "." + n.get + ")"
	return s, Eval(w.env, s)
}

func (w *pkWorld) all() []*pk {
	var out []*pk
	seen := map[*pk]bool{}
	var walk func(n *pk)
	walk = func(n *pk) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.kind == "int" && n.get != "" {
			out = append(out, n)
		}
		for _, k := range n.keys {
			walk(n.kids[k])
		}
	}
	walk(w.root)
	return out
}

func c18Space(name string, confs []pkConf, views []pkView) *Space {
	// the cases: (configuration, view, path); paths numbered by configuration
	counts := make([]int, len(confs))
	total := uint64(0)
	start := make([]uint64, len(confs))
	for i, c := range confs {
		_, root := pkBuild(c, 0)
		counts[i] = len(pkPaths(root, 7))
		start[i] = total
		total += uint64(counts[i]) * uint64(len(views))
	}
	locate := func(i uint64) (ci, vi, pi int) {
		ci = len(confs) - 1
		for start[ci] > i {
			ci--
		}
		i -= start[ci]
		return ci, int(i) / counts[ci], int(i) % counts[ci]
	}
	var w *pkWorld
	lc, lv := -1, -1
	return &Space{Name: name, Size: total, Chunk: 400,
		Bound: fmt.Sprintf("%d package nestings x %d viewpoints x every path of at most 7 hops x every read, call and write route of its kind", len(confs), len(views)),
		Desc: func(i uint64) string {
			ci, vi, pi := locate(i)
			x := pkOpen(confs[ci], views[vi])
			return x.src + "\n;; view " + views[vi].name + " path " + strings.Join(x.paths[pi].segs, ".")
		},
		Run: func(i uint64, r *Rec) {
			ci, vi, pi := locate(i)
			if w == nil || ci != lc || vi != lv {
				w = pkOpen(confs[ci], views[vi])
				lc, lv = ci, vi
				for _, l := range w.log {
					r.Violate("setup", w.src, l)
				}
			}
			v := views[vi]
			p := w.paths[pi]
			path := v.root + "." + strings.Join(p.segs, ".")
			sent := sentinels(w.root)
			run := func(e string) (string, Out) {
				src := strings.ReplaceAll(v.wrap, "$E", strings.ReplaceAll(e, "$", path))
				r.Trans++
				return src, EvalB(w.env, src, 20000)
			}
			head := func(src string) string { return confs[ci].String() + " view=" + v.name + " :: " + src }
			spoiled := false
			kind := p.node.kind
			// reading
			for _, rt := range pkReads[kind] {
				src, o := run(rt.src)
				r.State(o.Class())
				switch p.vis {
				case vPriv:
					if s := pkRebaseNumbers(o.S, sent, nil); s != "" {
						r.Violate("private read "+kind, head(src), fmt.Sprintf("a private member was read: %s\n%s", o, w.src))
					} else if rt.must && o.Kind != "err" {
						r.Violate("private accepted "+kind, head(src), fmt.Sprintf("no error: %s\n%s", o, w.src))
					}
				case vPub:
					if rt.must {
						want := fmt.Sprint(p.node.val)
						if kind == "str" {
							want = fmt.Sprintf("%q", want)
						}
						if o.Kind != "val" || o.S != want {
							r.Violate("public read "+kind, head(src), fmt.Sprintf("want %s got %s\n%s", want, o, w.src))
						}
					}
				}
			}
			// writing
			if kind == "pkg" || kind == "hash" || kind == "func" || kind == "arr" || kind == "str" {
				if p.vis == vPub && !(kind == "pkg" && pkVis(p.segs[len(p.segs)-1]) == vPriv && pkParentPkg(w.root, p.segs)) {
					goto inner // would replace a public member
				}
				if kind == "pkg" && p.vis == vPriv {
					goto inner
				}
				for _, rt := range pkWrites {
					w.fresh++
					src, o := run(strings.ReplaceAll(rt.src, "N", fmt.Sprint(w.fresh)))
					if p.vis == vPriv || kind == "pkg" {
						if rt.must && o.Kind != "err" {
							r.Violate("private write accepted "+kind, head(src), fmt.Sprintf("no error: %s\n%s", o, w.src))
						}
						if pkCheckAll(w, r, head(src)) {
							spoiled = true
						}
					}
				}
				if p.vis == vPriv || kind == "pkg" {
					// still what it was, seen from inside
					if !pkDeepSame(w, p, r, head("")) {
						spoiled = true
					}
				}
			}
			if kind == "int" {
				for _, rt := range pkWrites {
					w.fresh++
					if p.vis == vOpen && rt.must {
						continue
					}
					src, o := run(strings.ReplaceAll(rt.src, "N", fmt.Sprint(w.fresh)))
					is, in := w.inside(p.node)
					r.Validated++
					switch p.vis {
					case vPriv:
						if in.Kind != "val" || in.S != fmt.Sprint(p.node.val) {
							r.Violate("private written", head(src), fmt.Sprintf("%s: a private member changed: %s was %d, is %s\n%s", o, is, p.node.val, in, w.src))
							spoiled = true
						} else if rt.must && o.Kind != "err" {
							r.Violate("private write accepted", head(src), fmt.Sprintf("no error: %s\n%s", o, w.src))
						}
					case vPub:
						if rt.must && (o.Kind != "val" || in.Kind != "val" || in.S != fmt.Sprint(w.fresh)) {
							r.Violate("public write", head(src), fmt.Sprintf("%s, then %s = %s, want %d\n%s", o, is, in, w.fresh, w.src))
							spoiled = true
						}
						if in.Kind == "val" {
							var k int
							if _, err := fmt.Sscan(in.S, &k); err == nil {
								p.node.val = k
							} else {
								spoiled = true
							}
						} else {
							spoiled = true
						}
					}
					if spoiled {
						break
					}
				}
				// the setter of the package itself always works
				if !spoiled {
					w.fresh++
					s := fmt.Sprintf("(%s.Set%s %d)", w.acc[p.node.own], strings.TrimPrefix(p.node.get, "Get"), w.fresh)
					o := Eval(w.env, s)
					is, in := w.inside(p.node)
					if o.Kind != "val" || in.S != fmt.Sprint(w.fresh) {
						r.Violate("inside write", head(s), fmt.Sprintf("%s, then %s = %s, want %d\n%s", o, is, in, w.fresh, w.src))
						spoiled = true
					}
					p.node.val = w.fresh
				}
			}
		inner:
			if kind == "pkg" && p.vis == vPub {
				c18Pkg(w, p, path, run, head, r)
			}
			if !spoiled && pkCheckAll(w, r, head("(after all routes of "+path+")")) {
				spoiled = true
			}
			if spoiled {
				w = nil
			}
		}}
}

// pkParentPkg tells whether the member at segs is held directly by a package.
func pkParentPkg(root *pk, segs []string) bool {
	n := root
	for _, s := range segs[:len(segs)-1] {
		n = n.kids[s]
	}
	return n.kind == "pkg"
}

// pkCheckAll compares every int member, seen from inside, with the model.
func pkCheckAll(w *pkWorld, r *Rec, head string) bool {
	for _, n := range w.all() {
		r.Validated++
		is, in := w.inside(n)
		if in.Kind != "val" || in.S != fmt.Sprint(n.val) {
			r.Violate("member changed", head, fmt.Sprintf("%s was %d, is %s\n%s", is, n.val, in, w.src))
			return true
		}
	}
	return false
}

// pkDeepSame: a private str, func or arr member still gives its value inside.
func pkDeepSame(w *pkWorld, p pkPath, r *Rec, head string) bool {
	// through a function of the package that is public: Ent, Mp use x and h
	for _, f := range []string{"Ent", "Mp"} {
		own := w.root
		if len(p.via) > 0 {
			own = p.via[len(p.via)-1]
			if own == p.node && len(p.via) > 1 {
				own = p.via[len(p.via)-2]
			}
		}
		o := Eval(w.env, "("+w.acc[own]+"."+f+")")
		want := own.kids["x"].val
		if f == "Ent" {
			want += own.kids["h"].kids["k"].val
		}
		if o.Kind != "val" || o.S != fmt.Sprint(want) {
			r.Violate("inside "+f, head, fmt.Sprintf("want %d got %s\n%s", want, o, w.src))
			return false
		}
	}
	return true
}

// c18Pkg checks the code of the package at the path, called from outside.
func c18Pkg(w *pkWorld, p pkPath, path string, run func(string) (string, Out), head func(string) string, r *Rec) {
	n := p.node
	x, hk, hm, X := n.kids["x"].val, n.kids["h"].kids["k"].val, n.kids["h"].kids["in"].kids["m"].val, n.kids["X"].val
	type exp struct {
		src  string
		want string // "" = must be refused
	}
	ex := []exp{
		{"($.Getx)", fmt.Sprint(x)}, {"($.GetX)", fmt.Sprint(X)}, {"($.Ent)", fmt.Sprint(x + hk)}, {"($.Mp)", fmt.Sprint(x)}, {"($.Le)", fmt.Sprint(x)}, {"($.Infx)", fmt.Sprint(x)}, {"($.Cnt)", fmt.Sprint(x)},
		{"(let [c ($.Mk)] (c))", fmt.Sprint(x)}, {"(($.Mk))", fmt.Sprint(x)}, {"(($.MkH))", fmt.Sprint(hm)}, {"($.Call ($.Mk))", fmt.Sprint(x)}, {"(apply ($.Mk) [])", fmt.Sprint(x)}, {"($.Loc)", "1"}, {"($.Par 7)", "7"}, {"($.Getx)", fmt.Sprint(x)},
		{"(let [fun ($.Mk) x 5] (fun))", fmt.Sprint(x)}, {"(let [h (hash k: 1)] ($.Ent))", fmt.Sprint(x + hk)}, {"((fn [x h] ($.Ent)) 1 2)", fmt.Sprint(x + hk)},
		{"(let [al $] (+ 0 al.X))", fmt.Sprint(X)}, {"(let [al $] (+ 0 al.x))", ""}, {"(let [al $] (al.Getx))", fmt.Sprint(x)}, {"(let [al $] {al.x = 5})", ""}, {"(begin (def wal $) (+ 0 wal.X))", fmt.Sprint(X)}, {"(begin (def wal $) (+ 0 wal.x))", ""}, {"(begin (def wal $) (set wal.x 5))", ""},
		{"(let [hx (hash q: 1)] (begin {hx.q = $} (+ 0 hx.q.X)))", fmt.Sprint(X)}, {"(let [hx (hash q: 1)] (begin {hx.q = $} (+ 0 hx.q.x)))", ""},
		{"(let [al ($.Id $)] (+ 0 $.X))", fmt.Sprint(X)}, {"(+ 0 $.nosuch)", ""}, {"(+ 0 $.Nosuch)", ""}, {"($.nosuch 1)", ""}, {"($.Nosuch)", ""}, {"{$.nosuch = 1}", ""},
		{"(+ 0 $.x.y)", ""}, {"(+ 0 $.h.nosuch)", ""}, {"(+ 0 $.H.nosuch)", ""}, {"(+ 0 $.X.y)", ""}, {"{$.h.nosuch = 4}", ""},
	}
	for i, up := range p.via[:len(p.via)-1] {
		if m := up.kids[fmt.Sprintf("only%d", i)]; m != nil {
			ex = append(ex, exp{fmt.Sprintf("($.Up%d)", i), fmt.Sprint(m.val)})
			ex = append(ex, exp{fmt.Sprintf("(begin ($.UpSet%d %d) ($.Up%d))", i, m.val, i), fmt.Sprint(m.val)})
			ex = append(ex, exp{fmt.Sprintf("(+ 0 $.only%d)", i), ""})
			ex = append(ex, exp{fmt.Sprintf("{$.only%d = 4}", i), ""})
		}
	}
	for _, k := range n.keys {
		if c := n.kids[k]; c.kind == "pkg" {
			ex = append(ex, exp{"($.TryPub)", fmt.Sprint(c.kids["X"].val)}, exp{"($.TryPriv)", ""}, exp{"($.TryPrivSet)", ""})
		}
	}
	for _, e := range ex {
		src, o := run(e.src)
		r.Validated++
		if e.want == "" && o.Kind != "err" {
			r.Violate("not refused "+e.src, head(src), fmt.Sprintf("no error: %s\n%s", o, w.src))
		}
		if e.want != "" && (o.Kind != "val" || o.S != e.want) {
			r.Violate("package code "+e.src, head(src), fmt.Sprintf("want %s got %s\n%s", e.want, o, w.src))
		}
	}
}

func init() {
	register(&PropDef{ID: "C18", Assume: []string{
		"a name whose first rune has no case (_, a CJK letter) is not decided by the property: it must only not disturb the others",
		"keys of a hash that may be reached are not members of a package: their case does not matter",
		"what a name missing from a package finds in the scopes around it is not checked",
		"a dotted symbol in value position (for example an element of a list) stays a symbol: it must then not carry a private value",
	}, Spaces: func(tier string) []*Space {
		var out []*Space
		nm := []string{"in", "In", "éin", "_in", "中in"}
		var d1, d2, d3 []pkConf
		for i, a := range nm {
			d1 = append(d1, pkConf{[]string{a}, i % len(pkDefs), i % len(pkHows)})
		}
		k := 0
		for _, a := range nm[:3] {
			for _, b := range nm[:3] {
				d2 = append(d2, pkConf{[]string{a, b}, k % len(pkDefs), (k + 4) % len(pkHows)})
				k++
			}
		}
		var all []pkConf
		for d := range pkDefs {
			for h := range pkHows {
				all = append(all, pkConf{[]string{nm[(d+h)%5]}, d, h})
			}
		}
		if tier != "thorough" {
			out = append(out, c18Space("depth0", []pkConf{{nil, 0, 0}, {nil, 1, 2}}, pkViews))
			out = append(out, c18Space("depth1", []pkConf{d1[0], d1[1], d1[3]}, pkViews))
			out = append(out, c18Space("definitions", all, pkViews[:1]))
			out = append(out, c18Space("depth2", d2[1:3], []pkView{pkViews[0], pkViews[6], pkViews[11]}))
			return out
		}
		for d := range pkDefs {
			for h := range pkHows {
				d3 = append(d3, pkConf{[]string{nm[d], nm[h%5]}, d, h})
			}
		}
		out = append(out, c18Space("depth0", []pkConf{{nil, 0, 0}, {nil, 1, 2}, {nil, 2, 3}, {nil, 3, 5}, {nil, 4, 6}}, pkViews))
		out = append(out, c18Space("depth1", d1, pkViews))
		out = append(out, c18Space("definitions", all, pkViews))
		out = append(out, c18Space("depth2", d2, pkViews))
		out = append(out, c18Space("depth2-definitions", d3, pkViews))
		out = append(out, c18Space("depth3", []pkConf{{[]string{"in", "In", "in"}, 0, 0}, {[]string{"In", "in", "éin"}, 1, 1}, {[]string{"in", "in", "in"}, 2, 4}}, pkViews))
		return out
	}})
}
