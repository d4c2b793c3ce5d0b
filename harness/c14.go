package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C14: all histories of set/delete over small key universes on real hashes,
// every observation compared with an insertion-ordered map.

type hkey struct {
	src   string // expression denoting the key
	class string // keys of one class are the same key
	text  string // how the key prints inside a hash
	show  string // Dump of the key
	sym   string // name if it is a symbol
	str   bool
}

type omap struct {
	order []string
	val   map[string]string // class -> dump of the value
	src   map[string]string // class -> printed value
	key   map[string]*hkey  // class -> key as first inserted
}

func newOmap() *omap {
	return &omap{val: map[string]string{}, src: map[string]string{}, key: map[string]*hkey{}}
}
func (m *omap) set(k *hkey, dump, text string) {
	if _, ok := m.val[k.class]; !ok {
		m.order = append(m.order, k.class)
		m.key[k.class] = k
	}
	m.val[k.class] = dump
	m.src[k.class] = text
}
func (m *omap) del(k *hkey) {
	if _, ok := m.val[k.class]; !ok {
		return
	}
	delete(m.val, k.class)
	delete(m.src, k.class)
	var o []string
	for _, c := range m.order {
		if c != k.class {
			o = append(o, c)
		}
	}
	m.order = o
}
func (m *omap) clone() *omap {
	n := newOmap()
	n.order = append(n.order, m.order...)
	for k, v := range m.val {
		n.val[k] = v
	}
	for k, v := range m.src {
		n.src[k] = v
	}
	for k, v := range m.key {
		n.key[k] = v
	}
	return n
}
func (m *omap) String() string {
	var s []string
	for _, c := range m.order {
		s = append(s, c+"="+m.val[c])
	}
	return "{" + strings.Join(s, " ") + "}"
}

// collidingStrings finds two short strings with the same 32-bit FNV-1 code.
var collA, collB string

func collidingStrings() (string, string) {
	if collA != "" {
		return collA, collB
	}
	seen := map[uint32]string{}
	for i := 0; ; i++ {
		s := strconv.FormatInt(int64(i), 36)
		h := fnv.New32()
		h.Write([]byte(s))
		v := h.Sum32()
		if p, ok := seen[v]; ok {
			collA, collB = p, s
			return collA, collB
		}
		seen[v] = s
	}
}

func fnv32(s string) int64 {
	h := fnv.New32()
	h.Write([]byte(s))
	return int64(int(h.Sum32()))
}

func kSym(n string) hkey { return hkey{"%" + n, "s:" + n, n, "'" + n, n, false} }
func kStr(s string) hkey {
	return hkey{`"` + s + `"`, `"` + s + `"`, `"` + s + `"`, strconv.QuoteToASCII(s), "", true}
}
func kInt(v int64) hkey {
	s := strconv.FormatInt(v, 10)
	return hkey{s, "i:" + s, s, s, "", false}
}
func kChr(r rune) hkey {
	return hkey{"'" + string(r) + "'", "i:" + strconv.Itoa(int(r)), "'" + string(r) + "'", "c:" + strconv.Itoa(int(r)), "", false}
}
func kArr1(k hkey) hkey { // one-element array
	k.src = "[" + k.src + "]"
	k.sym = ""
	return k
}

type c14Universe struct {
	name string
	keys []hkey
}

func c14Universes(env *zygo.Zlisp) []c14Universe {
	n := int64(env.MakeSymbol("a").Number())
	ca, cb := collidingStrings()
	u := []c14Universe{
		{"sym-sym-int(collides)", []hkey{kSym("a"), kSym("b"), kInt(n)}},
		{"str-str-int(collide)", []hkey{kStr(ca), kStr(cb), kInt(fnv32(ca))}},
		{"sym-int-str(collide)", []hkey{kSym("a"), kInt(n), kStr("a")}},
		{"char-int(same key)-sym", []hkey{kChr('c'), kInt(99), kSym("b")}},
		{"array1(same key)", []hkey{kInt(7), kArr1(kInt(7)), kArr1(kArr1(kInt(7)))}},
		{"array1-str-sym", []hkey{kArr1(kStr("x")), kStr("x"), kArr1(kSym("x"))}},
		{"int boundaries", []hkey{kInt(0), kInt(-1), kInt(-9223372036854775808)}},
		{"strings", []hkey{kStr(""), kStr("a b"), kStr("é")}},
		{"array2-sym-array1", []hkey{{"[1 2]", "[1 2]", "[1 2]", "[1 2]", "", false}, kSym("a"), kArr1(kChr('z'))}},
		{"syms", []hkey{kSym("a"), kSym("b"), kSym("Atyp")}},
	}
	return u
}

// observe compares every observation of hash variable h with the model.
func c14Observe(env *zygo.Zlisp, tr *Tracer, h string, typ string, u []hkey, m *omap, r *Rec, hist func() string, jsonOK bool) {
	bad := func(what, got, want string) {
		r.Violate("hash "+what, hist(), fmt.Sprintf("%s: got %s, model %s says %s", what, got, m, want))
	}
	cmp := func(what, src, want string) {
		o := Eval(env, src)
		r.Validated++
		if o.Class() != want {
			bad(what, o.String(), want)
		}
	}
	n := len(m.order)
	var ks []string
	for _, c := range m.order {
		ks = append(ks, c)
	}
	canon := func(dump string) string { // the class of a dumped key
		for i := range u {
			if u[i].show == dump {
				return u[i].class
			}
		}
		return "?" + dump
	}
	cmp("len", "(len "+h+")", "val:"+strconv.Itoa(n))
	cmp("empty?", "(empty? "+h+")", "val:"+strconv.FormatBool(n == 0))
	o := Eval(env, "(keys "+h+")")
	r.Validated++
	if a, ok := o.V.(*zygo.SexpArray); !ok {
		bad("keys", o.String(), strings.Join(ks, " "))
	} else {
		var got []string
		for _, k := range a.Val {
			got = append(got, canon(Dump(k)))
		}
		if strings.Join(got, " ") != strings.Join(ks, " ") {
			bad("keys", o.S+" = "+strings.Join(got, " "), strings.Join(ks, " "))
		}
	}
	for i := 0; i <= n; i++ {
		o := Eval(env, "(hpair "+h+" "+strconv.Itoa(i)+")")
		r.Validated++
		if i == n {
			if o.Kind != "err" {
				bad("hpair", "position "+strconv.Itoa(i)+": "+o.String(), "an error")
			}
			continue
		}
		want := ks[i] + " " + m.val[ks[i]]
		got := o.String()
		if p, ok := o.V.(*zygo.SexpPair); ok {
			if q, ok := p.Tail.(*zygo.SexpPair); ok {
				got = canon(Dump(p.Head)) + " " + Dump(q.Head)
			}
		}
		if got != want {
			bad("hpair", "position "+strconv.Itoa(i)+": "+got, want)
		}
	}
	for i := range u {
		k := &u[i]
		if v, ok := m.val[k.class]; ok {
			cmp("hget", "(hget "+h+" "+k.src+")", "val:"+v)
			cmp("hget default", "(hget "+h+" "+k.src+" 999)", "val:"+v)
		} else {
			cmp("hget of a missing key", "(hget "+h+" "+k.src+")", "err")
			cmp("hget default of a missing key", "(hget "+h+" "+k.src+" 999)", "val:999")
		}
		if k.sym != "" {
			if v, ok := m.val[k.class]; ok {
				cmp("dot path", "(let [zz "+h+"."+k.sym+"] zz)", "val:"+v)
				cmp(":key", "(:"+k.sym+" "+h+")", "val:"+v)
			} else {
				cmp("dot path of a missing key", "(let [zz "+h+"."+k.sym+"] zz)", "err")
				cmp(":key default", "(:"+k.sym+" "+h+" 999)", "val:999")
			}
		}
		if v, ok := m.val[k.class]; ok {
			cmp("index", "(let [zz {"+h+"["+k.src+"]}] zz)", "val:"+v)
		} else {
			cmp("index of a missing key", "(let [zz {"+h+"["+k.src+"]}] zz)", "err")
		}
	}
	// range in its two surface forms
	wantR := ""
	for _, c := range ks {
		wantR += c + " " + m.val[c] + ";"
	}
	for _, form := range []string{"(range k v " + h + " (t k v))", "{for k, v := range " + h + " { (t k v) }}"} {
		tr.Log = nil
		o := Eval(env, form)
		r.Validated++
		got := ""
		for _, l := range tr.Log {
			p := strings.LastIndexByte(l, ',')
			got += canon(l[:p]) + " " + l[p+1:] + ";"
		}
		if o.Kind != "val" || got != wantR {
			bad("range", o.Kind+" "+got+" by "+form, wantR)
		}
	}
	// printed form
	var ps []string
	for _, c := range ks {
		ps = append(ps, m.key[c].text+":"+m.src[c])
	}
	want := "{" + strings.Join(ps, " ") + "}"
	if typ != "hash" {
		want = " (" + typ + " " + strings.Join(ps, " ") + ")"
	}
	po := Eval(env, "(str "+h+")")
	r.Validated++
	alt := want
	for _, c := range ks { // a key and its equal twin are the same key: either spelling
		_ = c
	}
	got := po.String()
	if s, ok := po.V.(*zygo.SexpStr); ok {
		got = s.S
	}
	if strings.TrimSpace(got) != strings.TrimSpace(want) && strings.TrimSpace(got) != alt {
		if !(typ != "hash" && n == 0 && strings.Join(strings.Fields(got), "") == "("+typ+")") {
			bad("printed form", got, want)
		}
	}
	if jsonOK {
		jo := Eval(env, "(raw2str (json "+h+"))")
		r.Validated++
		js, ok := jo.V.(*zygo.SexpStr)
		if !ok {
			bad("json", jo.String(), "a JSON text")
		} else {
			var d map[string]any
			dec := json.NewDecoder(strings.NewReader(js.S))
			dec.UseNumber()
			if err := dec.Decode(&d); err != nil {
				bad("json", js.S+": "+err.Error(), "well-formed JSON")
			} else {
				exp := map[string]string{}
				var ord []string
				for _, c := range ks {
					k := m.key[c]
					name := k.sym
					exp[name] = m.val[c]
					ord = append(ord, name)
				}
				cnt := 0
				for k, v := range d {
					if k == "Atype" || k == "zKeyOrder" {
						continue
					}
					cnt++
					s := ""
					switch x := v.(type) {
					case string:
						s = strconv.QuoteToASCII(x)
					default:
						s = fmt.Sprint(x)
					}
					if exp[k] != s {
						bad("json", js.S, fmt.Sprint(exp))
					}
				}
				if cnt != len(exp) {
					bad("json", js.S, fmt.Sprint(exp))
				}
				if n > 0 && fmt.Sprint(d["zKeyOrder"]) != fmt.Sprint(ord) {
					bad("json key order", js.S, fmt.Sprint(ord))
				}
			}
		}
		for _, enc := range []string{"(unjson (json " + h + "))", "(unmsgpack (msgpack " + h + "))"} {
			o := Eval(env, enc)
			r.Validated++
			w := "val:{" + typ
			for _, c := range ks {
				w += " '" + m.key[c].sym + ":" + m.val[c]
			}
			if o.String() != w+"}" {
				bad("encoding", o.String()+" from "+enc, w+"}")
			}
		}
	}
}

func c14Val(step int) (src, dump, text string) {
	if step%3 == 2 {
		s := `"v` + strconv.Itoa(step) + `"`
		return s, s, s
	}
	s := strconv.Itoa(100 + step)
	return s, s, s
}

func init() {
	register(&PropDef{ID: "C14", Assume: []string{
		"keys equal under (==) with equal hash codes (an int and the char with its code; a one-element array and its element) are one key",
		"a key deleted and set again takes the position of its latest insertion",
		"universes of three keys, sequence lengths bounded as stated per space",
	}, Spaces: func(tier string) []*Space {
		var out []*Space
		var env *zygo.Zlisp
		tr := &Tracer{}
		uses := 0
		fresh := func() *zygo.Zlisp {
			if env == nil || uses >= 60 {
				env = NewStd()
				env.MakeSymbol("a")
				tr.Install(env)
				Eval(env, "(defmap rec)\n")
				uses = 0
			}
			uses++
			return env
		}
		depth := 5
		if tier == "thorough" {
			depth = 7
		}
		var penv *zygo.Zlisp
		puses := 0
		nu := len(c14Universes(fresh()))
		type opsT struct {
			ctor, typ string
		}
		ctors := []opsT{{"(hash)", "hash"}, {"(rec)", "rec"}}
		run := func(name string, u int, d int, ctor opsT, init bool, eachStep bool) *Space {
			un := c14Universes(fresh())[u]
			nk := len(un.keys)
			nops := 2 * nk
			hv := "h"
			if ctor.typ != "hash" {
				hv = "rr"
			}
			hist := func(i uint64) ([]string, []int) {
				ops := strNth(nops, d, i)
				var ls []string
				ls = append(ls, "(def "+hv+" "+ctor.ctor+")")
				if init {
					ls[0] = "(def " + hv + " (" + ctor.typ + " " + un.keys[0].src + ":70 " + un.keys[nk-1].src + ":71))"
				}
				for st, o := range ops {
					k := un.keys[o%nk]
					if o < nk {
						v, _, _ := c14Val(st)
						ls = append(ls, "(hset "+hv+" "+k.src+" "+v+")")
					} else {
						ls = append(ls, "(hdel "+hv+" "+k.src+")")
					}
				}
				return ls, ops
			}
			jsonOK := true
			for _, k := range un.keys {
				if k.sym == "" {
					jsonOK = false
				}
			}
			return &Space{Name: name + ":" + un.name, Size: strCount(nops, d), Bound: fmt.Sprintf("all set/delete sequences up to length %d over %d keys", d, nk),
				Desc: func(i uint64) string { l, _ := hist(i); return strings.Join(l, "\n") },
				Run: func(i uint64, r *Rec) {
					e := fresh()
					ls, ops := hist(i)
					m := newOmap()
					if init {
						m.set(&un.keys[0], "70", "70")
						m.set(&un.keys[nk-1], "71", "71")
						if un.keys[0].class == un.keys[nk-1].class {
							m.set(&un.keys[0], "71", "71")
						}
					}
					hs := func() string { return strings.Join(ls, " ") }
					step := func(src string) {
						o := Eval(e, src)
						if o.Kind != "val" {
							r.Violate("hash op fails", hs(), src+" gave "+o.String())
						}
					}
					if !eachStep {
						step(strings.Join(ls, "\n"))
					} else {
						step(ls[0])
					}
					for st, o := range ops {
						k := &un.keys[o%nk]
						if o < nk {
							_, dmp, txt := c14Val(st)
							m.set(k, dmp, txt)
						} else {
							m.del(k)
						}
						if eachStep {
							step(ls[st+1])
							c14Observe(e, tr, hv, ctor.typ, un.keys, m, r, hs, jsonOK)
						}
					}
					if !eachStep {
						c14Observe(e, tr, hv, ctor.typ, un.keys, m, r, hs, jsonOK)
					}
					r.State(un.name + m.String())
					r.Count("model_states_compared", 1)
					if i%997 == 5 {
						r.Sample(hs() + " => " + m.String())
					}
				}}
		}
		for u := 0; u < nu; u++ {
			out = append(out, run("hist", u, depth, ctors[0], false, false))
			out = append(out, run("hist-step", u, depth-2, ctors[0], false, true))
			out = append(out, run("hist-init", u, depth-1, ctors[0], true, false))
			out = append(out, run("hist-rec", u, depth-1, ctors[1], u%2 == 0, false))
		}
		// write routes
		env0 := fresh()
		un := []hkey{kSym("a"), kSym("b"), kInt(int64(env0.MakeSymbol("a").Number()))}
		type wr struct {
			k   int
			fmt string
			del bool
		}
		var routes []wr
		for k := range un {
			routes = append(routes, wr{k, "(hset h %k %v)", false}, wr{k, "{h[%k] = %v}", false}, wr{k, "(hdel h %k)", true}, wr{k, "(hset g %k %v)", false}, wr{k, "(hset (hget o %q) %k %v)", false})
			if un[k].sym != "" {
				routes = append(routes, wr{k, "{h.%s = %v}", false}, wr{k, "(set h.%s %v)", false}, wr{k, "{o.q.%s = %v}", false}, wr{k, "(hset h %s: %v)", false})
			}
		}
		routes = append(routes, wr{0, "(hset h [%k] %v)", false}, wr{0, "(hdel h [%k])", true}, wr{0, "(hdel g %k)", true})
		rd := 3
		if tier == "thorough" {
			rd = 4
		}
		out = append(out, &Space{Name: "routes", Size: strCount(len(routes), rd), Bound: fmt.Sprintf("all sequences up to length %d over %d write routes (functions, dot paths, index assignment, aliases, nested)", rd, len(routes)),
			Run: func(i uint64, r *Rec) {
				e := fresh()
				ops := strNth(len(routes), rd, i)
				m := newOmap()
				ls := []string{"(def h (hash)) (def g h) (def o (hash q:h))"}
				for st, o := range ops {
					w := routes[o]
					k := &un[w.k]
					v := strconv.Itoa(100 + st)
					s := strings.NewReplacer("%k", k.src, "%s", k.sym, "%v", v).Replace(w.fmt)
					ls = append(ls, s)
					if w.del {
						m.del(k)
					} else {
						m.set(k, v, v)
					}
				}
				hs := func() string { return strings.Join(ls, "\n") }
				for _, l := range ls {
					o := Eval(e, l)
					if o.Kind != "val" {
						r.Violate("hash op fails", hs(), l+" gave "+o.String())
					}
				}
				c14Observe(e, tr, "h", "hash", un, m, r, hs, false)
				r.State("routes" + m.String())
			}})
		// copies made through a pointer are independent of their source
		cu := []hkey{kSym("a"), kSym("b"), kSym("c")}
		var cops []wr
		for k := range cu {
			cops = append(cops, wr{k, "(hset x %k %v)", false}, wr{k, "(hset y %k %v)", false}, wr{k, "(hdel x %k)", true}, wr{k, "(hdel y %k)", true})
		}
		cops = append(cops, wr{0, "(derefSet p y)", false})
		cd := 4
		if tier == "thorough" {
			cd = 5
		}
		out = append(out, &Space{Name: "pointer-copy", Size: strCount(len(cops), cd), Bound: fmt.Sprintf("all sequences up to length %d over sets and deletes on two instances and a copy through a pointer", cd),
			Run: func(i uint64, r *Rec) {
				if penv == nil || puses >= 500 {
					puses = 0
					penv = NewStd()
					tr.Install(penv)
					Eval(penv, "(struct CpS [(field a: int64 e:0) (field b: int64 e:1) (field c: int64 e:2)])\n")
				}
				puses++
				e := penv
				ops := strNth(len(cops), cd, i)
				mx, my := newOmap(), newOmap()
				ls := []string{"(def x (CpS a:1 b:2)) (def y (CpS b:3 c:4)) (def p (& x))"}
				mx.set(&cu[0], "1", "1")
				mx.set(&cu[1], "2", "2")
				my.set(&cu[1], "3", "3")
				my.set(&cu[2], "4", "4")
				for st, o := range ops {
					w := cops[o]
					v := strconv.Itoa(100 + st)
					s := strings.NewReplacer("%k", cu[w.k].src, "%v", v).Replace(w.fmt)
					ls = append(ls, s)
					m := mx
					if strings.Contains(s, " y ") {
						m = my
					}
					switch {
					case strings.HasPrefix(s, "(derefSet"):
						mx = my.clone()
					case w.del:
						m.del(&cu[w.k])
					default:
						m.set(&cu[w.k], v, v)
					}
				}
				hs := func() string { return strings.Join(ls, "\n") }
				for _, l := range ls {
					if o := Eval(e, l); o.Kind != "val" {
						r.Violate("hash op fails", hs(), l+" gave "+o.String())
					}
				}
				c14Observe(e, tr, "x", "CpS", cu, mx, r, hs, true)
				c14Observe(e, tr, "y", "CpS", cu, my, r, hs, true)
				r.State("ptr" + mx.String() + my.String())
			}})
		return out
	}})
}
