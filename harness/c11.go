package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C11: JSON and msgpack encodings round-trip and are well-formed. Values,
// JSON texts and msgpack bytes are all brought to one canonical text; JSON
// is read with encoding/json, msgpack with the small decoder below.

func canonFloat(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1<<64 {
		n, _ := new(big.Float).SetFloat64(f).Int(nil)
		return n.String()
	}
	return "f" + strconv.FormatFloat(f, 'g', -1, 64)
}

func keyName(k zygo.Sexp) string {
	switch x := k.(type) {
	case *zygo.SexpSymbol:
		return x.Name()
	case *zygo.SexpStr:
		return x.S
	case *zygo.SexpInt:
		return strconv.FormatInt(x.Val, 10)
	}
	return fmt.Sprintf("?%T", k)
}

type canonTraits struct {
	notJSON  bool // Inf or NaN inside
	reserved bool // a member called Atype or zKeyOrder, or two of one name
	odd      bool // keys other than symbols
}

func canonSexp(v zygo.Sexp, t *canonTraits) string {
	switch x := v.(type) {
	case *zygo.SexpInt:
		return strconv.FormatInt(x.Val, 10)
	case *zygo.SexpUint64:
		return strconv.FormatUint(x.Val, 10)
	case *zygo.SexpFloat:
		if math.IsInf(x.Val, 0) || math.IsNaN(x.Val) {
			t.notJSON = true
		}
		return canonFloat(x.Val)
	case *zygo.SexpBool:
		return strconv.FormatBool(x.Val)
	case *zygo.SexpStr:
		return strconv.QuoteToASCII(x.S)
	case *zygo.SexpArray:
		var b strings.Builder
		b.WriteByte('[')
		for i, e := range x.Val {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(canonSexp(e, t))
		}
		return b.String() + "]"
	case *zygo.SexpHash:
		var b strings.Builder
		b.WriteString("{" + strconv.QuoteToASCII(x.TypeName))
		seen := map[string]bool{"Atype": true, "zKeyOrder": true}
		for _, k := range x.KeyOrder {
			n := keyName(k)
			if seen[n] {
				t.reserved = true
			}
			seen[n] = true
			if _, ok := k.(*zygo.SexpSymbol); !ok {
				t.odd = true
			}
			val, err := x.HashGet(nil, k)
			if err != nil {
				return "<key without value>"
			}
			b.WriteString(" " + strconv.QuoteToASCII(n) + ":" + canonSexp(val, t))
		}
		return b.String() + "}"
	}
	if v == zygo.SexpNull {
		return "null"
	}
	return "?" + Dump(v)
}

var errShape = errors.New("not the documented shape")

// obj: the members of a decoded map, in order of appearance.
func canonObj(names, vals []string, inOrder bool) (string, error) {
	at := map[string]string{}
	for i, n := range names {
		if _, dup := at[n]; dup {
			return "", fmt.Errorf("%w: member %q twice", errShape, n)
		}
		at[n] = vals[i]
	}
	typ, ok := at["Atype"]
	if !ok || !strings.HasPrefix(typ, `"`) {
		return "", fmt.Errorf("%w: Atype is %q", errShape, typ)
	}
	var order []string
	if ko, ok := at["zKeyOrder"]; ok {
		// canonical text of an array of strings is JSON up to escapes
		for _, q := range splitCanon(ko) {
			s, err := strconv.Unquote(q)
			if err != nil {
				return "", fmt.Errorf("%w: zKeyOrder is %s", errShape, ko)
			}
			order = append(order, s)
		}
	}
	if len(order) != len(at)-1 && !(len(order) == len(at)-2) {
		return "", fmt.Errorf("%w: order %q of %d members", errShape, order, len(at))
	}
	b := "{" + typ
	used := map[string]bool{}
	for _, n := range order {
		v, ok := at[n]
		if !ok || used[n] {
			return "", fmt.Errorf("%w: order %q", errShape, order)
		}
		used[n] = true
		b += " " + strconv.QuoteToASCII(n) + ":" + v
	}
	if inOrder {
		i := 0
		for _, n := range names {
			if n == "Atype" || n == "zKeyOrder" {
				continue
			}
			if i >= len(order) || order[i] != n {
				return "", fmt.Errorf("%w: members %q, order %q", errShape, names, order)
			}
			i++
		}
	}
	return b + "}", nil
}

// splitCanon splits the canonical text of an array of strings.
func splitCanon(s string) (out []string) {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "["), "]")
	for s != "" {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return append(out, s)
		}
		out = append(out, q)
		s = strings.TrimPrefix(s[len(q):], ",")
	}
	return
}

func canonNum(s string) string {
	if n, ok := new(big.Int).SetString(s, 10); ok {
		if n.IsInt64() || n.IsUint64() {
			return n.String()
		}
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "?" + s
	}
	return canonFloat(f)
}

// canonJSON reads a JSON text. plain: without the reserved members.
func canonJSON(b []byte, plain bool) (string, error) {
	if !utf8.Valid(b) {
		return "", errors.New("not UTF-8")
	}
	if !json.Valid(b) {
		var x any
		return "", fmt.Errorf("not JSON: %v", json.Unmarshal(b, &x))
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var val func() (string, error)
	val = func() (string, error) {
		t, err := d.Token()
		if err != nil {
			return "", err
		}
		switch x := t.(type) {
		case nil:
			return "null", nil
		case bool:
			return strconv.FormatBool(x), nil
		case string:
			return strconv.QuoteToASCII(x), nil
		case json.Number:
			return canonNum(string(x)), nil
		case json.Delim:
			var names, vals []string
			for d.More() {
				if x == '{' {
					n, err := d.Token()
					if err != nil {
						return "", err
					}
					names = append(names, n.(string))
				}
				v, err := val()
				if err != nil {
					return "", err
				}
				vals = append(vals, v)
			}
			if _, err := d.Token(); err != nil {
				return "", err
			}
			if x == '[' {
				return "[" + strings.Join(vals, ",") + "]", nil
			}
			if plain {
				b := `{"hash"`
				for i := range names {
					b += " " + strconv.QuoteToASCII(names[i]) + ":" + vals[i]
				}
				return b + "}", nil
			}
			return canonObj(names, vals, true)
		}
		return "", fmt.Errorf("token %v", t)
	}
	return val()
}

// canonMsgpack reads msgpack (the msgpack specification, without
// extensions).
func canonMsgpack(b []byte) (s string, err error) {
	defer func() {
		if recover() != nil {
			err = errors.New("not msgpack: cut off")
		}
	}()
	pos := 0
	take := func(n int) []byte {
		pos += n
		return b[pos-n : pos]
	}
	num := func(n int) uint64 {
		var x uint64
		for _, c := range take(n) {
			x = x<<8 | uint64(c)
		}
		return x
	}
	var val func() string
	str := func(n int) string { return strconv.QuoteToASCII(string(take(n))) }
	arr := func(n int) string {
		var vs []string
		for i := 0; i < n; i++ {
			vs = append(vs, val())
		}
		return "[" + strings.Join(vs, ",") + "]"
	}
	mp := func(n int) string {
		var names, vals []string
		for i := 0; i < n; i++ {
			k, e := strconv.Unquote(val())
			if e != nil {
				err = errors.New("a map key is not a string")
			}
			names = append(names, k)
			vals = append(vals, val())
		}
		o, e := canonObj(names, vals, false)
		if e != nil && err == nil {
			err = e
		}
		return o
	}
	val = func() string {
		switch c := take(1)[0]; {
		case c < 0x80:
			return strconv.Itoa(int(c))
		case c >= 0xe0:
			return strconv.Itoa(int(int8(c)))
		case c < 0x90:
			return mp(int(c & 15))
		case c < 0xa0:
			return arr(int(c & 15))
		case c < 0xc0:
			return str(int(c & 31))
		case c == 0xc0:
			return "null"
		case c == 0xc2:
			return "false"
		case c == 0xc3:
			return "true"
		case c == 0xca:
			return canonFloat(float64(math.Float32frombits(uint32(num(4)))))
		case c == 0xcb:
			return canonFloat(math.Float64frombits(binary.BigEndian.Uint64(take(8))))
		case c >= 0xcc && c <= 0xcf:
			return strconv.FormatUint(num(1<<(c-0xcc)), 10)
		case c == 0xd0:
			return strconv.Itoa(int(int8(num(1))))
		case c == 0xd1:
			return strconv.Itoa(int(int16(num(2))))
		case c == 0xd2:
			return strconv.Itoa(int(int32(num(4))))
		case c == 0xd3:
			return strconv.FormatInt(int64(num(8)), 10)
		case c >= 0xd9 && c <= 0xdb:
			return str(int(num(1 << (c - 0xd9))))
		case c == 0xdc || c == 0xdd:
			return arr(int(num(2 << (c - 0xdc))))
		case c == 0xde || c == 0xdf:
			return mp(int(num(2 << (c - 0xde))))
		default:
			err = fmt.Errorf("msgpack byte %#x", c)
			panic(err)
		}
	}
	s = val()
	if err == nil && pos != len(b) {
		err = fmt.Errorf("%d bytes after the value", len(b)-pos)
	}
	return
}

const c11Setup = `(defmap castle) (struct P0 [(field a: int64) (field s: string)]) (struct Q0 [(field p: P0) (field l: ([] int64))]) (defmap Été)`

var c11Env *zygo.Zlisp

func jenv() *zygo.Zlisp {
	if c11Env == nil {
		zygo.RegisterDemoStructs()
		parseEnv = NewStd()
		c11Env = parseEnv
		c11Env.ImportDemoData()
		if o := Eval(c11Env, c11Setup); o.Kind != "val" {
			panic(o.String())
		}
	}
	return c11Env
}

func zRec(typ string, kv ...zygo.Sexp) zygo.Sexp {
	h, err := zygo.MakeHash(kv, typ, jenv())
	if err != nil {
		panic(err)
	}
	return h
}

// zKey is the symbol of any name.
func zKey(name string) zygo.Sexp { return jenv().MakeSymbol(name) }

// checkCodec checks both encodings of v.
func checkCodec(v zygo.Sexp, r *Rec) bool {
	env := jenv()
	var tr canonTraits
	want := canonSexp(v, &tr)
	before := Dump(v)
	fail := func(sig, detail string) bool {
		env.Clear()
		r.Violate(sig, fmt.Sprintf("%.300s", before), fmt.Sprintf("value %s\n%s", before, detail))
		return false
	}
	env.AddGlobal("vv", v)
	for _, enc := range []string{"json", "msgpack"} {
		o := guard(50000, func() (zygo.Sexp, error) { return env.EvalString("(def ee (" + enc + " vv))") })
		r.Validated++
		raw, isRaw := o.V.(*zygo.SexpRaw)
		if o.Kind != "val" || !isRaw {
			if o.Kind == "err" && (tr.reserved || tr.notJSON && enc == "json") {
				env.Clear()
				r.Count("refused", 1)
				continue
			}
			return fail("("+enc+" v) fails", o.String())
		}
		var got string
		var err error
		if enc == "json" {
			got, err = canonJSON(raw.Val, false)
		} else {
			got, err = canonMsgpack(raw.Val)
		}
		if err != nil {
			return fail("("+enc+" v) is not well-formed", fmt.Sprintf("encoded %q\n%v", raw.Val, err))
		}
		if got != want {
			return fail("("+enc+" v) denotes other data", fmt.Sprintf("encoded %q\ndenotes %s\nexpected %s", raw.Val, got, want))
		}
		bytesBefore := string(raw.Val)
		o = guard(50000, func() (zygo.Sexp, error) { return env.EvalString("(un" + enc + " ee)") })
		if o.Kind != "val" {
			return fail("(un"+enc+" ("+enc+" v)) fails", o.String())
		}
		r.Validated++
		if tr.odd {
			continue
		}
		var t2 canonTraits
		if got := canonSexp(o.V, &t2); got != want || t2.odd {
			return fail("(un"+enc+" ("+enc+" v)) is not v", fmt.Sprintf("encoded %q\ndecoded  %s\nexpected %s", bytesBefore, got, want))
		}
		if string(raw.Val) != bytesBefore {
			return fail("decoding changed the encoded bytes", "")
		}
	}
	if Dump(v) != before {
		return fail("encoding changed the value", Dump(v))
	}
	return true
}

// around puts a value everywhere a value can be.
func around(v zygo.Sexp) []zygo.Sexp {
	k := zKey("k")
	return []zygo.Sexp{v, zArr(v), zArr(zInt(1), v, v), zHash(k, v), zHash(zKey("z"), v, k, v), zRec("castle", k, v), zArr(zHash(k, v), zArr(v)), zHash(zStr("k"), v), zHash(k, zHash(k, zArr(v, zHash(zKey("b"), v, zKey("a"), v))))}
}

func codecScalars(name, bound string, n uint64, at func(i uint64) zygo.Sexp) *Space {
	return &Space{Name: name, Size: n, Bound: bound,
		Desc: func(i uint64) string { return Dump(at(i)) },
		Run: func(i uint64, r *Rec) {
			for _, v := range around(at(i)) {
				if !checkCodec(v, r) {
					return
				}
			}
		}}
}

func codecInts() *Space {
	is := c12Ints()
	return codecScalars("integers", fmt.Sprintf("%d integers next to every power of two and of ten, as int64 and uint64, in 9 places", len(is)), uint64(2*len(is)), func(i uint64) zygo.Sexp {
		if i%2 == 0 {
			return zInt(is[i/2])
		}
		return zUint(uint64(is[i/2]))
	})
}

func codecFloats(thorough bool) *Space {
	ms := c12Mants(thorough)[:16]
	if thorough {
		ms = c12Mants(true)
	}
	nm := uint64(len(ms))
	return &Space{Name: "floats", Size: 2048 * nm,
		Bound: fmt.Sprintf("floats of every exponent x %d mantissas, both signs, printed in both styles", nm),
		Run: func(i uint64, r *Rec) {
			f := math.Float64frombits(i/nm<<52 | ms[i%nm])
			if math.IsNaN(f) {
				f = math.NaN()
			}
			k := zKey("k")
			checkCodec(zArr(zFlt(f, false), zFlt(-f, false), zFlt(f, true), zHash(k, zFlt(-f, true))), r)
		}}
}

func codecRunes() *Space {
	return &Space{Name: "runes", Size: 0x110000, Chunk: 4096,
		Bound: "every Unicode character: alone and inside of strings and in string keys, in arrays and hashes",
		Desc:  func(i uint64) string { return fmt.Sprintf("%U", i) },
		Run: func(i uint64, r *Rec) {
			c := rune(i)
			if c >= 0xd800 && c <= 0xdfff {
				return
			}
			s := string(c)
			k := zKey("k")
			checkCodec(zHash(k, zStr(s), zKey("a"), zArr(zStr("x"+s+"y"+s), zStr("\""+s))), r)
			if i < 0x3100 || i%64 == 0 || i >= 0xff00 && i < 0x10100 {
				checkCodec(zHash(zStr(s), zStr(s), zStr("x"+s+"\\"), zInt(1)), r)
			}
			if i < 0x500 {
				checkCodec(zStr(s), r)
				checkCodec(zHash(zKey(s), zInt(1), zKey("x"+s), zHash(zKey(s), zStr(s))), r)
			}
		}}
}

func codecStrings(n int) *Space {
	k := uint64(len(c12Runes))
	size := uint64(1)
	for i := 0; i < n; i++ {
		size *= k
	}
	text := func(i uint64) string {
		var rs []rune
		for j := 0; j < n; j++ {
			rs = append(rs, c12Runes[i%k])
			i /= k
		}
		return string(rs)
	}
	return &Space{Name: fmt.Sprintf("strings-%d", n), Size: size,
		Bound: fmt.Sprintf("all strings of %d characters over %d that need care, as plain and raw strings, string keys and symbol keys", n, k),
		Desc:  func(i uint64) string { return strconv.Quote(text(i)) },
		Run: func(i uint64, r *Rec) {
			s := text(i)
			if n <= 1 {
				for _, v := range around(zStr(s)) {
					checkCodec(v, r)
				}
			}
			checkCodec(zHash(zStr(s), zArr(zStr(s)), zStr("b"), zStr(s)), r)
			checkCodec(zHash(zKey(s), zArr(zStr(s)), zKey("b"), zHash(zKey("c"), zStr(s), zKey(s+"a"), zStr(s))), r)
			if !strings.Contains(s, "`") {
				checkCodec(zRec("castle", zKey("k"), zBack(s)), r)
			}
		}}
}

var c11Keys = []string{"a", "b", "ab", "B", "", "k0", "10", "9", "Atype", "zKeyOrder", "zKeyOrde", "atype", "é", "a b", "\"", "\\", "nil", "true", "hash", "infix", "z", "zz", ":", "a:", "k\n"}

// keySpace: all sequences of keys, symbols and strings, under all types
func keySpace(n int) *Space {
	k := uint64(len(c11Keys))
	size := uint64(8)
	for i := 0; i < n; i++ {
		size *= k
	}
	types := []string{"hash", "castle", "Été", "undeclared"}
	at := func(i uint64) (string, []zygo.Sexp) {
		form := i % 2
		i /= 2
		typ := types[i%4]
		i /= 4
		var kv []zygo.Sexp
		for j := 0; j < n; j++ {
			name := c11Keys[i%k]
			i /= k
			key := zKey(name)
			if form == 1 && j != 1 {
				key = zStr(name)
			}
			kv = append(kv, key, zInt(int64(j)))
		}
		return typ, kv
	}
	return &Space{Name: fmt.Sprintf("keys-%d", n), Size: size,
		Bound: fmt.Sprintf("hashes and records of 4 types with all sequences of %d of %d names as symbol or string keys, alone, nested and after a member was replaced, deleted and set again", n, k),
		Desc:  func(i uint64) string { t, kv := at(i); return t + " " + Dump(zArr(kv...)) },
		Run: func(i uint64, r *Rec) {
			typ, kv := at(i)
			h := zRec(typ, kv...)
			ok := checkCodec(h, r) && checkCodec(zArr(h, zHash(zKey("q"), h, zKey("p"), h)), r)
			if ok && n >= 2 {
				g := zRec(typ, kv...).(*zygo.SexpHash)
				g.HashSet(kv[0], zStr("new"))
				if checkCodec(g, r) {
					g.HashDelete(kv[0])
					if checkCodec(g, r) {
						g.HashSet(kv[0], zInt(9))
						checkCodec(g, r)
					}
				}
			}
		}}
}

// treeSpace: all nests over a few leaves
func codecTrees(depth int, leaves []zygo.Sexp) []zygo.Sexp {
	if depth == 0 {
		return leaves
	}
	sub := codecTrees(depth-1, leaves)
	out := append([]zygo.Sexp{}, leaves...)
	out = append(out, zArr(), zHash(), zRec("castle"))
	for _, a := range sub {
		out = append(out, zArr(a), zHash(zKey("k"), a), zRec("castle", zKey("w"), a))
	}
	return out
}

func treeSpace(thorough bool) *Space {
	leaves := []zygo.Sexp{zInt(-1), zFlt(3, false), zFlt(1e300, false), zBool(false), zygo.SexpNull, zStr("a\"\\\n"), zBack("r\"")}
	d := 1
	if thorough {
		d = 2
	}
	vs := codecTrees(d, leaves)
	k := uint64(len(vs))
	forms := uint64(6)
	return &Space{Name: "structures", Size: k * k * forms,
		Bound: fmt.Sprintf("%d shapes of arrays, hashes and records around all pairs of %d values nested to depth %d", forms, k, d),
		Desc:  func(i uint64) string { return Dump(zArr(vs[i/forms%k], vs[i/forms/k])) },
		Run: func(i uint64, r *Rec) {
			a, b := vs[i/forms%k], vs[i/forms/k]
			p, q, x := zKey("p"), zKey("q"), zKey("aa")
			var v zygo.Sexp
			switch i % forms {
			case 0:
				v = zArr(a, b)
			case 1:
				v = zHash(q, a, p, b)
			case 2:
				v = zRec("castle", q, a, p, b, x, a)
			case 3:
				v = zHash(q, zRec("castle", q, b, p, a), p, zArr(zHash(x, a, p, b), b))
			case 4:
				v = zHash(zStr("q"), a, zStr("p"), zHash(q, b, p, a))
			case 5:
				v = zArr(zArr(a, zArr(b)), zRec("Été", x, zRec("castle", x, b, p, zHash(q, a))))
			}
			checkCodec(v, r)
			if i%4999 == 7 {
				r.Sample(zygo.SexpToJson(v))
			}
		}}
}

// programs whose value is encoded
func codecProgs() *Space {
	var ps []string
	add := func(s ...string) { ps = append(ps, s...) }
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for _, p := range perms {
		f := []string{`id: 12`, `flight: "AZ\"D"`, `pilot: ["R" "E\\"]`}
		g := []string{`speed: 7`, `chld: (hellcat speed: 567)`, `cry: "é"`}
		h := []string{`zed: 1`, `apple: [1.0 nil]`, `mid: (castle z: 1 a: (P0 s: "x" a: 3))`}
		join := func(x []string) string { return x[p[0]] + " " + x[p[1]] + " " + x[p[2]] }
		add("(eventdemo "+join(f)+")", "(eventdemo user: (persondemo last:\"C\" first:\"L\") "+join(f)+" cancelled: true)", "(castle "+join(h)+")", "(hash "+join(h)+")", "[(hash "+join(h)+")]",
			"(snoopy "+join(g)+")")
	}
	add(`(P0 a: 7 s: "q")`, `(P0 s: "q" a: 7)`, `(P0 s: "q")`, `(P0)`, `(Q0 p: (P0 s: "q" a: 1) l: [1 2])`, `(Q0 l: [3] p: (P0 a: 1))`, `(snoopy speed: 2 cry: "x")`,
		`(snoopy chld: (hellcat speed: 567) cry: "x")`, `(hornet mass: 1.5 nickname: "n")`, `(weather size: 12 type: "t")`)
	// members set, deleted and set again
	for _, ty := range []string{"hash", "castle"} {
		for _, s := range []string{
			"(def h (%s a: 1 b: 2 c: 3)) (hdel h (quote a)) h", "(def h (%s a: 1 b: 2 c: 3)) (hdel h (quote b)) (hset h (quote b) 5) h", "(def h (%s)) (hset h (quote z) 1) (hset h (quote y) 2) (hset h (quote z) 3) h",
			"(def h (%s b: 1 a: [])) (hset h (quote c) h.a) (set h.b \"x\") h", "(def h (%s b: 1)) (def g (%s h: h a: h)) (hset h (quote n) 2) g", "(def h (%s a: (%s b: 1 a: 2))) (set h.a.c [3]) h",
			"(def h (%s a: 1 b: 2)) (hdel h (quote a)) (hdel h (quote b)) h",
		} {
			add(strings.ReplaceAll(s, "%s", ty))
		}
	}
	add(`[]`, `[[]]`, `(hash)`, `"x"`, `5`, `nil`, `true`, `1.5`, `[nil nil]`, "`a\"b`", `(/ 1.0 3.0)`, `(* 1e200 1e100)`, `(+ 1.5 1.5)`, `(concat "a\"" "\n")`, `(append [1] 2)`, `(unjson (json (hash b: 1 a: (castle d: 1 c: 2))))`, `(unmsgpack (msgpack (castle b: 1 a: (hash d: 1 c: 2))))`, `(slice [1 2 3] 1 2)`, `5ULL`, `18446744073709551615ULL`)
	return &Space{Name: "programs", Size: uint64(len(ps)),
		Bound: fmt.Sprintf("%d programs making records of declared, registered and ad hoc types with members in every order, changed, deleted and shared", len(ps)),
		Desc:  func(i uint64) string { return ps[i] },
		Run: func(i uint64, r *Rec) {
			o := Eval(jenv(), ps[i])
			if o.Kind != "val" || strings.Contains(canonSexp(o.V, &canonTraits{}), "?") {
				r.Count("not_data", 1)
				if os.Getenv("VZ_ALL") != "" {
					fmt.Fprintln(os.Stderr, "not data:", ps[i], o)
				}
				jenv().Clear()
				return
			}
			checkCodec(o.V, r)
		}}
}

// sources: JSON texts as source literals. Their meaning is what
// encoding/json reads.
func codecSources(thorough bool) *Space {
	strs := []string{`""`, `"a"`, `"a b"`, `"\"\\"`, `"\n\t\r\b\f"`, `"\u0000"`, `"é世😀"`, `"{:,}"`, `"// x"`, `"/* x"`, `"'"`, "\"`\""}
	leaves := append([]string{"0", "-1", "9223372036854775807", "1.5", "-2.5e3", "1e300", "true", "false", "null", "[]", "{}"}, strs...)
	keys := append([]string{`"k"`}, strs...)
	arr := func(x ...string) string { return "[" + strings.Join(x, ", ") + "]" }
	var l1 []string
	for _, a := range leaves {
		l1 = append(l1, a, arr(a), arr(a, a))
		for i, k := range keys {
			if i < 4 || a == "0" {
				l1 = append(l1, "{"+k+":"+a+"}", "{"+k+": "+a+", \"z\":"+a+"}")
			}
		}
	}
	n := uint64(len(l1))
	nk := uint64(len(keys))
	styles := uint64(4)
	text := func(i uint64) string {
		st := i % styles
		i /= styles
		k := keys[i%nk]
		i /= nk
		a := l1[i%n]
		b := l1[i/n]
		var t string
		switch st {
		case 0:
			t = "{" + k + ":" + a + "}"
			if i/n != 0 {
				t = "{" + k + ":" + a + ",\"y\":" + b + "}"
			}
		case 1:
			t = "{\n  \"zz\" : " + b + " ,\n  " + k + " : [ " + a + " , " + b + " ]\n}\n"
		case 2:
			t = "[{" + k + ": {\"b\": " + a + ", \"a\": " + b + "}}, " + a + "]"
		case 3:
			t = "{\"o\":{\"b\":" + a + "," + k + ":{\"q\":" + b + "}},\"i\":[" + b + "," + a + "]}"
		}
		return t
	}
	size := styles * nk * n
	if thorough {
		size *= n
	} else {
		size *= 12
	}
	return &Space{Name: "source-literals", Size: size,
		Bound: "JSON texts nested to depth 3 in 4 layouts used as source: their encoding denotes what encoding/json reads in the source",
		Desc:  text,
		Run: func(i uint64, r *Rec) {
			t := text(i)
			want, err := canonJSON([]byte(t), true)
			if err != nil {
				panic(t + ": " + err.Error())
			}
			env := jenv()
			o := Eval(env, strings.ReplaceAll(t, "null", "nil"))
			if o.Kind != "val" {
				env.Clear()
				r.Violate("a JSON-style literal does not evaluate", t, o.String())
				return
			}
			r.Validated++
			var tr canonTraits
			if got := canonSexp(o.V, &tr); got != want && !tr.reserved {
				r.Violate("a JSON-style literal evaluates to other data", t, fmt.Sprintf("got      %s\nexpected %s", got, want))
				return
			}
			checkCodec(o.V, r)
		}}
}

func init() {
	register(&PropDef{ID: "C11", Assume: []string{
		"strings are valid UTF-8",
		"members called Atype or zKeyOrder, or two keys of one name, may be refused with an error; so may Inf and NaN in JSON",
	}, Spaces: func(tier string) []*Space {
		th := tier == "thorough"
		jenv()
		out := []*Space{codecProgs(), codecInts(), codecStrings(1), codecStrings(2), keySpace(1), keySpace(2), treeSpace(th), codecSources(th), codecFloats(th), codecRunes(), codecStrings(3), keySpace(3)}
		if th {
			out = append(out, codecStrings(4))
		}
		return out
	}})
}
