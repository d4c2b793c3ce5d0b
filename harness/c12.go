package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C12: printed data reads back as the same data; literals denote their value.

func zInt(n int64) zygo.Sexp   { return &zygo.SexpInt{Val: n} }
func zUint(n uint64) zygo.Sexp { return &zygo.SexpUint64{Val: n} }
func zFlt(f float64, sci bool) zygo.Sexp {
	return &zygo.SexpFloat{Val: f, Scientific: sci}
}
func zStr(s string) zygo.Sexp { return &zygo.SexpStr{S: s} }
func zChr(r rune) zygo.Sexp   { return &zygo.SexpChar{Val: r} }
func zBool(b bool) zygo.Sexp  { return &zygo.SexpBool{Val: b} }
func zSym(s string) zygo.Sexp { return penv().MakeSymbol(s) }
func zArr(xs ...zygo.Sexp) zygo.Sexp {
	return &zygo.SexpArray{Val: xs, Env: penv()}
}
func zDot(tail zygo.Sexp, xs ...zygo.Sexp) zygo.Sexp {
	for i := len(xs) - 1; i >= 0; i-- {
		tail = zygo.Cons(xs[i], tail)
	}
	return tail
}
func zList(xs ...zygo.Sexp) zygo.Sexp { return zDot(zygo.SexpNull, xs...) }

// zBack is the raw string literal `s`.
func zBack(s string) zygo.Sexp {
	p := penv().NewParser()
	p.ResetAddNewInput(strings.NewReader("`" + s + "`"))
	xs, err := p.ParseTokens()
	if err != nil || len(xs) != 1 {
		return zStr(s)
	}
	return xs[0]
}

func zHash(kv ...zygo.Sexp) zygo.Sexp {
	h, err := zygo.MakeHash(kv, "hash", penv())
	if err != nil {
		panic(err)
	}
	return h
}

func readText(t string) (xs []zygo.Sexp, err error) {
	p := penv().NewParser()
	defer p.Stop()
	p.ResetAddNewInput(strings.NewReader(t))
	return p.ParseTokens()
}

// readBack checks that v's printed form reads back as v.
func readBack(v zygo.Sexp, r *Rec) bool {
	want := Dump(v)
	t := v.SexpString(nil)
	var got string
	xs, err := readText(t)
	switch {
	case err != nil:
		got = "error " + err.Error()
	case len(xs) != 1:
		got = fmt.Sprintf("%d expressions: %s", len(xs), pdumpList(xs))
	default:
		got = Dump(xs[0])
	}
	r.Validated++
	if got != want {
		r.Violate("printed data reads back differently", fmt.Sprintf("%.200s", t), fmt.Sprintf("value   %s\nprinted %s\nread    %s", want, t, got))
		return false
	}
	return true
}

// evenv is the interpreter values are made in, so that symbols agree.
func evenv() *zygo.Zlisp { return penv() }

// evalBack checks that v's printed form evaluates to v.
func evalBack(v zygo.Sexp, r *Rec) bool {
	want := Dump(v)
	t := v.SexpString(nil)
	o := guard(20000, func() (zygo.Sexp, error) { return evenv().EvalString(t) })
	r.Validated++
	if o.Kind != "val" || o.S != want {
		evenv().Clear()
		r.Violate("printed data evaluates to something else", fmt.Sprintf("%.200s", t), fmt.Sprintf("value   %s\nprinted %s\nevaluated %s", want, t, o))
		return false
	}
	return true
}

// langBack: the same through the language's own functions.
func langBack(v zygo.Sexp, r *Rec) bool {
	env := evenv()
	env.AddGlobal("vv", v)
	o := guard(20000, func() (zygo.Sexp, error) { return env.EvalString("(== vv (read (str vv)))") })
	r.Validated++
	if o.S != "true" {
		env.Clear()
		r.Violate("(== v (read (str v))) is not true", fmt.Sprintf("%.200s", v.SexpString(nil)), fmt.Sprintf("value %s\n%s", Dump(v), o))
		return false
	}
	return true
}

// scalarBack: a scalar alone and in every container.
func scalarBack(v zygo.Sexp, json bool, r *Rec) {
	a := zInt(7)
	for _, d := range []zygo.Sexp{v, zArr(v), zList(v), zList(zSym("quote"), v), zArr(a, v), zArr(v, a), zList(v, a), zDot(v, a), zArr(zArr(v), zList(v, v)), zList(zArr(v, v), v)} {
		if !readBack(d, r) {
			return
		}
	}
	if f, ok := v.(*zygo.SexpFloat); !ok || !math.IsNaN(f.Val) {
		if !langBack(v, r) || !langBack(zArr(v, zList(v)), r) {
			return
		}
	}
	if json {
		k, s := zSym("k"), zStr("s t")
		for _, d := range []zygo.Sexp{v, zArr(v), zArr(v, v), zHash(k, v), zHash(s, v), zHash(k, v, s, v), zArr(zHash(k, v), v), zHash(k, zHash(s, v), s, zArr(v))} {
			if !evalBack(d, r) {
				return
			}
		}
	}
}

// --- integers and floats ---

func c12Ints() (out []int64) {
	seen := map[int64]bool{}
	add := func(b *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			for _, s := range []int64{1, -1} {
				n := new(big.Int).Add(b, big.NewInt(d))
				n.Mul(n, big.NewInt(s))
				if n.IsInt64() && !seen[n.Int64()] {
					seen[n.Int64()] = true
					out = append(out, n.Int64())
				}
			}
		}
	}
	for k := uint(0); k <= 63; k++ {
		add(new(big.Int).Lsh(big.NewInt(1), k))
	}
	for k := int64(0); k <= 19; k++ {
		add(new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil))
	}
	return
}

func intSpace() *Space {
	is := c12Ints()
	n := uint64(len(is))
	return &Space{Name: "integers", Size: 2 * n,
		Bound: fmt.Sprintf("%d integers next to every power of two and of ten, as int64 and as uint64; alone and in 9 containers read back, in 8 evaluated", n),
		Desc:  func(i uint64) string { return fmt.Sprint(is[i/2]) },
		Run: func(i uint64, r *Rec) {
			if i%2 == 0 {
				scalarBack(zInt(is[i/2]), true, r)
			} else {
				scalarBack(zUint(uint64(is[i/2])), true, r)
			}
		}}
}

func c12Mants(thorough bool) []uint64 {
	ms := []uint64{0, 1, 2, 3, 1<<52 - 1, 1<<52 - 2, 1 << 51, 1<<51 - 1, 1<<51 + 1, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x8000000000001, 0x999999999999a, 0x3333333333333, 0x123456789abcd, 0xfedcba9876543}
	if thorough {
		for k := uint(0); k < 52; k++ {
			ms = append(ms, 1<<k, 1<<52-1-1<<k, 1<<k|1)
		}
	}
	return ms
}

func fltSpace(thorough bool) *Space {
	ms := c12Mants(thorough)
	nm := uint64(len(ms))
	at := func(i uint64) (float64, bool) {
		sci := i%2 == 1
		i /= 2
		sign := i % 2
		i /= 2
		m := ms[i%nm]
		e := i / nm
		return math.Float64frombits(sign<<63 | e<<52 | m), sci
	}
	return &Space{Name: "floats", Size: 2048 * nm * 4,
		Bound: fmt.Sprintf("floats of every exponent and sign x %d mantissas, as made by arithmetic and by exponent literals; alone and in 9 containers read back, in 8 evaluated", nm),
		Desc:  func(i uint64) string { f, _ := at(i); return fmt.Sprint(f) },
		Run: func(i uint64, r *Rec) {
			f, sci := at(i)
			if math.IsNaN(f) {
				f = math.NaN()
			}
			if thorough || i%8 < 2 || f == math.Trunc(f) {
				scalarBack(zFlt(f, sci), true, r)
			} else {
				readBack(zArr(zFlt(f, sci), zFlt(f, sci)), r)
				evalBack(zArr(zFlt(f, sci), zFlt(f, sci)), r)
			}
		}}
}

func decSpace() *Space {
	return &Space{Name: "decimal-floats", Size: 700 * 40,
		Bound: "floats m*10^e for 40 m and every e from -350 to 349, and their neighbours",
		Run: func(i uint64, r *Rec) {
			e := int(i/40) - 350
			ms := []string{"1", "2", "3", "5", "9", "1.1", "1.5", "9.9", "1.0000000000000002", "123456789", "12345678901234567", "9007199254740993", "0.1", "0.3", "999999.5", "1.7976931348623157", "4.9406564584124654", "2.2250738585072014", "6.02214076", "8.5"}
			m := ms[i%20]
			f, err := strconv.ParseFloat(fmt.Sprintf("%se%d", m, e), 64)
			if err != nil {
				return
			}
			if i%40 >= 20 {
				f = -f
			}
			for _, g := range []float64{f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1))} {
				readBack(zList(zFlt(g, false), zFlt(g, true), zFlt(g, false)), r)
				evalBack(zHash(zSym("a"), zFlt(g, false), zStr("b"), zFlt(g, true)), r)
			}
		}}
}

// --- characters and strings ---

func runeSpace() *Space {
	return &Space{Name: "runes", Size: 0x110000, Chunk: 4096,
		Bound: "every Unicode character: as a character and in strings printed and read back (evaluated, as hash key and value, too), as the contents of a character, string and raw string literal",
		Desc:  func(i uint64) string { return fmt.Sprintf("%U", i) },
		Run: func(i uint64, r *Rec) {
			c := rune(i)
			if c >= 0xd800 && c <= 0xdfff {
				return
			}
			s := string(c)
			readBack(zList(zChr(c), zStr(s), zArr(zChr(c), zStr("x"+s+"y"))), r)
			evalBack(zHash(zStr(s), zStr(s+s), zStr("a"+s), zArr(zStr(s))), r)
			// literals
			lit := func(t, want string) {
				xs, err := readText(t)
				got := "error"
				if err == nil {
					got = pdumpList(xs)
				}
				r.Validated++
				if got != want+"\n" {
					r.Violate("a literal does not denote what is written", t, fmt.Sprintf("expected %s\ngot %s %v", want, got, err))
				}
			}
			if c != '\\' && c != '\'' {
				lit("'"+s+"'", fmt.Sprintf("c:%d", c))
			}
			if c != '\\' && c != '"' {
				lit("\""+s+"\"", strconv.QuoteToASCII(s))
				lit("\"a"+s+"b\"", strconv.QuoteToASCII("a"+s+"b"))
			}
			if c != '`' {
				lit("`"+s+"`", "`"+strconv.QuoteToASCII(s))
			}
			if i%65536 < 300 {
				scalarBack(zStr("p"+s), true, r)
				scalarBack(zChr(c), false, r)
			}
		}}
}

var c12Runes = []rune("\"\\'`\n\t\r\x00\x07\x1b\x7fé世😀;/:{}()%x0u n#,\u200b\u2028\ufeff\ufffd")

func strRoundSpace(n int) *Space {
	k := uint64(len(c12Runes))
	size := uint64(1)
	for i := 0; i < n; i++ {
		size *= k
	}
	text := func(i uint64) string {
		var rs []rune
		for j := 0; j < n; j++ {
			rs = append(rs, c12Runes[i%k])
			i /= k
		}
		return string(rs)
	}
	return &Space{Name: fmt.Sprintf("strings-%d", n), Size: size,
		Bound: fmt.Sprintf("all strings of %d characters over %d that need care (quotes, backslashes, controls, comment starts, brackets, colons, non-ASCII), as plain and raw strings, values and keys", n, k),
		Desc:  func(i uint64) string { return strconv.Quote(text(i)) },
		Run: func(i uint64, r *Rec) {
			s := text(i)
			if n <= 2 {
				scalarBack(zStr(s), true, r)
				if !strings.Contains(s, "`") {
					scalarBack(zBack(s), true, r)
				}
			}
			readBack(zList(zStr(s), zStr(s), zInt(1)), r)
			evalBack(zHash(zStr(s), zStr(s), zSym("k"), zArr(zStr(s))), r)
			if !strings.Contains(s, "`") {
				b := zBack(s)
				readBack(zArr(b, b), r)
				evalBack(zHash(b, b), r)
			}
		}}
}

// escapes in string and character literals
func escSpace() *Space {
	type esc struct {
		t string
		r rune // -1: must not be read as anything (or as an error)
	}
	var es []esc
	std := map[rune]rune{'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': '\\', '"': '"', '\'': '\'', '#': '#'}
	for c := rune(33); c < 127; c++ {
		v, ok := std[c]
		if !ok {
			v = -1
		}
		if c != 'x' && c != 'u' && c != 'U' {
			es = append(es, esc{"\\" + string(c), v})
		}
	}
	for v := rune(0); v < 0x80; v++ {
		es = append(es, esc{fmt.Sprintf("\\x%02x", v), v}, esc{fmt.Sprintf("\\x%02X", v), v})
	}
	for _, v := range []rune{0, 1, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x2028, 0x4e16, 0xfffd, 0xffff, 0xd7ff, 0xe000} {
		es = append(es, esc{fmt.Sprintf("\\u%04x", v), v}, esc{fmt.Sprintf("\\u%04X", v), v}, esc{fmt.Sprintf("\\U%08x", v), v})
	}
	for _, v := range []rune{0x10000, 0x1f600, 0x10ffff} {
		es = append(es, esc{fmt.Sprintf("\\U%08x", v), v})
	}
	for _, t := range []string{"\\x", "\\x1", "\\xg0", "\\x0g", "\\u12", "\\u12g4", "\\U0001f60", "\\U00110000", "\\ud800", "\\udfff", "\\Uffffffff"} {
		es = append(es, esc{t, -1})
	}
	return &Space{Name: "escapes", Size: uint64(len(es)),
		Bound: fmt.Sprintf("%d escape sequences in string and character literals: the rune of the Go escape of that name, or an error", len(es)),
		Desc:  func(i uint64) string { return es[i].t },
		Run: func(i uint64, r *Rec) {
			e := es[i]
			for k, t := range []string{"\"" + e.t + "\"", "\"a" + e.t + "z\"", "\"" + e.t + e.t + "\"", "'" + e.t + "'", "(x \"" + e.t + "\" '" + e.t + "')"} {
				s := string(e.r)
				want := []string{strconv.QuoteToASCII(s), strconv.QuoteToASCII("a" + s + "z"), strconv.QuoteToASCII(s + s), fmt.Sprintf("c:%d", e.r), fmt.Sprintf("('x %s c:%d)", strconv.QuoteToASCII(s), e.r)}[k]
				xs, err := readText(t)
				r.Validated++
				if e.r < 0 {
					if err == nil {
						r.Violate("an escape that means nothing is read as something", t, pdumpList(xs))
					}
					continue
				}
				if err != nil || pdumpList(xs) != want+"\n" {
					r.Violate("an escape does not denote its character", t, fmt.Sprintf("expected %s\ngot %s %v", want, pdumpList(xs), err))
				}
			}
		}}
}

// --- structures ---

var c12SymNames = []string{"a", "a.b", ".b", "x-y", "+", "-", "*", "/", "**", "<", ">=", "->", "++", "-=", "=", "==", ":=", ":", "!", "!=", "and", "#p", "?q", "$", "é", "quote", "e", "1+", "_", "&", "a/b", "if", "for", "hash", "infix", "-", "nan1", "x1e"}

func c12Scalars() []zygo.Sexp {
	out := []zygo.Sexp{
		zInt(0), zInt(-1), zInt(5), zInt(math.MaxInt64), zInt(math.MinInt64), zUint(0), zUint(math.MaxUint64),
		zFlt(0, false), zFlt(math.Copysign(0, -1), false), zFlt(3, false), zFlt(-2.5, false), zFlt(1e300, false), zFlt(1e-300, true), zFlt(-3e20, true), zFlt(math.Inf(1), false), zFlt(math.Inf(-1), false), zFlt(0.1, false), zFlt(5e-324, false),
		zBool(true), zBool(false), zygo.SexpNull,
		zChr('a'), zChr('\''), zChr('\\'), zChr('"'), zChr('\n'), zChr(0), zChr('é'), zChr(' '), zChr(':'),
		zStr(""), zStr("a"), zStr("\"\\"), zStr("é\n\x00"), zStr("// x"), zStr("`"), zBack("r\n\"\\"), zStr("a:"), zBack(""),
		zArr(), zList(zInt(1)), zArr(zInt(-1)), zDot(zInt(2), zInt(1)), zArr(zArr()), zList(zSym("quote"), zSym("a")),
	}
	return out
}

// readable symbols only
func c12Symbols() (out []zygo.Sexp) {
	for _, n := range c12SymNames {
		xs, err := readText(n)
		if err == nil && len(xs) == 1 {
			if s, ok := xs[0].(*zygo.SexpSymbol); ok && s.Name() == n {
				out = append(out, xs[0])
			}
		}
	}
	return
}

func structSpace(n int) *Space {
	vs := append(c12Scalars(), c12Symbols()...)
	k := uint64(len(vs))
	size := uint64(6)
	for i := 0; i < n; i++ {
		size *= k
	}
	at := func(i uint64) zygo.Sexp {
		shape := i % 6
		i /= 6
		var xs []zygo.Sexp
		for j := 0; j < n; j++ {
			xs = append(xs, vs[i%k])
			i /= k
		}
		switch shape {
		case 0:
			return zList(xs...)
		case 1:
			return zArr(xs...)
		case 2:
			if n == 1 {
				return zArr(zArr(xs[0]), zList(xs[0]))
			}
			return zDot(xs[n-1], xs[:n-1]...)
		case 3:
			return zList(zArr(xs...), zList(xs...))
		case 4:
			return zArr(zList(xs...), zArr(xs...), zInt(3))
		default:
			return zArr(zInt(1), zList(append([]zygo.Sexp{zSym("f")}, xs...)...), zDot(zSym("t"), xs...))
		}
	}
	return &Space{Name: fmt.Sprintf("structures-%d", n), Size: size,
		Bound: fmt.Sprintf("6 nested list, array and dotted shapes around all sequences of %d of %d values and symbols", n, k),
		Desc:  func(i uint64) string { return Dump(at(i)) },
		Run: func(i uint64, r *Rec) {
			v := at(i)
			if readBack(v, r) && n <= 2 {
				if s := Dump(v); !strings.Contains(s, "NaN") && !strings.Contains(s, "'a.b") && !strings.Contains(s, "'.b") { // == looks up dotted symbols
					langBack(v, r)
				}
			}
			if i%49999 == 5 {
				r.Sample(v.SexpString(nil))
			}
		}}
}

// deepSpace: the same shapes nested deeply
func deepSpace(depths []int) *Space {
	leaves := []zygo.Sexp{zInt(1), zFlt(2, false), zStr("\"(["), zSym("a"), zygo.SexpNull, zChr(')')}
	kinds := uint64(6)
	return &Space{Name: "deep-nesting", Size: uint64(len(depths)) * kinds * uint64(len(leaves)),
		Bound: fmt.Sprintf("6 kinds of nests around %d leaves at depths %v", len(leaves), depths),
		Desc:  func(i uint64) string { return fmt.Sprintf("kind %d depth %d", i%kinds, depths[i/kinds/uint64(len(leaves))]) },
		Run: func(i uint64, r *Rec) {
			kind := i % kinds
			i /= kinds
			leaf := leaves[i%uint64(len(leaves))]
			d := depths[i/uint64(len(leaves))]
			v := leaf
			for k := 0; k < d; k++ {
				switch kind {
				case 0:
					v = zList(v)
				case 1:
					v = zArr(v)
				case 2:
					v = zDot(leaf, v)
				case 3:
					v = []zygo.Sexp{zArr(leaf, v), zList(v, leaf)}[k%2]
				case 4:
					v = zArr(v, leaf)
				case 5:
					v = zHash(zStr("k"), v)
				}
			}
			_, isSym := leaf.(*zygo.SexpSymbol)
			if kind != 5 {
				readBack(v, r)
			}
			if (kind == 1 || kind == 4 || kind == 5) && !isSym {
				if _, isChr := leaf.(*zygo.SexpChar); !isChr {
					evalBack(v, r)
				}
			}
		}}
}

// JSON-like values: every nest of arrays and hashes over scalars up to a depth
func jsonValues(depth int, leaves []zygo.Sexp) []zygo.Sexp {
	if depth == 0 {
		return leaves
	}
	sub := jsonValues(depth-1, leaves)
	out := append([]zygo.Sexp{}, leaves...)
	out = append(out, zArr(), zHash())
	for _, a := range sub {
		out = append(out, zArr(a), zHash(zSym("k"), a), zHash(zStr("s \"\\"), a))
	}
	return out
}

func jsonSpace(thorough bool) *Space {
	leaves := []zygo.Sexp{zInt(-1), zInt(math.MinInt64), zFlt(3, false), zFlt(-1e300, false), zFlt(math.Inf(-1), false), zBool(true), zygo.SexpNull, zStr(""), zStr("a:\"\\\n"), zBack("r\""), zStr("{x")}
	d := 1
	if thorough {
		d = 2
	}
	vs := jsonValues(d, leaves)
	k := uint64(len(vs))
	return &Space{Name: "json-like", Size: k * k * 4,
		Bound: fmt.Sprintf("arrays and hashes (symbol and string keys, plain, pretty) of all pairs of %d values nested to depth %d: printed and evaluated, printed and sourced", k, d),
		Desc:  func(i uint64) string { return Dump(zArr(vs[i/4%k], vs[i/4/k])) },
		Run: func(i uint64, r *Rec) {
			a, b := vs[i/4%k], vs[i/4/k]
			var v zygo.Sexp
			switch i % 4 {
			case 0:
				v = zArr(a, b)
			case 1:
				v = zHash(zSym("p"), a, zSym("q"), b)
			case 2:
				v = zHash(zStr("p q"), a, zSym("for"), b)
			default:
				v = zHash(zStr(""), zArr(b, a), zStr("x"), zHash(zSym("z"), a, zSym("y"), b))
			}
			if !evalBack(v, r) {
				return
			}
			penv().Pretty = true
			defer func() { penv().Pretty = false }()
			evalBack(v, r)
		}}
}

// saved to a file and sourced again
func saveSpace() *Space {
	leaves := []zygo.Sexp{zInt(-1), zFlt(3, false), zFlt(1e300, false), zBool(true), zygo.SexpNull, zStr("a:\"\\\n"), zBack("r\""), zStr("é")}
	vs := jsonValues(2, leaves)
	n := uint64(len(vs))
	return &Space{Name: "save-and-source", Size: n,
		Bound: fmt.Sprintf("%d hashes nested to depth 3 written by save or writef and read by source", n),
		Desc:  func(i uint64) string { return Dump(vs[i]) },
		Run: func(i uint64, r *Rec) {
			v := zHash(zSym("d"), vs[i], zStr("e f"), vs[(i+1)%n])
			env := NewStd()
			f := fmt.Sprintf("%s/save%d", scratch(), i)
			defer os.Remove(f)
			env.AddGlobal("vv", v)
			fn := []string{"save", "writef", "owritef"}[i%3]
			o := Eval(env, fmt.Sprintf("(%s vv %q)", fn, f))
			if o.Kind != "val" {
				r.Violate("saving fails", Dump(v), o.String())
				return
			}
			r.Validated++
			o = Eval(env, fmt.Sprintf("(source %q)", f))
			if o.S != Dump(v) {
				b, _ := os.ReadFile(f)
				r.Violate("saved data is sourced as something else", Dump(v), fmt.Sprintf("value %s\nfile %q\nsourced %s", Dump(v), b, o))
			}
		}}
}

// --- numeric literals ---

// litValue is an independent reading of numeric literals: the Dump of the
// number, "" when s is not a literal, "error" when its value has no
// representation.
func litValue(s string) string {
	dig := func(c byte, base int) int {
		v := -1
		switch {
		case c >= '0' && c <= '9':
			v = int(c - '0')
		case c >= 'a' && c <= 'f':
			v = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			v = int(c-'A') + 10
		}
		if v >= base {
			return -1
		}
		return v
	}
	number := func(t string, base int, under bool) *big.Int {
		if t == "" || dig(t[0], base) < 0 {
			return nil
		}
		n := new(big.Int)
		for i := 0; i < len(t); i++ {
			if t[i] == '_' && under {
				continue
			}
			d := dig(t[i], base)
			if d < 0 {
				return nil
			}
			n.Mul(n, big.NewInt(int64(base)))
			n.Add(n, big.NewInt(int64(d)))
		}
		return n
	}
	neg := strings.HasPrefix(s, "-")
	t := strings.TrimPrefix(s, "-")
	base, body := 10, t
	if len(t) > 2 && t[0] == '0' {
		switch t[1] {
		case 'x':
			base, body = 16, t[2:]
		case 'o':
			base, body = 8, t[2:]
		case 'b':
			base, body = 2, t[2:]
		}
	}
	switch s {
	case "Inf", "inf", "+Inf", "+inf":
		return "f:+Inf"
	case "-Inf", "-inf":
		return "f:-Inf"
	case "NaN", "nan":
		return "f:NaN"
	}
	if strings.HasSuffix(body, "ULL") && !neg && base != 2 {
		n := number(strings.TrimSuffix(body, "ULL"), base, false)
		if n == nil {
			return ""
		}
		if !n.IsUint64() {
			return "error"
		}
		return n.String() + "u"
	}
	if n := number(body, base, base == 10); n != nil {
		if neg {
			n.Neg(n)
		}
		if !n.IsInt64() {
			return "error"
		}
		return n.String()
	}
	if base != 10 {
		return ""
	}
	// floats: D[.D][e[+-]D], at least one digit before or after the point, and
	// a point or an exponent
	var i int
	run := func() string {
		a := i
		for i < len(t) && (t[i] >= '0' && t[i] <= '9' || t[i] == '_' && i > a) {
			i++
		}
		return strings.ReplaceAll(t[a:i], "_", "")
	}
	whole := run()
	frac, exp := "", ""
	point := false
	if i < len(t) && t[i] == '.' {
		point = true
		i++
		if whole != "" {
			a := i
			for i < len(t) && (t[i] >= '0' && t[i] <= '9' || t[i] == '_') {
				i++
			}
			frac = strings.ReplaceAll(t[a:i], "_", "")
		} else {
			frac = run()
		}
	}
	if whole == "" && frac == "" {
		return ""
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		a := i
		if i < len(t) && (t[i] == '+' || t[i] == '-') {
			i++
		}
		sign := t[a:i]
		d := run()
		if d == "" {
			return ""
		}
		exp = sign + d
	} else if !point {
		return ""
	}
	if i != len(t) {
		return ""
	}
	// exact value, rounded once
	e := 0
	if exp != "" {
		x, ok := new(big.Int).SetString(strings.TrimPrefix(exp, "+"), 10)
		if !ok {
			return ""
		}
		if x.BitLen() > 20 {
			if x.Sign() < 0 || strings.Trim(whole+frac, "0") == "" {
				return fmtF(0, neg)
			}
			return "error"
		}
		e = int(x.Int64())
	}
	m, _ := new(big.Int).SetString(whole+frac, 10)
	e -= len(frac)
	rat := new(big.Rat).SetInt(m)
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(e, -e))), nil))
	if e >= 0 {
		rat.Mul(rat, p)
	} else {
		rat.Quo(rat, p)
	}
	f, _ := rat.Float64()
	if math.IsInf(f, 0) {
		return "error"
	}
	return fmtF(f, neg)
}

func fmtF(f float64, neg bool) string {
	if neg {
		f = math.Copysign(f, -1)
	}
	return Dump(zFlt(f, false))
}

// checkLit: what a spelling reads as, alone and in context.
func checkLit(s string, r *Rec) {
	want := litValue(s)
	r.Validated++
	ctxs := []string{"%s", "(a %s)", "(%s)", "[%s]", "[1 %s 2]", "[1,%s,2]", "%s\n", " %s", "(a\n%s\n)", "{a:%s}", "/* c */%s", "(x \\ %s)"}
	for k, c := range ctxs {
		t := fmt.Sprintf(c, s)
		xs, err := readText(t)
		got := "error"
		if err == nil {
			got = strings.TrimSuffix(pdumpList(xs), "\n")
			got = strings.ReplaceAll(got, "ef:", "f:") // as written with an exponent
			if len(xs) == 1 && k == 0 {
				if v, ok := xs[0].(*zygo.SexpFloat); ok {
					got = Dump(v)
				}
			}
		}
		w := want
		if want == "" {
			if k > 0 {
				return
			}
			// not a literal: it must not be taken for a number
			if err == nil && len(xs) == 1 {
				switch xs[0].(type) {
				case *zygo.SexpInt, *zygo.SexpUint64, *zygo.SexpFloat:
					r.Violate("a text that is not a numeric literal is read as a number", t, got)
				case *zygo.SexpSymbol:
					c := strings.TrimPrefix(strings.TrimPrefix(s, "-"), ".")
					if c != "" && c[0] >= '0' && c[0] <= '9' && !strings.ContainsAny(c, "+") {
						r.Violate("a malformed number is read as a symbol", t, got)
					}
				}
			}
			return
		}
		if want != "error" {
			w = []string{want, "('a " + want + ")", "(" + want + ")", "[" + want + "]", "[1 " + want + " 2]", "[1 <comma> " + want + " <comma> 2]", want, want, "('a " + want + ")", "('hash 'a<colon> " + want + ")", "<comment true \"/* c */\">\n" + want, "('x . " + want + ")"}[k]
			w = strings.ReplaceAll(w, " <comma>", "")
		}
		if got != w {
			r.Violate("a numeric literal does not denote its value", t, fmt.Sprintf("expected %s\ngot %s %v", w, got, err))
			return
		}
	}
}

var c12LitTokens = []string{"0", "1", "7", "9", "a", "f", "x", "o", "b", "e", "E", ".", "_", "-", "+", "ULL", "Inf"}

func litSpace(n int) *Space {
	k := uint64(len(c12LitTokens))
	size := uint64(1)
	for i := 0; i < n; i++ {
		size *= k
	}
	text := func(i uint64) string {
		var b strings.Builder
		for j := 0; j < n; j++ {
			b.WriteString(c12LitTokens[i%k])
			i /= k
		}
		return b.String()
	}
	return &Space{Name: fmt.Sprintf("literals-%d", n), Size: size,
		Bound: fmt.Sprintf("all texts of %d of %q, read alone and in 11 contexts; numbers compared with their exact value", n, c12LitTokens),
		Desc:  text,
		Run: func(i uint64, r *Rec) {
			checkLit(text(i), r)
		}}
}

// boundary values in every notation
func boundSpace() *Space {
	seen := map[string]bool{}
	var ls []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			ls = append(ls, s)
		}
	}
	for k := uint(0); k <= 66; k++ {
		for d := int64(-2); d <= 2; d++ {
			n := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(d))
			if n.Sign() < 0 {
				continue
			}
			dec := n.String()
			und := ""
			for i, c := range dec {
				if i > 0 && (len(dec)-i)%3 == 0 {
					und += "_"
				}
				und += string(c)
			}
			for _, s := range []string{dec, und, "0" + dec, "0x" + n.Text(16), "0x" + strings.ToUpper(n.Text(16)), "0x0" + n.Text(16), "0o" + n.Text(8), "0b" + n.Text(2), dec + ".", dec + ".0", dec + "e0", dec + ".5", und + ".25", und + ".2_5e1_0", "." + dec, dec + "e-3", dec + "E+12"} {
				add(s)
				add("-" + s)
			}
			for _, s := range []string{dec, "0x" + n.Text(16), "0o" + n.Text(8)} {
				add(s + "ULL")
			}
		}
	}
	for e := -345; e <= 320; e++ {
		for _, m := range []string{"1", "9.999999999999999999", "1.7976931348623157", "1.7976931348623159", "4.94065645841246544", "2.4703282292062328", "2.4703282292062327", "2.2250738585072011", "1.00000000000000011102230246251565", "9007199254740993", "0.000123", "123_456.789_012", ".5", "5."} {
			add(fmt.Sprintf("%se%d", m, e))
			add(fmt.Sprintf("-%sE%+d", m, e))
		}
	}
	return &Space{Name: "literal-boundaries", Size: uint64(len(ls)),
		Bound: fmt.Sprintf("%d spellings: every power of two to 2^66 and its neighbours in every notation and sign, floats at every exponent with halfway and extreme mantissas", len(ls)),
		Desc:  func(i uint64) string { return ls[i] },
		Run:   func(i uint64, r *Rec) { checkLit(ls[i], r) }}
}

func init() {
	register(&PropDef{ID: "C12", Assume: []string{
		"strings are valid UTF-8; symbols are those a text can write",
		"NaN is compared by its printed form",
	}, Spaces: func(tier string) []*Space {
		th := tier == "thorough"
		ds := []int{3, 4, 5, 8, 16, 33, 64}
		if th {
			ds = append(ds, 100, 200, 400)
		}
		out := []*Space{intSpace(), litSpace(1), litSpace(2), litSpace(3), litSpace(4), boundSpace(), escSpace(), strRoundSpace(1), strRoundSpace(2), structSpace(1), structSpace(2), deepSpace(ds), jsonSpace(th), saveSpace(), decSpace(), fltSpace(th), runeSpace(), strRoundSpace(3), litSpace(5)}
		if th {
			out = append(out, strRoundSpace(4), litSpace(6), structSpace(3))
		}
		_ = utf8.RuneError
		return out
	}})
}
