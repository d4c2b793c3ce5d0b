package main

import (
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

func stepsNow() uint64 { return uint64(zygo.VerifSteps) }

// Out is the observable outcome of one evaluation.
type Out struct {
	Kind string // "val", "err", "panic", "steps"
	V    zygo.Sexp
	S    string // dump of the value, or error text, or panic text
}

func (o Out) String() string { return o.Kind + ":" + o.S }

// Class drops the text of errors.
func (o Out) Class() string {
	if o.Kind == "val" {
		return o.Kind + ":" + o.S
	}
	return o.Kind
}

func panicHead(p any, st []byte) string {
	var fr []string
	for _, l := range strings.Split(string(st), "\n") {
		if strings.Contains(l, "zygo.") && strings.Contains(l, "zygomys") && !strings.HasPrefix(l, "\t") {
			k := strings.LastIndexByte(l, '/')
			fn := l[k+1:]
			if q := strings.IndexByte(fn, '('); q > 0 && !strings.HasPrefix(fn[q:], "(*") {
				fn = fn[:q]
			} else if q := strings.LastIndexByte(fn, '('); q > 0 {
				fn = fn[:q]
			}
			if strings.Contains(fn, "panicOn") {
				continue
			}
			fr = append(fr, fn)
			if len(fr) >= 3 {
				break
			}
		}
	}
	return fmt.Sprintf("%v [%s]", p, strings.Join(fr, " < "))
}

// guard runs f under a step budget, turning a panic into an outcome.
func guard(budget int64, f func() (zygo.Sexp, error)) (o Out) {
	zygo.VerifBudget = zygo.VerifSteps + budget
	defer func() {
		spent := zygo.VerifSteps > zygo.VerifBudget
		zygo.VerifBudget = 0
		if p := recover(); p != nil {
			o = Out{Kind: "panic", S: panicHead(p, debug.Stack())}
			return
		}
		if spent {
			o = Out{Kind: "steps"}
		}
	}()
	v, err := f()
	if err != nil {
		return Out{Kind: "err", S: err.Error()}
	}
	return Out{Kind: "val", V: v, S: Dump(v)}
}

const defBudget = 200000

func Eval(env *zygo.Zlisp, src string) Out {
	return guard(defBudget, func() (zygo.Sexp, error) { return env.EvalString(src) })
}

func EvalB(env *zygo.Zlisp, src string, budget int64) Out {
	return guard(budget, func() (zygo.Sexp, error) { return env.EvalString(src) })
}

// NewStd is a full interpreter with the standard setup.
func NewStd() *zygo.Zlisp {
	e := zygo.NewZlisp()
	e.StandardSetup()
	return e
}

// NewBare has the builtin functions and the minimal builders only (fast).
func NewBare() *zygo.Zlisp {
	return zygo.NewZlisp()
}

// Tracer registers the host functions used to observe effects:
// (t x) records x and returns it.
type Tracer struct {
	Log []string
	N   int
}

func (t *Tracer) Install(env *zygo.Zlisp) {
	env.AddFunction("t", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		t.N++
		var s []string
		for _, a := range args {
			s = append(s, Dump(a))
		}
		if len(t.Log) < 4000 {
			t.Log = append(t.Log, strings.Join(s, ","))
		}
		if len(args) == 0 {
			return zygo.SexpNull, nil
		}
		return args[0], nil
	})
}

func (t *Tracer) String() string { return strings.Join(t.Log, " ") }

// dumpMax is the length at which Dump stops.
var dumpMax = 1 << 20

// Dump is the canonical text of a value: types are visible, floats exact.
func Dump(v zygo.Sexp) string {
	var b strings.Builder
	dump(&b, v, 0)
	return b.String()
}

func dump(b *strings.Builder, v zygo.Sexp, depth int) {
	if depth > 200 || b.Len() > dumpMax {
		b.WriteString("...")
		return
	}
	switch x := v.(type) {
	case nil:
		b.WriteString("<go-nil>")
	case *zygo.SexpInt:
		b.WriteString(strconv.FormatInt(x.Val, 10))
	case *zygo.SexpUint64:
		b.WriteString(strconv.FormatUint(x.Val, 10) + "u")
	case *zygo.SexpFloat:
		if math.IsNaN(x.Val) {
			b.WriteString("f:NaN")
		} else {
			b.WriteString("f:" + strconv.FormatFloat(x.Val, 'g', -1, 64))
		}
	case *zygo.SexpStr:
		b.WriteString(strconv.QuoteToASCII(x.S))
	case *zygo.SexpChar:
		b.WriteString("c:" + strconv.FormatInt(int64(x.Val), 10))
	case *zygo.SexpSymbol:
		b.WriteString("'" + x.Name())
	case *zygo.SexpBool:
		b.WriteString(strconv.FormatBool(x.Val))
	case *zygo.SexpPair:
		b.WriteByte('(')
		var cur zygo.Sexp = x
		n := 0
		for {
			p, ok := cur.(*zygo.SexpPair)
			if !ok {
				break
			}
			if n > 0 {
				b.WriteByte(' ')
			}
			if n > 5000 {
				b.WriteString("...")
				break
			}
			dump(b, p.Head, depth+1)
			cur = p.Tail
			n++
		}
		if cur != zygo.SexpNull {
			b.WriteString(" . ")
			dump(b, cur, depth+1)
		}
		b.WriteByte(')')
	case *zygo.SexpArray:
		b.WriteByte('[')
		for i, e := range x.Val {
			if i > 0 {
				b.WriteByte(' ')
			}
			dump(b, e, depth+1)
		}
		b.WriteByte(']')
	case *zygo.SexpHash:
		b.WriteString("{" + x.TypeName)
		for _, k := range x.KeyOrder {
			b.WriteByte(' ')
			dump(b, k, depth+1)
			b.WriteByte(':')
			val, err := x.HashGet(nil, k)
			if err != nil {
				b.WriteString("<gone>")
			} else {
				dump(b, val, depth+1)
			}
		}
		b.WriteByte('}')
	case *zygo.SexpFunction:
		b.WriteString("fn")
	case *zygo.SexpSentinel:
		if v == zygo.SexpNull {
			b.WriteString("nil")
		} else {
			b.WriteString("<sentinel " + fmt.Sprint(x.Val) + ">")
		}
	case *zygo.SexpRaw:
		b.WriteString(fmt.Sprintf("raw%v", x.Val))
	case *zygo.SexpPointer:
		b.WriteString("ptr")
	case *zygo.SexpComment:
		b.WriteString("<comment>")
	case *zygo.SexpComma:
		b.WriteString("<comma>")
	case *zygo.SexpSemicolon:
		b.WriteString("<semi>")
	default:
		b.WriteString(fmt.Sprintf("<%T>", v))
	}
}

func tryMain(args []string) {
	src := ""
	std := true
	if len(args) > 0 && args[0] == "-b" {
		std = false
		args = args[1:]
	}
	var env *zygo.Zlisp
	if std {
		env = NewStd()
	} else {
		env = NewBare()
	}
	tr := &Tracer{}
	tr.Install(env)
	for _, a := range args {
		if a == "-e" {
			continue
		}
		src = a
		o := Eval(env, src)
		d, s, ad, l := env.VerifDepths()
		fmt.Fprintf(os.Stdout, "%s\n  => %s   trace=[%s] depths=%d,%d,%d,%d main=%d\n", src, o, tr, d, s, ad, l, env.VerifMainSize())
	}
}
