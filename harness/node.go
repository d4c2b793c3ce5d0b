package main

import (
	"math"
	"strconv"
	"strings"
)

// N is the harness's own s-expression: programs are built from it, rendered to
// source text for the implementation and interpreted directly by the reference
// evaluator.
type NK int

const (
	NInt NK = iota
	NFloat
	NStr
	NChar
	NSym
	NBool
	NNil
	NList
	NArr
	NRaw // verbatim source text, never interpreted by the reference evaluator
)

type N struct {
	K NK
	I int64
	F float64
	S string
	L []*N
}

func I(v int64) *N    { return &N{K: NInt, I: v} }
func Fl(v float64) *N { return &N{K: NFloat, F: v} }
func St(s string) *N  { return &N{K: NStr, S: s} }
func Sy(s string) *N  { return &N{K: NSym, S: s} }
func Bo(b bool) *N {
	n := &N{K: NBool}
	if b {
		n.I = 1
	}
	return n
}
func Nil() *N         { return &N{K: NNil} }
func Li(l ...*N) *N   { return &N{K: NList, L: l} }
func Ar(l ...*N) *N   { return &N{K: NArr, L: l} }
func Raw(s string) *N { return &N{K: NRaw, S: s} }
func Ch(r rune) *N    { return &N{K: NChar, I: int64(r)} }
func Call(f string, a ...*N) *N {
	return &N{K: NList, L: append([]*N{Sy(f)}, a...)}
}

func (n *N) String() string {
	var b strings.Builder
	n.render(&b)
	return b.String()
}

func (n *N) render(b *strings.Builder) {
	switch n.K {
	case NInt:
		b.WriteString(strconv.FormatInt(n.I, 10))
	case NFloat:
		b.WriteString(fmtFloat(n.F))
	case NStr:
		b.WriteString(`"` + n.S + `"`)
	case NChar:
		b.WriteString("'" + string(rune(n.I)) + "'")
	case NSym, NRaw:
		b.WriteString(n.S)
	case NBool:
		if n.I != 0 {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case NNil:
		b.WriteString("nil")
	case NList, NArr:
		o, c := byte('('), byte(')')
		if n.K == NArr {
			o, c = '[', ']'
		}
		b.WriteByte(o)
		for i, k := range n.L {
			if i > 0 {
				b.WriteByte(' ')
			}
			k.render(b)
		}
		b.WriteByte(c)
	}
}

func fmtFloat(f float64) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	if math.IsInf(f, 1) {
		return "Inf"
	}
	if math.IsInf(f, -1) {
		return "-Inf"
	}
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	return s
}

// Text renders a sequence of top-level forms.
func Text(forms ...*N) string {
	var b strings.Builder
	for i, f := range forms {
		if i > 0 {
			b.WriteByte('\n')
		}
		f.render(&b)
	}
	b.WriteByte('\n')
	return b.String()
}
