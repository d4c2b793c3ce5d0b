package main

import (
	"strconv"
	"strings"
)

// parseN reads the subset of the surface syntax that templates use:
// lists, arrays, integers, floats, strings, nil, true/false, symbols.
func parseN(s string) *N {
	p := &nparser{s: s}
	n := p.read()
	p.ws()
	if p.i != len(p.s) {
		panic("template: trailing text in " + s)
	}
	return n
}

func parseForms(s string) []*N {
	p := &nparser{s: s}
	var out []*N
	for {
		p.ws()
		if p.i >= len(p.s) {
			return out
		}
		out = append(out, p.read())
	}
}

type nparser struct {
	s string
	i int
}

func (p *nparser) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \n\t", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *nparser) read() *N {
	p.ws()
	if p.i >= len(p.s) {
		panic("template: unexpected end in " + p.s)
	}
	c := p.s[p.i]
	switch c {
	case '(', '[':
		p.i++
		n := &N{K: NList}
		e := byte(')')
		if c == '[' {
			n.K, e = NArr, ']'
		}
		for {
			p.ws()
			if p.i >= len(p.s) {
				panic("template: open bracket in " + p.s)
			}
			if p.s[p.i] == e {
				p.i++
				return n
			}
			n.L = append(n.L, p.read())
		}
	case '"':
		j := strings.IndexByte(p.s[p.i+1:], '"')
		v := p.s[p.i+1 : p.i+1+j]
		p.i += j + 2
		return St(v)
	case '\'':
		r := []rune(p.s[p.i+1:])
		p.i += len("'"+string(r[0])) + 1
		return Ch(r[0])
	}
	j := p.i
	for j < len(p.s) && strings.IndexByte(" \n\t()[]", p.s[j]) < 0 {
		j++
	}
	a := p.s[p.i:j]
	p.i = j
	if a == "" {
		panic("template: empty atom in " + p.s)
	}
	switch a {
	case "nil":
		return Nil()
	case "true":
		return Bo(true)
	case "false":
		return Bo(false)
	}
	if v, err := strconv.ParseInt(a, 10, 64); err == nil {
		return I(v)
	}
	if a[0] != 'I' && a[0] != 'N' && a[0] != 'i' && a[0] != 'n' {
		if v, err := strconv.ParseFloat(a, 64); err == nil {
			return Fl(v)
		}
	}
	return Sy(a)
}

// fill replaces $1, $2... by the given nodes.  `$1*` splices the elements of a
// list node whose head is `begin!`.
func (n *N) fill(k []*N) *N {
	switch n.K {
	case NSym:
		if len(n.S) == 2 && n.S[0] == '$' && n.S[1] >= '1' && n.S[1] <= '9' {
			return k[n.S[1]-'1']
		}
		return n
	case NList, NArr:
		out := &N{K: n.K, L: make([]*N, 0, len(n.L))}
		for _, c := range n.L {
			out.L = append(out.L, c.fill(k))
		}
		return out
	}
	return n
}

// T adds a production from a template.
func (g *Grammar) T(nt string, cost int, tmpl string, kids ...string) {
	t := parseN(tmpl)
	if len(kids) == 0 {
		g.Add(nt, cost, nil, func([]*N) *N { return t })
		return
	}
	g.Add(nt, cost, kids, func(k []*N) *N { return t.fill(k) })
}

// number gives every `$` its own position number, left to right.
func number(n *N, c *int) *N {
	switch n.K {
	case NSym:
		if n.S == "$" {
			*c++
			return I(int64(*c))
		}
		return n
	case NList, NArr:
		out := &N{K: n.K, L: make([]*N, len(n.L))}
		for i, k := range n.L {
			out.L[i] = number(k, c)
		}
		return out
	}
	return n
}

func numberAll(f []*N) []*N {
	c := 0
	out := make([]*N, len(f))
	for i, n := range f {
		out[i] = number(n, &c)
	}
	return out
}
