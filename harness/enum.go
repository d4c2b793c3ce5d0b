package main

// Context-free grammars with counting and unranking: "all sentences of exactly
// n nodes derivable from nonterminal A" is an integer interval.

// A Prod is one production: it contributes Cost nodes plus the nodes of its
// children, which are derived from the nonterminals Kids.
type Prod struct {
	Cost  int
	Kids  []string
	Build func(kids []*N) *N
}

type Grammar struct {
	P     map[string][]Prod
	memo  map[gkey]uint64
	memoS map[skey]uint64
}

type gkey struct {
	nt   string
	size int
}
type skey struct {
	nt   string
	prod int
	kid  int
	size int
}

func NewGrammar() *Grammar {
	return &Grammar{P: map[string][]Prod{}, memo: map[gkey]uint64{}, memoS: map[skey]uint64{}}
}

func (g *Grammar) Add(nt string, cost int, kids []string, build func(k []*N) *N) {
	g.P[nt] = append(g.P[nt], Prod{cost, kids, build})
}

// Term adds a leaf production.
func (g *Grammar) Term(nt string, cost int, n *N) {
	g.Add(nt, cost, nil, func([]*N) *N { return n })
}

const inf = uint64(1) << 62

func sadd(a, b uint64) uint64 {
	if a+b > inf {
		return inf
	}
	return a + b
}
func smul(a, b uint64) uint64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a > inf/b {
		return inf
	}
	return a * b
}

// Count is the number of derivations of nt with exactly size nodes.
func (g *Grammar) Count(nt string, size int) uint64 {
	if size < 0 {
		return 0
	}
	k := gkey{nt, size}
	if v, ok := g.memo[k]; ok {
		return v
	}
	g.memo[k] = 0 // left-recursive zero-cost productions are not allowed
	var t uint64
	prods, ok := g.P[nt]
	if !ok {
		panic("grammar: unknown nonterminal " + nt)
	}
	for pi, p := range prods {
		t = sadd(t, g.countSeq(nt, pi, 0, size-p.Cost))
	}
	g.memo[k] = t
	return t
}

func (g *Grammar) countSeq(nt string, pi, ki, size int) uint64 {
	p := &g.P[nt][pi]
	if size < 0 {
		return 0
	}
	if ki == len(p.Kids) {
		if size == 0 {
			return 1
		}
		return 0
	}
	if ki == len(p.Kids)-1 {
		return g.Count(p.Kids[ki], size)
	}
	k := skey{nt, pi, ki, size}
	if v, ok := g.memoS[k]; ok {
		return v
	}
	var t uint64
	for s := 0; s <= size; s++ {
		c := g.Count(p.Kids[ki], s)
		if c == 0 {
			continue
		}
		t = sadd(t, smul(c, g.countSeq(nt, pi, ki+1, size-s)))
	}
	g.memoS[k] = t
	return t
}

// Nth unranks: the i-th derivation of nt with exactly size nodes.
func (g *Grammar) Nth(nt string, size int, i uint64) *N {
	for pi := range g.P[nt] {
		p := &g.P[nt][pi]
		c := g.countSeq(nt, pi, 0, size-p.Cost)
		if i < c {
			kids := make([]*N, len(p.Kids))
			g.nthSeq(nt, pi, 0, size-p.Cost, i, kids)
			return p.Build(kids)
		}
		i -= c
	}
	panic("grammar: rank out of range")
}

func (g *Grammar) nthSeq(nt string, pi, ki, size int, i uint64, out []*N) {
	p := &g.P[nt][pi]
	if ki == len(p.Kids) {
		return
	}
	for s := 0; s <= size; s++ {
		c := g.Count(p.Kids[ki], s)
		if c == 0 {
			continue
		}
		r := g.countSeq(nt, pi, ki+1, size-s)
		t := smul(c, r)
		if i < t {
			out[ki] = g.Nth(p.Kids[ki], s, i/r)
			g.nthSeq(nt, pi, ki+1, size-s, i%r, out)
			return
		}
		i -= t
	}
	panic("grammar: rank out of range (seq)")
}

// UpTo counts the derivations of size <= max; NthUpTo unranks over them in
// order of size.
func (g *Grammar) UpTo(nt string, max int) uint64 {
	var t uint64
	for s := 0; s <= max; s++ {
		t = sadd(t, g.Count(nt, s))
	}
	return t
}

func (g *Grammar) NthUpTo(nt string, max int, i uint64) *N {
	for s := 0; s <= max; s++ {
		c := g.Count(nt, s)
		if i < c {
			return g.Nth(nt, s, i)
		}
		i -= c
	}
	panic("grammar: rank out of range (upto)")
}

// Radix decodes i as digits of the given mixed radices (first digit fastest).
func Radix(i uint64, radices ...int) []int {
	out := make([]int, len(radices))
	for k, r := range radices {
		out[k] = int(i % uint64(r))
		i /= uint64(r)
	}
	return out
}

func prodSize(radices ...int) uint64 {
	t := uint64(1)
	for _, r := range radices {
		t = smul(t, uint64(r))
	}
	return t
}

// Strings up to a length over an alphabet of k symbols: count and unrank
// (shortest first).
func strCount(k, maxLen int) uint64 {
	var t, p uint64 = 0, 1
	for l := 0; l <= maxLen; l++ {
		t = sadd(t, p)
		p = smul(p, uint64(k))
	}
	return t
}

func strNth(k, maxLen int, i uint64) []int {
	p := uint64(1)
	for l := 0; l <= maxLen; l++ {
		if i < p {
			out := make([]int, l)
			for j := l - 1; j >= 0; j-- {
				out[j] = int(i % uint64(k))
				i /= uint64(k)
			}
			return out
		}
		i -= p
		p *= uint64(k)
	}
	panic("strNth: out of range")
}
