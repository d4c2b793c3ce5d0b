package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C13: parsing depends on the text only.

func flagOf(v any, name string) bool {
	f := reflect.ValueOf(v).Elem().FieldByName(name)
	return f.IsValid() && f.Kind() == reflect.Bool && f.Bool()
}

// pdump is the canonical text of what the reader produced, with everything
// the compiler can see of it.
func pdump(b *strings.Builder, v zygo.Sexp, depth int) {
	if depth > 2000 {
		b.WriteString("...")
		return
	}
	switch x := v.(type) {
	case *zygo.SexpPair:
		b.WriteByte('(')
		var cur zygo.Sexp = x
		for n := 0; ; n++ {
			p, ok := cur.(*zygo.SexpPair)
			if !ok {
				break
			}
			if n > 0 {
				b.WriteByte(' ')
			}
			pdump(b, p.Head, depth+1)
			cur = p.Tail
		}
		if cur != zygo.SexpNull {
			b.WriteString(" . ")
			pdump(b, cur, depth+1)
		}
		b.WriteByte(')')
	case *zygo.SexpArray:
		if x.Infix {
			b.WriteByte('i')
		}
		b.WriteByte('[')
		for i, e := range x.Val {
			if i > 0 {
				b.WriteByte(' ')
			}
			pdump(b, e, depth+1)
		}
		b.WriteByte(']')
	case *zygo.SexpSymbol:
		b.WriteString("'" + x.Name())
		if flagOf(x, "colonTail") {
			b.WriteString("<colon>")
		}
		if flagOf(x, "isDot") {
			b.WriteString("<dot>")
		}
	case *zygo.SexpStr:
		if flagOf(x, "backtick") {
			b.WriteByte('`')
		}
		b.WriteString(strconv.QuoteToASCII(x.S))
	case *zygo.SexpFloat:
		if x.Scientific {
			b.WriteByte('e')
		}
		b.WriteString(Dump(x))
	case *zygo.SexpComment:
		b.WriteString(fmt.Sprintf("<comment %v %q>", x.Block, x.Comment))
	default:
		b.WriteString(Dump(v))
	}
}

func pdumpList(xs []zygo.Sexp) string {
	var b strings.Builder
	for _, x := range xs {
		pdump(&b, x, 0)
		b.WriteByte('\n')
	}
	return b.String()
}

// A reading is what the parser says about a text.
type reading struct {
	kind string // "ok", "more", "err", "panic"
	xs   string
}

func mkReading(xs []zygo.Sexp, err error) reading {
	k := "ok"
	if errors.Is(err, zygo.ErrMoreInputNeeded) || err == zygo.ErrMoreInputNeeded {
		k = "more"
	} else if err != nil {
		return reading{"err", ""}
	}
	return reading{k, pdumpList(xs)}
}

func (a reading) String() string {
	return a.kind + " " + strings.ReplaceAll(strings.TrimSuffix(a.xs, "\n"), "\n", " | ")
}

// comp drops the completed expressions of a text that is not complete (nobody
// may rely on which of them are reported before the text is complete).
func (a reading) comp() reading {
	if a.kind == "more" {
		a.xs = ""
	}
	return a
}

var parseEnv *zygo.Zlisp

func penv() *zygo.Zlisp {
	if parseEnv == nil {
		parseEnv = NewStd()
	}
	return parseEnv
}

func guardRead(f func() reading) (rd reading) {
	defer func() {
		if p := recover(); p != nil {
			rd = reading{"panic", fmt.Sprint(p)}
		}
	}()
	return f()
}

func readWhole(t string) reading {
	p := penv().NewParser()
	p.ResetAddNewInput(strings.NewReader(t))
	rd := guardRead(func() reading { return mkReading(p.ParseTokens()) })
	p.Stop()
	return rd
}

// readPieces delivers the pieces one at a time, parsing after each, and
// returns every intermediate reading. Text that would be wrong if it ended
// here ("0x" of "0x1F") may still become right, so it goes on after an error.
func readPieces(pieces []string) (out []reading) {
	p := penv().NewParser()
	defer p.Stop()
	for i, s := range pieces {
		if i == 0 {
			p.ResetAddNewInput(strings.NewReader(s))
		} else {
			p.NewInput(strings.NewReader(s))
		}
		rd := guardRead(func() reading { return mkReading(p.ParseTokens()) })
		out = append(out, rd)
		if rd.kind == "panic" {
			return
		}
	}
	return
}

// readQueued queues all pieces, then parses.
func readQueued(pieces []string) reading {
	p := penv().NewParser()
	defer p.Stop()
	p.Reset()
	for _, s := range pieces {
		p.NewInput(bufio.NewReader(strings.NewReader(s)))
	}
	return guardRead(func() reading { return mkReading(p.ParseTokens()) })
}

// readIter is what the REPL does: go on while more input is asked for.
// It returns the reading and how many pieces were asked for.
func readIter(pieces []string) (reading, int) {
	p := penv().NewParser()
	n := 1
	rd := guardRead(func() reading {
		p.ResetAddNewInput(strings.NewReader(pieces[0]))
		for reply := range p.ParsingIter() {
			if reply.Err == zygo.ErrMoreInputNeeded && n < len(pieces) {
				p.NewInput(bytes.NewBuffer([]byte(pieces[n])))
				n++
				continue
			}
			var xs []zygo.Sexp
			for _, x := range reply.Expr {
				if x != zygo.SexpEnd {
					xs = append(xs, x)
				}
			}
			return mkReading(xs, reply.Err)
		}
		return reading{"none", ""}
	})
	return rd, n
}

// scan is an independent reading of the lexical structure: is the text inside
// a bracket, string, raw string, block comment, or does it end in a prefix
// operator that has no operand?
type scanState struct {
	open      []rune // closing brackets owed
	mode      rune   // 0, '"', '`', '*' (block comment), '/' (line comment), '\'' (char)
	dangling  bool
	prefix    string // the prefix operators that wait
	mismatch  bool
	backslash bool // a \ outside of literals
	nl        bool
}

func scan(t string) scanState {
	var s scanState
	rs := []rune(t)
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		switch s.mode {
		case '"':
			if r == '\\' {
				i++
			} else if r == '"' {
				s.mode = 0
			}
			continue
		case '`':
			if r == '`' {
				s.mode = 0
			}
			continue
		case '\'':
			if r == '\\' {
				i++
			} else if r == '\'' {
				s.mode = 0
			}
			continue
		case '*':
			if r == '*' && i+1 < len(rs) && rs[i+1] == '/' {
				i++
				s.mode = 0
			}
			continue
		case '/':
			if r == '\n' {
				s.mode = 0
			}
			continue
		}
		was := s.dangling
		switch r {
		case ' ', '\t', '\n', '\r':
			continue
		case '%', '^', '~':
			s.dangling = true
			continue
		case '@':
			if i > 0 && rs[i-1] == '~' && was {
				continue
			}
		}
		s.dangling = false
		switch r {
		case '(':
			s.open = append(s.open, ')')
		case '[':
			s.open = append(s.open, ']')
		case '{':
			s.open = append(s.open, '}')
		case ')', ']', '}':
			if len(s.open) == 0 || s.open[len(s.open)-1] != r {
				s.mismatch = true
			} else {
				s.open = s.open[:len(s.open)-1]
			}
		case '"', '`', '\'':
			s.mode = r
		case '\\':
			s.backslash = true
		case '/':
			if i+1 < len(rs) && (rs[i+1] == '/' || rs[i+1] == '*') {
				s.mode = rs[i+1]
				i++
			}
		}
	}
	return s
}

func (s scanState) unfinished() bool {
	return len(s.open) > 0 || s.mode == '"' || s.mode == '`' || s.mode == '*' || s.dangling
}

// completions closes everything that is open.
func completions(t string, s scanState) []string {
	heads := []string{t}
	switch s.mode {
	case '"':
		heads = []string{t + "\"", t + "n\""}
	case '`':
		heads = []string{t + "`"}
	case '*':
		heads = []string{t + "*/", t + "/"}
	case '/':
		heads = []string{t + "\n"}
	case '\'':
		heads = []string{t + "'", t + "a'", t + "n'"}
	}
	var out []string
	for _, h := range heads {
		tail := ""
		if s.dangling {
			tail = " x"
		}
		for i := len(s.open) - 1; i >= 0; i-- {
			tail += string(s.open[i])
		}
		out = append(out, h+tail)
	}
	return out
}

// checkWhole compares the kind of a reading with the scanner, and the text
// with its variants.
func checkWhole(t string, w reading, r *Rec) {
	bad := func(sig, d string) { r.Violate(sig, t, fmt.Sprintf("text %q\nread whole: %s\n%s", t, w, d)) }
	s := scan(t)
	switch w.kind {
	case "panic":
		bad("the parser panics", "")
	case "more":
		if !s.unfinished() {
			bad("asks for more input though the text is finished", "")
		}
	case "ok":
		if s.unfinished() {
			bad("does not ask for more input though the text is unfinished", "")
			return
		}
		t2 := t + "\n"
		if rd := readWhole(t2); rd != w && s.mode != '/' {
			bad("a final newline changes the reading", "with newline: "+rd.String())
			return
		}
		if s.backslash || strings.Contains(t, "\\") {
			return
		}
		rd := readWhole("(" + t + "\n)")
		in := strings.Split(strings.TrimSuffix(w.xs, "\n"), "\n")
		want := "(" + strings.Join(in, " ") + ")\n"
		if w.xs == "" {
			want = "nil\n"
		}
		if s.mode == '/' && rd.kind == "ok" {
			return
		}
		if rd.kind != "ok" || rd.xs != want {
			bad("an expression is lost or changed", fmt.Sprintf("in brackets: %s\nexpected %q", rd, want))
		}
	case "err":
		if s.unfinished() && !s.mismatch {
			for _, c := range completions(t, s) {
				if rd := readWhole(c); rd.kind == "ok" {
					bad("hard error though more input would complete the text", fmt.Sprintf("completion %q: %s", c, rd))
					return
				}
			}
		}
	}
}

// checkPieces delivers t in the given pieces by every route.
func checkPieces(t string, w reading, pieces []string, prefixes bool, r *Rec) bool {
	bad := func(sig, d string) bool {
		r.Violate(sig, fmt.Sprintf("%q", pieces), fmt.Sprintf("text %q in pieces %q\n%s", t, pieces, d))
		return false
	}
	outs := readPieces(pieces)
	r.Trans += uint64(len(outs))
	last := outs[len(outs)-1]
	if w.kind == "err" {
		failed := false
		for _, o := range outs {
			failed = failed || o.kind == "err"
		}
		if !failed || last.kind == "panic" {
			return bad("pieces read differently from the whole", fmt.Sprintf("whole:  %s\npieces: %s", w, last))
		}
	} else if last != w {
		return bad("pieces read differently from the whole", fmt.Sprintf("whole:  %s\npieces: %s", w, last))
	}
	if prefixes {
		pre := ""
		for i, o := range outs[:len(outs)-1] {
			pre += pieces[i]
			pw := readWhole(pre)
			if pw != o {
				return bad("the reading so far differs from a reading of the prefix", fmt.Sprintf("prefix %q\nwhole:  %s\npieces: %s", pre, pw, o))
			}
			if pw.kind == "err" && w.kind == "err" {
				break
			}
		}
	}
	if rd := readQueued(pieces); rd != w {
		return bad("queued pieces read differently from the whole", fmt.Sprintf("whole:  %s\npieces: %s", w, rd))
	}
	rd, n := readIter(pieces)
	pre := strings.Join(pieces[:n], "")
	want := w
	if n < len(pieces) {
		want = readWhole(pre)
		if want.kind == "more" {
			return bad("the iterator stops though more input is needed", fmt.Sprintf("after %q: %s", pre, rd))
		}
	}
	if rd.comp() != want.comp() {
		return bad("the iterator reads pieces differently from the whole", fmt.Sprintf("text so far %q\nwhole:  %s\npieces: %s", pre, want, rd))
	}
	return true
}

func runesOf(t string) []string {
	var out []string
	for len(t) > 0 {
		_, n := utf8.DecodeRuneInString(t)
		out = append(out, t[:n])
		t = t[n:]
	}
	return out
}

// checkText: whole, every single cut, character by character; every pair of
// cuts when two is set.
func checkText(t string, two bool, r *Rec) {
	w := readWhole(t)
	r.Validated++
	r.State(w.String())
	checkWhole(t, w, r)
	if w.kind == "panic" {
		return
	}
	rs := runesOf(t)
	n := len(rs)
	if n > 1 {
		if !checkPieces(t, w, rs, true, r) {
			return
		}
	}
	j := func(a, b int) string { return strings.Join(rs[a:b], "") }
	for k := 1; k < n; k++ {
		if n > 2 && !checkPieces(t, w, []string{j(0, k), j(k, n)}, false, r) {
			return
		}
		if two {
			for m := k + 1; m < n; m++ {
				if !checkPieces(t, w, []string{j(0, k), j(k, m), j(m, n)}, false, r) {
					return
				}
			}
		}
	}
	// an empty piece anywhere changes nothing
	if n > 0 {
		checkPieces(t, w, []string{"", t}, false, r)
		checkPieces(t, w, []string{t, ""}, false, r)
		if n > 1 {
			checkPieces(t, w, []string{j(0, n/2), "", j(n/2, n)}, false, r)
		}
	}
}

var c13Alphabet = []rune("()[]{}\"'`\\/*:=-+.,;%^~@ae01#& \n!<é")

func strSpace(n int) *Space {
	k := uint64(len(c13Alphabet))
	size := uint64(1)
	for i := 0; i < n; i++ {
		size *= k
	}
	text := func(i uint64) string {
		var rs []rune
		for j := 0; j < n; j++ {
			rs = append(rs, c13Alphabet[i%k])
			i /= k
		}
		return string(rs)
	}
	return &Space{Name: fmt.Sprintf("strings-%d", n), Size: size,
		Bound: fmt.Sprintf("all strings of %d characters over %q; whole, in every two pieces, character by character, queued, iterated", n, string(c13Alphabet)),
		Desc:  text,
		Run: func(i uint64, r *Rec) {
			t := text(i)
			checkText(t, n <= 3, r)
			if i%99991 == 7 {
				r.Sample(fmt.Sprintf("%q -> %s", t, readWhole(t)))
			}
		}}
}

var c13Tokens = []string{
	"a", "ab:", "a.b", ".c", "x1", "12", "-3", "1_0", "0x1F", "0o17", "0b11", "7ULL", "1.5", "-.5e-3", "2e+7", "Inf", "-Inf", "NaN", "true", "nil",
	"\"s\"", "\"\"", "\"a\\n\\\"b\"", "`r\n\"`", "'c'", "'\\n'", "'\\''", "'\"'", "'é'", "// c\n", "/* c\n*/", "/**/", "/***/", "/* c **/", "/*/ */",
	"(", ")", "[", "]", "{", "}", "%", "^", "~", "~@", ",", ";", ":", ":=", "=", "==", "**", "*", "/", "-", "--", "->", "+", "++", "+=", "<=", "!", "!=", "&&", "||", "&", "#p", "?q", "$", "\\", "\n",
}

func tokSpace(n int) *Space {
	k := uint64(len(c13Tokens))
	size := uint64(1) << uint(n-1)
	for i := 0; i < n; i++ {
		size *= k
	}
	text := func(i uint64) string {
		var b strings.Builder
		for j := 0; j < n; j++ {
			b.WriteString(c13Tokens[i%k])
			i /= k
			if j < n-1 {
				if i%2 == 0 {
					b.WriteByte(' ')
				}
				i /= 2
			}
		}
		return b.String()
	}
	return &Space{Name: fmt.Sprintf("tokens-%d", n), Size: size,
		Bound: fmt.Sprintf("all sequences of %d of %d tokens with and without a space between; whole, in every two pieces, character by character, queued, iterated", n, k),
		Desc:  text,
		Run: func(i uint64, r *Rec) {
			checkText(text(i), n <= 2, r)
		}}
}

func c13CatTexts(d int) []string {
	var out []string
	for _, c := range catContexts {
		if d == 0 && c != "$1" {
			continue
		}
		for _, f := range catForms {
			out = append(out, fillText(c, f))
		}
	}
	if d > 0 {
		// every context around a form of each lexical kind
		for _, c := range catContexts {
			for _, f := range []string{"\"a)b\"", "`x\n(`", "'('", "{x = -1}", "/* ( */ 1", "1 // (\n", "%a", "^(a ~b ~@c)", "{a: 1 \"b\": 2}"} {
				out = append(out, fillText(c, f))
			}
		}
	}
	return out
}

func catTextSpace(d int, two bool) *Space {
	texts := c13CatTexts(d)
	name := fmt.Sprintf("catalogue-texts-%d", d)
	return &Space{Name: name, Size: uint64(len(texts)) * 2,
		Bound: fmt.Sprintf("%d texts using every form of the language (with and without a final newline); whole, in every two pieces (every three: %v), character by character, queued, iterated", len(texts), two),
		Desc:  func(i uint64) string { return texts[i/2] },
		Run: func(i uint64, r *Rec) {
			t := texts[i/2]
			if i%2 == 1 {
				t += "\n"
			}
			checkText(t, two && len(t) < 120, r)
		}}
}

// the script corpus, cut at its top level expressions by the scanner
func corpusFiles() (names, texts []string) {
	repo := os.Getenv("VZ_REPO")
	if repo == "" {
		repo = "/repo"
	}
	fs, _ := filepath.Glob(filepath.Join(repo, "tests", "*.zy"))
	g, _ := filepath.Glob(filepath.Join(repo, "tests", "*", "*"))
	fs = append(fs, g...)
	sort.Strings(fs)
	for _, f := range fs {
		st, err := os.Stat(f)
		if err != nil || st.IsDir() || st.Size() > 40000 {
			continue
		}
		b, err := os.ReadFile(f)
		if err == nil && utf8.Valid(b) {
			names = append(names, filepath.Base(f))
			texts = append(texts, string(b))
		}
	}
	return
}

// topForms cuts a text where a line ends and nothing is open.
func topForms(t string) []string {
	var out []string
	cur := ""
	for _, l := range strings.SplitAfter(t, "\n") {
		cur += l
		s := scan(cur)
		if !s.unfinished() && s.mode == 0 {
			if strings.TrimSpace(cur) != "" {
				out = append(out, cur)
			}
			cur = ""
		}
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, cur)
	}
	return out
}

func corpusSpace() *Space {
	names, texts := corpusFiles()
	type piece struct {
		f int
		t string
	}
	var ps []piece
	seen := map[string]bool{}
	for i, t := range texts {
		for _, s := range topForms(t) {
			if !seen[s] && len(s) < 3000 {
				seen[s] = true
				ps = append(ps, piece{i, s})
			}
		}
	}
	return &Space{Name: "corpus-forms", Size: uint64(len(ps)), Chunk: 8,
		Bound: fmt.Sprintf("the %d different top level pieces of the %d scripts under tests/; whole, in every two pieces, character by character, queued, iterated", len(ps), len(names)),
		Desc:  func(i uint64) string { return names[ps[i].f] + ": " + ps[i].t },
		Run:   func(i uint64, r *Rec) { checkText(ps[i].t, false, r) }}
}

// whole scripts: line by line, in blocks of every size up to 40, and the
// reading of the script is that of its pieces one after the other
func scriptSpace() *Space {
	names, texts := corpusFiles()
	return &Space{Name: "scripts", Size: uint64(len(texts)), Chunk: 1,
		Bound: fmt.Sprintf("the %d scripts under tests/ whole, by lines, in blocks of 1..12, 64 and 4096 characters; and piece after piece", len(texts)),
		Desc:  func(i uint64) string { return names[i] },
		Run: func(i uint64, r *Rec) {
			t := texts[i]
			w := readWhole(t)
			r.Validated++
			checkWhole(t, w, r)
			if !checkPieces(t, w, strings.SplitAfter(t, "\n"), len(t) < 4000, r) {
				return
			}
			rs := runesOf(t)
			for _, k := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 64, 4096} {
				var ps []string
				for a := 0; a < len(rs); a += k {
					ps = append(ps, strings.Join(rs[a:min(a+k, len(rs))], ""))
				}
				if !checkPieces(t, w, ps, false, r) {
					return
				}
			}
			all := ""
			for _, s := range topForms(t) {
				rd := readWhole(s)
				if rd.kind != "ok" {
					if w.kind == "ok" {
						r.Violate("a piece of a script does not parse alone", s, rd.String())
					}
					return
				}
				all += rd.xs
			}
			if w.kind == "ok" && all != w.xs {
				r.Violate("a script reads differently from its pieces", names[i], "")
			}
		}}
}

// two texts one after the other
func concatSpace(stride int) *Space {
	var ts []string
	for _, t := range append(append([]string{}, catForms...), c13Tokens...) {
		w := readWhole(t)
		s := scan(t)
		if w.kind == "ok" && !s.backslash && s.mode == 0 {
			ts = append(ts, t)
		}
	}
	n := uint64(len(ts))
	return &Space{Name: "two-texts", Size: n * n / uint64(stride),
		Bound: fmt.Sprintf("all pairs of %d complete texts: reading one after the other is reading both (every %d-th pair)", n, stride),
		Desc:  func(i uint64) string { i *= uint64(stride); return ts[i/n] + "\n" + ts[i%n] },
		Run: func(i uint64, r *Rec) {
			i *= uint64(stride)
			a, b := ts[i/n], ts[i%n]
			if (strings.HasSuffix(a, "+") || strings.HasSuffix(a, "-")) && strings.HasPrefix(b, "Inf") {
				return
			}
			r.Validated++
			wa, wb, w := readWhole(a), readWhole(b), readWhole(a+"\n"+b)
			if w.kind != "ok" || w.xs != wa.xs+wb.xs {
				r.Violate("two texts one after the other read differently", a+"\n"+b, fmt.Sprintf("first:  %s\nsecond: %s\nboth:   %s", wa, wb, w))
			}
			// also in pieces with a pause between them
			outs := readPieces([]string{a + "\n", b})
			if l := outs[len(outs)-1]; l.xs != w.xs || l.kind != w.kind {
				r.Violate("two texts with a pause between them read differently", a+"\n"+b, fmt.Sprintf("whole:  %s\npaused: %s", w, l))
			}
		}}
}

// ---- histories ----

// what an interpreter may have been given before
var histTexts = []string{
	"1", "a", "(+ 1 2)\n", "{x = 1}", "(", "(a [b {c", "[1 2", "{a", "{a:", "{\"k\"", "{\"k\":", "{`k`", "\"abc", "\"abc\\", "(\"abc", "`abc", "(`a", "/* c", "/* c *", "(/* c", "// c", "(a // c",
	"'", "'a", "'\\", "'ab'", "a:", "a", "-", "1e", "1e-", "1-", "/", ":", "~", "~@", "%", "^", "(~", "(% ", ")", "]", "}", "(]", "[)", "{)", "@@", "0xzz", "1a", "\"\\q", "a\"", "a'", "a`", "a%", "99999999999999999999", "(a \\", "(a \\ b", "(a \\ b c)", "a b (", "a b )", "(a (b (c", "(a [b) c", "- ", "+", "\\", "#", "", "\n", ";", ",", "{", "{}", "{ /* c", "{a: /* c", "{ // c\n", "Inf", "(quote", "=", "&", "&&", "e", "1", "1.", ".", "a.", "a..b",
}

// what is read next
var nextTexts = []string{
	"1", "a", "-1", "- 1", "-1 ", "+5", "e", "-e", "e-1", "1e-1", "-Inf", "Inf", ".5", "-.5", "a.b", ".b", ":", "=", ":= 1", "=1", "/", "/ 2", "// c\n", "* /", "*/", "/* c */", "\"s\"", "\"", "`r`", "'c'", "n", "(a b)", "[1, 2]", "{x = -1}", "{a: 1}", "{\"k\": 2}", "{`k`: 3}", "{for i := 0; i < 3; i++ { x }}", "~x", "@x", "~@x", "%x", "^(a ~b)", ")", "(", "(a \\ b)", "a: b", "3:", "-3", "1:2", "", "\n", "-", "ULL", "0x1F", "7ULL", "true", ", a", "; a", "\\", "=="}

func histSpace(n int, modes uint64) *Space {
	nh, nt := uint64(len(histTexts)), uint64(len(nextTexts))
	size := nt * modes
	for k := 0; k < n; k++ {
		size *= nh
	}
	at := func(i uint64) (hs []string, t string, mode uint64) {
		t = nextTexts[i%nt]
		i /= nt
		mode = i % modes
		i /= modes
		for k := 0; k < n; k++ {
			hs = append(hs, histTexts[i%nh])
			i /= nh
		}
		return
	}
	return &Space{Name: fmt.Sprintf("histories-%d", n), Size: size,
		Bound: fmt.Sprintf("all sequences of %d of %d earlier texts (complete, failing, unfinished) and then %d texts, on one parser; by ParseTokens, by an abandoned iterator, in pieces, through Reset or ResetAddNewInput", n, nh, nt),
		Desc:  func(i uint64) string { hs, t, m := at(i); return fmt.Sprintf("%q then %q, route %d", hs, t, m) },
		Run: func(i uint64, r *Rec) {
			hs, t, mode := at(i)
			p := penv().NewParser()
			defer p.Stop()
			feed := func(s string) {
				if mode%2 == 0 {
					p.ResetAddNewInput(strings.NewReader(s))
				} else {
					p.Reset()
					p.NewInput(bufio.NewReader(strings.NewReader(s)))
				}
			}
			guardRead(func() reading {
				for _, h := range hs {
					feed(h)
					switch mode / 2 {
					case 0:
						p.ParseTokens()
					case 1:
						for range p.ParsingIter() {
							break
						}
					case 2:
						rs := runesOf(h)
						if len(rs) > 1 {
							feed(rs[0])
							p.ParseTokens()
							p.NewInput(strings.NewReader(strings.Join(rs[1:], "")))
							p.NewInput(strings.NewReader(" ("))
						}
						p.ParseTokens()
					}
				}
				return reading{}
			})
			feed(t)
			rd := guardRead(func() reading { return mkReading(p.ParseTokens()) })
			w := readWhole(t)
			r.Validated++
			r.Trans += uint64(n)
			if rd != w {
				r.Violate("an earlier text changes how a later one is read", fmt.Sprintf("%q then %q", hs, t), fmt.Sprintf("route %d\nfresh parser: %s\nthis parser:  %s", mode, w, rd))
			}
			// and the line count starts over
			q := penv().NewParser()
			q.ResetAddNewInput(strings.NewReader(t))
			guardRead(func() reading { return mkReading(q.ParseTokens()) })
			if p.Linenum() != q.Linenum() {
				r.Violate("an earlier text changes the line numbers of a later one", fmt.Sprintf("%q then %q", hs, t), fmt.Sprintf("route %d: %d, fresh: %d", mode, p.Linenum(), q.Linenum()))
			}
			q.Stop()
		}}
}

// the same through an interpreter: evaluate, load, read or source the earlier
// texts; then see what a quoted text reads as
func envHistSpace(n int) *Space {
	nh, nt := uint64(len(histTexts)), uint64(len(nextTexts))
	modes := uint64(5)
	size := nt * modes
	for k := 0; k < n; k++ {
		size *= nh
	}
	at := func(i uint64) (hs []string, t string, mode uint64) {
		t = nextTexts[i%nt]
		i /= nt
		mode = i % modes
		i /= modes
		for k := 0; k < n; k++ {
			hs = append(hs, histTexts[i%nh])
			i /= nh
		}
		return
	}
	obs := func(env *zygo.Zlisp, t string) string {
		var b strings.Builder
		one := func(src string) {
			o := guard(20000, func() (zygo.Sexp, error) {
				v, err := env.EvalString(src)
				if err == nil {
					pdump(&b, v, 0)
				}
				return zygo.SexpNull, err
			})
			if o.Kind != "val" {
				b.WriteString(o.Kind)
			}
			b.WriteByte(';')
		}
		one("(quote (" + t + "\n))")
		env.AddGlobal("txt", &zygo.SexpStr{S: t})
		one("(read txt)")
		one("(quote (" + t + "\n))")
		if err := env.LoadString(t); err != nil {
			b.WriteString("err;")
		} else {
			b.WriteString("loaded;")
		}
		env.Clear()
		return b.String()
	}
	memo := map[string]string{}
	return &Space{Name: fmt.Sprintf("interpreter-histories-%d", n), Size: size,
		Bound: fmt.Sprintf("all sequences of %d of %d earlier texts evaluated, loaded, loaded from a stream, read or evaluated in a duplicate of an interpreter, then %d texts read by it; compared with a new interpreter", n, nh, nt),
		Desc:  func(i uint64) string { hs, t, m := at(i); return fmt.Sprintf("%q then %q, route %d", hs, t, m) },
		Run: func(i uint64, r *Rec) {
			hs, t, mode := at(i)
			env := NewBare()
			for _, h := range hs {
				guard(20000, func() (zygo.Sexp, error) {
					switch mode {
					case 0:
						return env.EvalString(h)
					case 1:
						return zygo.SexpNull, env.LoadString(h)
					case 2:
						return zygo.SexpNull, env.LoadStream(bytes.NewBufferString(h))
					case 3:
						env.AddGlobal("txt", &zygo.SexpStr{S: h})
						return env.EvalString("(read txt)")
					default:
						return env.Duplicate().EvalString(h)
					}
				})
				env.Clear()
			}
			want, ok := memo[t]
			if !ok {
				want = obs(NewBare(), t)
				memo[t] = want
			}
			r.Validated++
			r.Trans += uint64(n)
			if got := obs(env, t); got != want {
				r.Violate("an earlier program changes how a later text is read", fmt.Sprintf("%q then %q", hs, t), fmt.Sprintf("route %d\nnew interpreter:  %s\nthis interpreter: %s", mode, want, got))
			}
		}}
}

// the REPL of the zygo command
func zygoBin() string { return filepath.Join(os.Getenv("VZ_BUILD"), "zygo") }

func replSpace() *Space {
	var texts []string
	_, corpus := corpusFiles()
	seen := map[string]bool{}
	add := func(t string) {
		t = strings.TrimRight(t, "\n")
		s := scan(t)
		if !seen[t] && !s.backslash && s.mode == 0 && len(t) < 3000 && readWhole(t).kind == "ok" {
			seen[t] = true
			texts = append(texts, t)
		}
	}
	for _, t := range append(append(append([]string{}, catForms...), c13Tokens...), nextTexts...) {
		add(t)
	}
	for _, c := range corpus {
		for _, t := range topForms(c) {
			add(t)
		}
	}
	var fails []string
	for _, h := range histTexts {
		if readWhole(h+"\n").kind == "err" && !strings.Contains(h, "\n") {
			fails = append(fails, h)
		}
	}
	const per = 40
	n := (len(texts) + per - 1) / per
	return &Space{Name: "repl-sessions", Size: uint64(n) * 2, Chunk: 1,
		Bound: fmt.Sprintf("%d texts typed into the REPL of the zygo command line by line, quoted, after nothing and after each of %d lines in turn that do not parse: continuation prompts and the value printed", len(texts), len(fails)),
		Desc:  func(i uint64) string { return fmt.Sprintf("session %d", i) },
		Run: func(i uint64, r *Rec) {
			ts := texts[int(i/2)*per : min(int(i/2)*per+per, len(texts))]
			var in strings.Builder
			for k, t := range ts {
				if i%2 == 1 {
					in.WriteString(fails[(int(i)*7+k)%len(fails)] + "\n")
				}
				fmt.Fprintf(&in, "\"=%d=\"\n(quote (%s\n))\n", k, t)
			}
			fmt.Fprintf(&in, "\"=%d=\"\n", len(ts))
			cmd := exec.Command(zygoBin(), "-quiet", "-no-liner")
			cmd.Stdin = strings.NewReader(in.String())
			out, _ := cmd.CombinedOutput()
			for k, t := range ts {
				r.Validated++
				src := "(quote (" + t + "\n))"
				a := strings.Index(string(out), fmt.Sprintf("\"=%d=\"\n", k))
				b := strings.Index(string(out), fmt.Sprintf("\"=%d=\"\n", k+1))
				if a < 0 || b < a {
					r.Violate("the REPL lost track", t, fmt.Sprintf("session %d: %q", i, string(out)))
					return
				}
				got := string(out)[a+len(fmt.Sprintf("\"=%d=\"\n", k)) : b]
				lines := strings.Split(src, "\n")
				pre, want := "", "zygo> "
				for _, l := range lines[:len(lines)-1] {
					pre += l + "\n"
					if scan(pre).unfinished() {
						want += "... "
					}
				}
				env := NewBare()
				v, err := env.EvalString(src)
				if err != nil {
					continue
				}
				if v != zygo.SexpNull {
					want += v.SexpString(nil) + "\n"
				}
				want += "zygo> "
				if i%2 == 1 {
					// the next line that does not parse
					if x := strings.LastIndex(got, "\nError on line"); x >= 0 {
						got = got[:x+1]
						want = strings.TrimSuffix(want, "zygo> ")
					} else if x := strings.LastIndex(got, "zygo> Error on line"); x >= 0 {
						got = got[:x]
						want = strings.TrimSuffix(want, "zygo> ")
					}
					got = strings.TrimSuffix(got, "zygo> ")
					want = strings.TrimSuffix(want, "zygo> ")
				}
				if got != want {
					r.Violate("the REPL reads a text differently", t, fmt.Sprintf("session %d\nexpected %q\ngot      %q", i, want, got))
				}
			}
		}}
}

func init() {
	register(&PropDef{ID: "C13", Assume: []string{
		"texts are valid UTF-8 and are cut between characters",
		"a text that ends in a prefix operator without operand (% ^ ~ ~@) counts as unfinished",
	}, Spaces: func(tier string) []*Space {
		out := []*Space{strSpace(1), strSpace(2), strSpace(3), tokSpace(1), tokSpace(2), catTextSpace(0, true), histSpace(1, 6), envHistSpace(1), corpusSpace(), scriptSpace()}
		if tier == "thorough" {
			return append(out, replSpace(), concatSpace(1), strSpace(4), histSpace(2, 6), catTextSpace(1, false), tokSpace(3), envHistSpace(2), strSpace(5))
		}
		return append(out, replSpace(), concatSpace(4), histSpace(2, 1), strSpace(4))
	}})
}
