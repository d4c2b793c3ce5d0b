package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
	_ "unsafe"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C20: evaluation is deterministic.
//
// What may differ between two runs of a program is decided by the harness: the
// harness of this check is built with an overlay of Go's map iterator (see
// run.sh) that starts every iteration at the slot it is told.  A map of up to 8
// entries iterates in one of 8 rotations of its slots, so orders 1..8 are all
// there are; a step makes later iterations start elsewhere than earlier ones.
// Order 0 is Go's own random start.  The other sources of difference are where
// objects live (every run allocates afresh), how many interpreters ran before
// (histories), and the process (children).

//go:linkname mapOrder internal/runtime/maps.VerifOrder
var mapOrder uint64

//go:linkname mapStep internal/runtime/maps.VerifStep
var mapStep uint64

//go:linkname mapUsed internal/runtime/maps.VerifUsed
var mapUsed uint64

type c20Order struct{ start, step uint64 }

var c20Orders = []c20Order{{1, 0}, {2, 0}, {3, 0}, {4, 0}, {5, 0}, {6, 0}, {7, 0}, {8, 0}, {1, 1}, {2, 1}, {5, 1}, {1, 2}, {1, 3}, {4, 3}, {1, 5}, {8, 7}}

var c20Out *os.File

func c20Capture(f func()) string {
	if c20Out == nil {
		t, err := os.CreateTemp(os.Getenv("VZ_BUILD"), "out.")
		if err != nil {
			panic(err)
		}
		os.Remove(t.Name())
		c20Out = t
	}
	so, se, zo := os.Stdout, os.Stderr, zygo.OurStdout
	os.Stdout, os.Stderr, zygo.OurStdout = c20Out, c20Out, c20Out
	func() {
		defer func() { os.Stdout, os.Stderr, zygo.OurStdout = so, se, zo }()
		f()
	}()
	n, _ := c20Out.Seek(0, io.SeekCurrent)
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	c20Out.ReadAt(b, 0)
	c20Out.Truncate(0)
	c20Out.Seek(0, io.SeekStart)
	return string(b)
}

// c20Run is one run of a program in a fresh interpreter: everything it shows.
func c20Run(setup, src string, ord c20Order) (text string, kind string) {
	mapOrder, mapStep = ord.start, ord.step
	defer func() { mapOrder, mapStep = 0, 0 }()
	var o Out
	val := ""
	out := c20Capture(func() {
		env := NewStd()
		if setup != "" {
			Eval(env, setup)
		}
		tr := &Tracer{}
		tr.Install(env)
		o = EvalB(env, src+"\n", 20000)
		if o.Kind == "val" {
			p := guard(defBudget, func() (zygo.Sexp, error) { val = o.V.SexpString(nil); return zygo.SexpNull, nil })
			if p.Kind != "val" {
				val = p.Kind
			}
		}
		val += "\neffects: " + tr.String()
	})
	return o.Kind + ": " + o.S + "\nprints as: " + val + "\noutput: " + out, o.Kind
}

// what a program that has pointers may show differently
var c20Addr = regexp.MustCompile(`0x[0-9a-f]{6,}|raw\[[0-9 ]*\]|\[\]byte\{[^}]*\}`)

func c20Sig(a, b string) string {
	if c20Addr.ReplaceAllString(a, "@") == c20Addr.ReplaceAllString(b, "@") {
		return "addresses in the output"
	}
	return "runs differ"
}

func c20Check(setup, src string, orders []c20Order, r *Rec, input string) {
	first, kind := c20Run(setup, src, orders[0])
	r.State(kind)
	if kind == "steps" || kind == "panic" {
		r.Count("skipped_"+kind, 1)
		return
	}
	ptr := c20Ptr.MatchString(src)
	if ptr {
		first = c20Addr.ReplaceAllString(first, "@")
		r.Count("with_pointers", 1)
	}
	for _, ord := range orders[1:] {
		r.Validated++
		again, _ := c20Run(setup, src, ord)
		if ptr {
			again = c20Addr.ReplaceAllString(again, "@")
		}
		if again != first {
			a, b := lineDiff(first, again)
			r.Violate(c20Sig(first, again), input, fmt.Sprintf("map order %v: %s\nmap order %v: %s", orders[0], clip(a, 300), ord, clip(b, 300)))
			return
		}
	}
}

// lineDiff gives the first lines that differ.
func lineDiff(a, b string) (string, string) {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return x[i], "(end)"
		}
		if x[i] != y[i] {
			return x[i], y[i]
		}
	}
	return "(end)", y[len(x)]
}

func c20Space(name, bound, setup string, n int, src func(i uint64) string, orders []c20Order) *Space {
	return &Space{Name: name, Size: uint64(n), Bound: fmt.Sprintf("%s x %d orders of map iteration", bound, len(orders)),
		Init: c20Init,
		Run: func(i uint64, r *Rec) {
			s := src(i)
			if c20Excluded(s) {
				r.Count("excluded", 1)
				return
			}
			c20Check(setup, s, orders, r, s)
			if i%3001 == 5 {
				r.Sample(s)
			}
		},
		Desc: func(i uint64) string { return src(i) },
	}
}

// random, time and pointer-printing functions
var c20Skip = regexp.MustCompile(`\b(random|now|millis|timeit|dump|Sideeffect)\b`)

// programs that make or name a pointer may print where it points
var c20Ptr = regexp.MustCompile(`&|\bpx\b|\bptr\b|\bderef|\(\* `)

func c20Excluded(s string) bool { return c20Skip.MatchString(s) }

var c20Inited bool

func c20Init() {
	if c20Inited {
		return
	}
	c20Inited = true
	// the overlay must be in place
	m := map[int]bool{1: true, 2: true, 3: true}
	seen := map[int]bool{}
	for k := uint64(1); k <= 8; k++ {
		mapOrder = k
		for x := range m {
			seen[x] = true
			break
		}
	}
	mapOrder = 0
	if len(seen) != 3 || mapUsed == 0 {
		panic("c20: the map iterator is not under control")
	}
}

// --- values whose maps show

var c20Kinds = []string{"symbols", "strings", "integers", "mixed"}

func c20Key(kind string, i int) string {
	c := string(rune('a' + i*7%26))
	switch kind {
	case "symbols":
		return "(quote " + c + "k)"
	case "strings":
		return `"` + c + `s"`
	case "integers":
		return fmt.Sprint(i * 37 % 101)
	}
	return c20Key(c20Kinds[i%3], i)
}

var c20Counts = []int{0, 1, 2, 3, 5, 8, 9, 12, 20}

// what is done to h, a hash; k is one of its keys
var c20Ops = []string{
	"h", "(str h)", "(println h)", `(printf "%v\n" h)`, "(json h)", "(raw2str (json h))", "(unjson (json h))", "(msgpack h)", "(unmsgpack (msgpack h))",
	"(println (unjson (json h)))", "(keys h)", "(hpair h 0)", "(hpair h 1)", "(range k v h (t k v))", "(len h)", "(== h h2)", "(eval h)", "(list h h2)",
	"[h h2]", "(hash x:h y:h2)", "(hdel h k)", "(begin (hdel h k) h)", "(begin (hdel h k) (hset h k 9) (keys h))", "(begin (hset h k 7) h)", "(hget h k)", "(hget h (quote none))",
	"h.none", "(set h.bk 4)", "(begin (set h.bk 4) h)", "(togo h)", "(type? h)", "(fieldls h)", "(methodls h)", "(_method h Foo:)", "(syntaxQuote [1 (unquote h)])", "(syntaxQuote (hash x:(unquote h)))",
	"((fn [z] (keys z)) h)", "(map (fn [z] z) (keys h))", "(apply list (keys h))", "(let [z h] (hset z k 1) z)", "(defmap fa) ", "(fa h)", "(asUint64 h)", "(+ h 1)", "(h 1)", "(undefd h)", "(assert (== h 3))",
	"(apply hash (keys h))", "(hash (keys h) h)", "{h:k}", "(append (keys h) h)", "(concat (keys h) (keys h2))", "(sort (keys h))", "(str (keys h))", "(for [(def i 0) (< i (len h)) (set i (+ i 1))] (t (hpair h i)))",
	"(not h)", "(cond h 1 2)", "(mdef [a b] h)", "(def [a b] h)", "(quote {h})", "(macexpand (range k v h k))", "(stringify h)", "(sym2str k)", "(& h)", "(flatten h)", "(raw h)", "(source h)", "(newScope h)", "(return h)",
	"(prettyPrint true) ", "(begin (pretty true) (str h))", "(begin (pretty true) (println [h h2]) (pretty false))", "(hash? h)", "(deepcopy h)", "(hmap h)", "(unhash h)", "(unbase64 (base64 (json h)))",
}

func c20HashText(i uint64) string {
	op := c20Ops[i%uint64(len(c20Ops))]
	i /= uint64(len(c20Ops))
	n := c20Counts[i%uint64(len(c20Counts))]
	kind := c20Kinds[i/uint64(len(c20Counts))%uint64(len(c20Kinds))]
	var b strings.Builder
	b.WriteString("(def h (hash)) (def h2 (hash)) ")
	for k := 0; k < n; k++ {
		fmt.Fprintf(&b, "(hset h %s %d) ", c20Key(kind, k), k)
		fmt.Fprintf(&b, "(hset h2 %s %d) ", c20Key(kind, n-1-k), k)
	}
	if n > 2 {
		fmt.Fprintf(&b, "(hdel h2 %s) ", c20Key(kind, 1))
	}
	fmt.Fprintf(&b, "(def k %s) ", c20Key(kind, n/2))
	return b.String() + op
}

// texts of JSON objects: every order of up to 4 of these members
var c20Members = []string{`"b":1`, `"a":[1,{"y":1,"x":2}]`, `"c":{"q":1,"p":{"n":2,"m":1}}`, `"Atype":"snoopy"`, `"zKeyOrder":["c","a","b"]`, `"d":null`, `"id":5`, `"a":7`}

var c20DecodeOps = []string{"%s", "(str %s)", "(json %s)", "(keys %s)", "(togo %s)", "(begin (def q %s) (hdel q (quote a)) q)", "(msgpack %s)", "(unmsgpack (msgpack %s))", "(range k v %s (t k v))"}

func c20Perms(n, upto int) [][]int {
	out := [][]int{{}}
	for lo, d := 0, 0; d < upto; d++ {
		hi := len(out)
		for ; lo < hi; lo++ {
			for x := 0; x < n; x++ {
				dup := false
				for _, y := range out[lo] {
					dup = dup || x == y
				}
				if !dup {
					out = append(out, append(append([]int{}, out[lo]...), x))
				}
			}
		}
	}
	return out
}

// records of the demo types: every choice of up to 3 fields, good and bad
var c20Records = map[string][]string{
	"snoopy":      {"id:5", "speed:6", `cry:"yo"`, "pack:[1 2 3]", "SpanCm:12", "chld:(hellcat id:1 speed:9)", "friends:[(hornet id:2) (snoopy id:3)]", "nosuch:1", "another:2", `id:"five"`, "pack:4"},
	"hornet":      {"id:5", "speed:6", "Mass:1.5", `Nickname:"Bee"`, "SpanCm:12", "friends:[(hornet id:2 nosuch:3)]", "nosuch:1", "another:2", `Mass:"big"`},
	"hellcat":     {"id:5", "speed:6", "SpanCm:12", "chld:(snoopy id:1)", "plane:(plane id:3)", "nosuch:1", "wings:2"},
	"weather":     {"size:12", `type:"sunny"`, `details:(raw "123")`, "nosuch:1", "size:1.5", "type:3"},
	"eventdemo":   {"id:1", `user:(persondemo first:"A" last:"B")`, `flight:"AF1"`, `pilot:["x" "y"]`, "cancelled:true", `user:(persondemo nosuch:1 other:2)`, "nosuch:1", "pilot:3"},
	"persondemo":  {`first:"A"`, `last:"B"`, "nosuch:1", "another:2", "first:1"},
	"setOfPlanes": {"flyers:[(snoopy id:1) (hornet id:2)]", "flyers:[(persondemo)]", "nosuch:1", "flyers:3"},
	"nestouter":   {`inner:(nestinner hello:"x")`, "inner:(nestinner nosuch:1 other:2)", "nosuch:3", "inner:4"},
}
var c20RecordTypes = []string{"snoopy", "hornet", "hellcat", "weather", "eventdemo", "persondemo", "setOfPlanes", "nestouter"}

var c20RecordOps = []string{"r", "(str r)", "(println r)", "(togo r)", "(begin (togo r) (togo r) r)", "(json r)", "(raw2str (json r))", "(unjson (json r))", "(unmsgpack (msgpack r))", "(togo (unjson (json r)))", "(fieldls r)", "(methodls r)", "(typelist)", "(keys r)", "(type? r)",
	`(_method r GetCry:)`, `(_method r Fly: (weather type:"calm" size:3))`, `(_method (snoopy id:1) EchoWeather: r)`, `(begin (def w (_method (snoopy id:1) EchoWeather: (weather size:4 type:"x"))) (str w))`, "(_method r Nosuch:)", "(_method r Fly:)", "(== r r)", "(begin (hset r (quote id) 77) (togo r) r)", "(range k v r (t k v))", "(hdel r (quote id))", "(fromgo r)"}

var c20RecordTexts []string

func c20RecordInit() {
	if c20RecordTexts != nil {
		return
	}
	for _, tn := range c20RecordTypes {
		fs := c20Records[tn]
		for _, p := range c20Perms(len(fs), 2) {
			var x []string
			for _, k := range p {
				x = append(x, fs[k])
			}
			rec := "(" + tn + " " + strings.Join(x, " ") + ")"
			for k, op := range c20RecordOps {
				if len(p) == 2 && p[0] > p[1] && k > 4 { // the other order of the fields: only the first operations
					break
				}
				c20RecordTexts = append(c20RecordTexts, "(def r "+rec+") "+op)
			}
		}
		// all the good fields together
		var good []string
		for _, f := range fs {
			if !strings.Contains(f, "nosuch") && !strings.Contains(f, "another") {
				k := strings.SplitN(f, ":", 2)[0] + ":"
				dup := false
				for _, g := range good {
					dup = dup || strings.HasPrefix(g, k)
				}
				if !dup {
					good = append(good, f)
				}
			}
		}
		for _, op := range c20RecordOps {
			c20RecordTexts = append(c20RecordTexts, "(def r ("+tn+" "+strings.Join(good, " ")+")) "+op)
		}
	}
}

// --- other processes, other histories

type c20Job struct {
	Demo  bool
	Fresh int      // interpreters made (and used) before anything else
	Pre   []string // programs run first
	Setup string
	Progs []string
}

func c20Child() {
	var j c20Job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		panic(err)
	}
	if j.Demo {
		zygo.RegisterDemoStructs()
	}
	for k := 0; k < j.Fresh; k++ {
		Eval(NewStd(), "(def a 1) (defn f [x] (+ x a)) (f 3)\n")
	}
	for _, p := range j.Pre {
		c20Run(j.Setup, p, c20Order{})
	}
	out := []string{}
	for _, p := range j.Progs {
		t, _ := c20Run(j.Setup, p, c20Order{})
		out = append(out, t)
	}
	json.NewEncoder(os.NewFile(3, "result")).Encode(out)
}

func c20Spawn(j c20Job) ([]string, error) {
	in, _ := json.Marshal(j)
	cmd := exec.Command(os.Args[0], "c20child")
	cmd.Stdin = bytes.NewReader(in)
	res, err := os.CreateTemp(os.Getenv("VZ_BUILD"), "child.")
	if err != nil {
		return nil, err
	}
	defer res.Close()
	os.Remove(res.Name())
	cmd.ExtraFiles = []*os.File{res}
	if b, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("%w: %s", err, clip(string(b), 300))
	}
	b := make([]byte, 0)
	if n, err := res.Seek(0, io.SeekEnd); err == nil {
		b = make([]byte, n)
		res.ReadAt(b, 0)
	}
	var out []string
	err = json.Unmarshal(b, &out)
	return out, err
}

func c20Compare(progs, a, b []string, what string, r *Rec) {
	for k := range a {
		x, y := a[k], b[k]
		if c20Ptr.MatchString(progs[k]) {
			x, y = c20Addr.ReplaceAllString(x, "@"), c20Addr.ReplaceAllString(y, "@")
		}
		r.Validated++
		if x != y {
			u, v := lineDiff(x, y)
			r.Violate("depends on the process: "+c20Sig(x, y), progs[k], fmt.Sprintf("%s\none: %s\nother: %s", what, clip(u, 300), clip(v, 300)))
			return
		}
	}
}

// usable leaves out the programs that may differ from one run to the next.
func c20Usable(in []string) (out []string) {
	for _, s := range in {
		if !c20Excluded(s) {
			out = append(out, s)
		}
	}
	return
}

// every program alone in a process of its own, twice, and among others
func c20Alone(name string, setup string, progs []string) *Space {
	progs = c20Usable(progs)
	return &Space{Name: name, Size: uint64(len(progs)), Bound: fmt.Sprintf("%d programs, each first in 2 processes and after 60 interpreters in a third", len(progs)),
		Run: func(i uint64, r *Rec) {
			p := progs[i : i+1]
			a, e1 := c20Spawn(c20Job{Setup: setup, Progs: p})
			b, e2 := c20Spawn(c20Job{Setup: setup, Progs: p})
			c, e3 := c20Spawn(c20Job{Setup: setup, Progs: p, Fresh: 60})
			if e1 != nil || e2 != nil || e3 != nil {
				r.Count("children_failed", 1)
				if (e1 == nil) != (e2 == nil) {
					r.Violate("depends on the process: only one run ends", p[0], fmt.Sprint(e1, e2))
				}
				return
			}
			c20Compare(p, a, b, "two processes", r)
			c20Compare(p, a, c, "first, after 60 interpreters", r)
			if i%97 == 5 {
				r.Sample(p[0])
			}
		},
		Desc: func(i uint64) string { return progs[i] }}
}

// every program after another one: in the process of case i program i runs
// first (in an interpreter of its own), then all of them
func c20Histories(name, setup string, pre, progs []string) *Space {
	pre, progs = c20Usable(pre), c20Usable(progs)
	var ref []string
	return &Space{Name: name, Size: uint64(len(pre)), Bound: fmt.Sprintf("%d programs after each of %d, in a process", len(progs), len(pre)), HangS: 120,
		Run: func(i uint64, r *Rec) {
			if ref == nil {
				var err error
				if ref, err = c20Spawn(c20Job{Setup: setup, Progs: progs}); err != nil {
					panic(err)
				}
			}
			got, err := c20Spawn(c20Job{Setup: setup, Pre: pre[i : i+1], Progs: progs})
			if err != nil {
				r.Violate("depends on the process: a program ends it", pre[i], err.Error())
				return
			}
			r.Trans += uint64(len(progs))
			for k := range progs {
				if ref[k] != got[k] {
					c20Compare(progs[k:k+1], ref[k:k+1], got[k:k+1], "without, and after an interpreter that ran: "+clip(pre[i], 300), r)
				}
			}
			r.Validated += uint64(len(progs))
			if i%41 == 5 {
				r.Sample(pre[i] + " ... then " + progs[i%uint64(len(progs))])
			}
		},
		Desc: func(i uint64) string { return pre[i] + " ... then the others" }}
}

// the files of the corpus, whole, in a scratch copy of the tests
var c20FileSkip = regexp.MustCompile(`random|\bnow\b|timeit|owrit|slurp|writef|\bsystem\b|\(sys\b|bsave|bload|\bsave\b|greenpack|setenv|\bexit\b|\bgo\b|makeChan|coroutine|millis|_ls|closdump|dump|%p|Sideeffect|rmsym`)

func c20Files(orders []c20Order) *Space {
	names, texts := corpusFiles()
	var n2, t2 []string
	for i := range names {
		if !c20FileSkip.MatchString(texts[i]) && strings.HasSuffix(names[i], ".zy") {
			n2, t2 = append(n2, names[i]), append(t2, texts[i])
		}
	}
	run := func(src string, ord c20Order) string {
		mapOrder, mapStep = ord.start, ord.step
		defer func() { mapOrder, mapStep = 0, 0 }()
		var o Out
		out := c20Capture(func() {
			env := NewStd()
			env.ImportDemoData()
			o = Eval(env, src+"\n")
		})
		return o.Kind + ": " + o.S + "\n" + out
	}
	return &Space{Name: "files", Size: uint64(len(n2)), Bound: fmt.Sprintf("%d files of tests/ x %d orders of map iteration", len(n2), len(orders)), HangS: 120,
		Init: func() {
			c20Init()
			zygo.RegisterDemoStructs()
			os.Chdir(filepath.Join(os.Getenv("VZ_REPO"))) // the excluded files are the ones that write
		},
		Run: func(i uint64, r *Rec) {
			first := run(t2[i], orders[0])
			r.State(clip(first, 8))
			if i%7 == 3 {
				r.Sample(n2[i] + " => " + clip(first, 200))
			}
			ptr := c20Ptr.MatchString(t2[i])
			for _, ord := range orders[1:] {
				again := run(t2[i], ord)
				r.Validated++
				x, y := first, again
				if ptr {
					x, y = c20Addr.ReplaceAllString(x, "@"), c20Addr.ReplaceAllString(y, "@")
				}
				if x != y {
					a, b := lineDiff(x, y)
					r.Violate(c20Sig(x, y), n2[i], fmt.Sprintf("map order %v: %s\nmap order %v: %s", orders[0], clip(a, 300), ord, clip(b, 300)))
					return
				}
			}
		},
		Desc: func(i uint64) string { return n2[i] }}
}

// the zygo command: what it prints and how it ends
func c20Command(setup string, progs []string) *Space {
	progs = c20Usable(progs)
	run := func(s string) string {
		ctx, stop := context.WithTimeout(context.Background(), 20*time.Second)
		defer stop()
		cmd := exec.CommandContext(ctx, zygoBin(), "-quiet", "-no-liner")
		cmd.Dir = scratch()
		cmd.Env = []string{"HOME=" + scratch(), "PATH=/nonexistent"}
		cmd.Stdin = strings.NewReader(setup + "\n" + s + "\n")
		b, err := cmd.CombinedOutput()
		return string(b) + fmt.Sprint(err)
	}
	return &Space{Name: "command", Size: uint64(len(progs)), Bound: fmt.Sprintf("%d programs typed to two zygo commands", len(progs)), HangS: 60,
		Run: func(i uint64, r *Rec) {
			a, b := run(progs[i]), run(progs[i])
			if i%50 == 3 {
				r.Sample(progs[i] + " => " + clip(a, 200))
			}
			c20Compare(progs[i:i+1], []string{a}, []string{b}, "two commands", r)
		},
		Desc: func(i uint64) string { return progs[i] }}
}

func init() {
	tools["c20child"] = c20Child
	register(&PropDef{ID: "C20",
		Assume: []string{
			"a map with more than 8 entries is iterated from 8 places of each table, under the hash seed of the process (the spaces with processes of their own have others)",
			"the random, time and pointer-printing functions are left out; where a program makes a pointer, addresses are compared masked",
			"programs that run goroutines, files that write files, and programs that need more than 20000 steps are left out",
		},
		Spaces: func(tier string) []*Space {
			initHeads()
			heads := append(append([]string{}, c01Heads...), "println", "print", "printf", "typelist", "getenv", "fieldls", "methodls", "_ls", "_closdump", "dump", "close")
			few := []c20Order{{1, 0}, {4, 0}, {1, 1}}
			two := []c20Order{{2, 0}, {5, 1}}
			c20RecordInit()
			perms := c20Perms(len(c20Members), 3)
			decode := func(i uint64) string {
				p := perms[i/uint64(len(c20DecodeOps))]
				var m []string
				for _, k := range p {
					m = append(m, c20Members[k])
				}
				return fmt.Sprintf(c20DecodeOps[i%uint64(len(c20DecodeOps))], "(unjson (raw "+fmt.Sprintf("%q", "{"+strings.Join(m, ",")+"}")+"))")
			}
			demo := func(s *Space) *Space {
				old := s.Init
				s.Init = func() { old(); zygo.RegisterDemoStructs() }
				return s
			}
			demoSetup := ""
			ref1 := catForms
			var calls []string
			for _, h := range heads {
				calls = append(calls, "("+h+")", "("+h+" 1 2)")
			}
			ctxN, call2 := few, two
			if tier != "quick" {
				ctxN, call2 = c20Orders, few
			}
			out := []*Space{
				c20Space("catalogue", fmt.Sprintf("%d forms", len(catForms)), catSetup, len(catForms), func(i uint64) string { return catForms[i] }, c20Orders),
				c20Space("catalogue-1", fmt.Sprintf("%d forms in %d contexts", len(catForms), len(catContexts)), catSetup, len(catForms)*len(catContexts), func(i uint64) string { return catText(1, i) }, ctxN),
				c20Space("calls-1", fmt.Sprintf("%d names x %d arguments", len(heads), len(c01Pool)), c01Setup, len(heads)*len(c01Pool), func(i uint64) string {
					return "(" + heads[i/uint64(len(c01Pool))] + " " + c01Pool[i%uint64(len(c01Pool))] + ")"
				}, few),
				c20Space("calls-2", fmt.Sprintf("%d names x %d x %d arguments", len(heads), len(c01Small), len(c01Small)), c01Setup, len(heads)*len(c01Small)*len(c01Small), func(i uint64) string {
					n := uint64(len(c01Small))
					return "(" + heads[i/n/n] + " " + c01Small[i/n%n] + " " + c01Small[i%n] + ")"
				}, call2),
				c20Space("hashes", fmt.Sprintf("%d operations on hashes of %d sizes, 4 kinds of keys", len(c20Ops), len(c20Counts)), "", len(c20Ops)*len(c20Counts)*len(c20Kinds), c20HashText, c20Orders),
				demo(c20Space("decoded", fmt.Sprintf("%d operations on every sequence of up to 3 of %d members of a JSON object", len(c20DecodeOps), len(c20Members)), "", len(perms)*len(c20DecodeOps), decode, c20Orders[:10])),
				demo(c20Space("records", fmt.Sprintf("%d operations on records of %d demo types with up to 2 of their fields, or all", len(c20RecordOps), len(c20RecordTypes)), demoSetup, len(c20RecordTexts), func(i uint64) string { return c20RecordTexts[i] }, c20Orders[:11])),
				c20Files(c20Orders),
				c20Alone("processes", catSetup, ref1),
				c20Histories("histories", catSetup, catForms, catForms),
				c20Histories("histories-calls", c01Setup, calls, catForms[:60]),
				c20Command(catSetup, catForms),
			}
			return out
		}})
}
