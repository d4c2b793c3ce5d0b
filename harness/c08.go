package main

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	_ "unsafe"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C08: a sandboxed interpreter cannot reach the outside world.
//
// The harness of this check is built with an overlay of Go's syscall and os
// packages (see run.sh). While a script runs, every system call except the ones
// that write what was printed (and the ones of Go's own runtime, which do not
// pass there), every use of the environment and every exit is recorded and
// refused: nothing happens, and whatever reaches for the outside world is seen,
// whatever path, command or name it used. The sandboxed zygo command is run as
// it is, without privileges in a scratch directory, and is watched from outside.

//go:linkname sysWatch syscall.VerifWatch
var sysWatch uint64

//go:linkname sysAllowed syscall.VerifAllowed
var sysAllowed [16]uint64

//go:linkname sysSeen syscall.VerifSeen
var sysSeen [64]uint64

//go:linkname sysN syscall.VerifN
var sysN uint64

var sysNames = map[uint64]string{
	0: "read", 2: "open", 3: "close", 4: "stat", 5: "fstat", 6: "lstat", 21: "access", 41: "socket", 42: "connect", 56: "clone", 57: "fork", 58: "vfork", 59: "execve", 62: "kill",
	80: "chdir", 82: "rename", 83: "mkdir", 84: "rmdir", 85: "creat", 86: "link", 87: "unlink", 88: "symlink", 89: "readlink", 90: "chmod", 217: "getdents64", 257: "openat", 258: "mkdirat",
	262: "newfstatat", 263: "unlinkat", 264: "renameat", 268: "fchmodat", 269: "faccessat", 293: "pipe2", 302: "prlimit", 332: "statx", 435: "clone3", 439: "faccessat2",
	1000: "exit", 1001: "Getenv", 1002: "Setenv", 1003: "Unsetenv", 1004: "Clearenv", 1005: "Environ",
}

// sysWatched runs f and gives the names of what it reached for.
func sysWatched(f func()) []string {
	n := sysN
	sysWatch = 1
	func() {
		defer func() { sysWatch = 0 }()
		f()
	}()
	seen := map[string]bool{}
	var out []string
	for k := n; k < sysN; k++ {
		t := sysSeen[k&63]
		s := sysNames[t]
		if s == "" {
			s = fmt.Sprintf("system call %d", t)
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

var c08Inited bool

func c08Init() {
	if c08Inited {
		return
	}
	c08Inited = true
	_ = time.Now().Local().String() // reads the time zone
	for _, t := range []uint64{1, 18, 20, 8, 72, 98, 228, 318, 202, 24, 230, 35} {
		// write pwrite64 writev lseek fcntl getrusage clock_gettime getrandom futex sched_yield clock_nanosleep nanosleep
		sysAllowed[t>>6] |= 1 << (t & 63)
	}
	// the overlay must be in place, and refuse
	for what, f := range map[string]func(){
		"newfstatat": func() { os.Stat("/") },
		"openat":     func() { os.ReadFile("/etc/hostname") },
		"Getenv":     func() { os.Getenv("HOME") },
		"Setenv":     func() { os.Setenv("VZ_NOT_SET", "1") },
		"pipe2":      func() { syscall.ForkExec("/bin/true", []string{"true"}, nil) },
		"exit": func() {
			defer func() { recover() }()
			os.Exit(9)
		},
	} {
		if got := sysWatched(f); !strings.Contains(strings.Join(got, " "), what) {
			panic("c08: " + what + " is not watched, only: " + strings.Join(got, " "))
		}
	}
	if os.Getenv("VZ_NOT_SET") != "" {
		panic("c08: not refused")
	}
	if got := sysWatched(func() { fmt.Fprint(os.Stderr, "") }); len(got) != 0 {
		panic("c08: printing is not allowed: " + strings.Join(got, " "))
	}
}

var c08Configs = []string{"sandbox", "sandbox with standard setup", "a clone of it", "a duplicate of it"}

func c08Env(cfg uint64) *zygo.Zlisp {
	e := zygo.NewZlispSandbox()
	if cfg > 0 {
		e.StandardSetup()
	}
	switch cfg {
	case 2:
		e = e.Clone()
	case 3:
		e = e.Duplicate()
	}
	return e
}

const c08Setup = `(def h (hash k:1)) (def a [1 2 3]) (defn f1 [x] x) (def s "@P")
`

func c08Check(cfg uint64, setup, input string, r *Rec) {
	setup, src := c08Fill(setup), c08Fill(input)
	var o Out
	var reached []string
	text := ""
	out := c20Capture(func() {
		env := c08Env(cfg)
		if setup != "" {
			Eval(env, setup)
		}
		reached = sysWatched(func() {
			o = EvalB(env, src+"\n", 20000)
			if o.Kind == "val" {
				guard(defBudget, func() (zygo.Sexp, error) { text = o.V.SexpString(nil); return zygo.SexpNull, nil })
			}
		})
	})
	r.Validated++
	r.State(o.Kind)
	if len(reached) > 0 {
		r.Violate("reaches the outside: "+strings.Join(reached, " "), input, fmt.Sprintf("in %s: %s (outcome %s: %s)", c08Configs[cfg], strings.Join(reached, ", "), o.Kind, clip(o.S, 200)))
		return
	}
	for _, c := range []string{c08Content, c08EnvValue} {
		for _, shown := range []string{out, text, o.S} {
			if strings.Contains(shown, c) && !strings.Contains(src, c) {
				r.Violate("shows what is outside", input, fmt.Sprintf("in %s: shows %q", c08Configs[cfg], c))
				return
			}
		}
	}
}

const (
	c08Content  = "canary-in-the-file"
	c08EnvValue = "canary-in-the-environment"
)

// arguments; @P is a file that exists, @N one that does not, @D a directory
var c08Args = []string{`"@P"`, `"@N"`, `"@D"`, `"echo canary > @N"`, `["cat" "@P"]`, `"VZ_CANARY"`, `"VZ_CANARY=changed"`, "0", "7", "(list \"@P\")", "@P", "h", "(quote VZ_CANARY)", `(raw "@P")`, "f1", "", "k:", "VZ_CANARY", `[[["@P"]]]`, "a"}

// pairs of arguments that mean something to somebody
var c08Pairs = []string{`"@P" "@N"`, `"text" "@N"`, `h "@N"`, `"VZ_CANARY" "changed"`, `"cat" "@P"`, `p "@P"`, `. "@P"`, `"@P" 1`, `"r" "@P"`, `"w" "@N"`, `(quote x) "@P"`, `["text"] "@N"`, `"@N" "text"`}

// ways for a name to be called with arguments
var c08Routes = []string{
	"(def zz NAME) (zz ARGS)", "(let [zz NAME] (zz ARGS))", "(apply NAME [ARGS])", "(map NAME [ARGS])", "(eval (quote (NAME ARGS)))", "(eval (list (quote NAME) ARGS))", "(eval (append [(quote NAME)] ARGS))",
	"(eval (read \"(NAME 1)\"))", "(eval (read (str \"(\" \"NAME \" (quote \"@P\") \")\")))", "((fn [] (NAME ARGS)))", "(defn ff [] (NAME ARGS)) (ff)", "(defmac mm [] (quote (NAME ARGS))) (mm)", "(defmac mm [] ^(NAME ARGS)) (mm)",
	"(defmac mm [] (NAME ARGS) 1) (mm)", "(macexpand (NAME ARGS))", "(def hh (hash f: NAME)) (hh.f ARGS)", "(package \"pp\" (def X (NAME ARGS)))", "((eval (str2sym \"NAME\")) ARGS)", "(apply (str2sym \"NAME\") [ARGS])", "(defn lz [~x] (force x)) (lz (NAME ARGS))",
	"(defn ls [~x] (eval (substitute x))) (ls (NAME ARGS))", "(begin (NAME ARGS))", "[(NAME ARGS)]", "(hash x:(NAME ARGS))", "(cond (NAME ARGS) 1 2)", "(and true (NAME ARGS))", "(for [(NAME ARGS) false 1] 1)", "(f1 (NAME ARGS))", "^(1 ~(NAME ARGS))", "^[~@(NAME ARGS)]",
	"{NAME ARGS}", "(infix [NAME ARGS])", "(infix [NAME(ARGS)])", "(assert (NAME ARGS))", "(newScope (NAME ARGS))", "(return (NAME ARGS))", "(defn g [& r] (apply NAME r)) (g ARGS)", "(def [n1] NAME) (n1 ARGS)", "(mdef n1 n2 (list NAME 1)) (n1 ARGS)", "(set zz NAME) (zz ARGS)",
	"(def pz (& NAME)) ((* pz) ARGS)", "(expectError \"x\" (NAME ARGS))", "(-> h (NAME ARGS))", "(str (NAME ARGS))", "(println (NAME ARGS))", "(defbuild bb NAME) (bb ARGS)", "(func ff [] [r:int64] (return (NAME ARGS))) (ff)", "(var v int64) (set v (NAME ARGS))", "(aget [NAME] 0 ARGS)", "((aget [NAME] 0) ARGS)", "((first (list NAME)) ARGS)",
	"(range i v [(NAME ARGS)] 1)", "(++ (NAME ARGS))", "(syntaxQuote (unquote (NAME ARGS)))", "NAME", "(quote (NAME ARGS))", "(str NAME)", "(println NAME)", "(json NAME)", "(== NAME NAME)", "(type? NAME)", "(let [NAME f1] (NAME ARGS))",
}

var c08Dir string

func c08Fill(s string) string {
	return strings.NewReplacer("@P", c08Dir+"/canary.zy", "@N", c08Dir+"/new.txt", "@D", c08Dir).Replace(s)
}

func c08MakeDir() {
	if c08Dir == "" {
		d, err := os.MkdirTemp(os.Getenv("VZ_BUILD"), "canary.")
		if err != nil {
			panic(err)
		}
		c08Dir = d
		os.WriteFile(d+"/canary.zy", []byte(`(def canary "`+c08Content+`")`+"\n"), 0o644)
	}
}

var c08NamesList, c08WordsList []string

// every name a script could mean: bound in any interpreter, reserved, or
// written in the interpreter's own source (where a special form has its name)
func c08Names() (names, words []string) {
	if c08NamesList != nil {
		return c08NamesList, c08WordsList
	}
	seen := map[string]bool{}
	add := func(l *[]string, s string) {
		if s != "" && !seen[s] {
			seen[s] = true
			*l = append(*l, s)
		}
	}
	var lists [][]string
	for cfg := uint64(0); cfg < 2; cfg++ {
		lists = append(lists, c08Env(cfg).VerifGlobals())
	}
	lists = append(lists, NewStd().VerifGlobals())
	for n := range zygo.AllBuiltinFunctions() {
		lists = append(lists, []string{n})
	}
	lists = append(lists, zygo.ReservedWords, []string{"include", "req", "source", "import", "sys", "load", "open", "_ls", "debug", "slurp", "run", "exec", "shell", "sh", "cd", "quit", ".quit", ".cd", ".dump", ".ls", ".gls"})
	for _, l := range lists {
		for _, n := range l {
			if !strings.ContainsAny(n, "()[]{}\"' ~^;,`%") && !strings.HasPrefix(n, "__gensym") {
				add(&names, n)
			}
		}
	}
	sort.Strings(names)
	word := regexp.MustCompile(`^[.#_a-zA-Z][-_.?!a-zA-Z0-9]{0,24}$`)
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("VZ_REPO"), "zygo", "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		t, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(t, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
				if s, err := strconv.Unquote(l.Value); err == nil && word.MatchString(s) {
					add(&words, s)
				}
			}
			return true
		})
	}
	sort.Strings(words)
	c08NamesList, c08WordsList = names, words
	return
}

// blocking operations, ones that ask for more memory than there is, and the one that stops the interpreter's parser
var c08Blocking = regexp.MustCompile(`\((<!|send|select|stop)\b|<!|make(Array|Chan) \((millis|now)`)

func c08Space(name, bound, setup string, n int, cfgs []uint64, src func(i uint64) string) *Space {
	nc := uint64(len(cfgs))
	return &Space{Name: name, Size: uint64(n) * nc, Bound: fmt.Sprintf("%s in %d configurations", bound, nc), Init: c08Init,
		Run: func(i uint64, r *Rec) {
			c08MakeDir()
			s := src(i / nc)
			if c08Blocking.MatchString(s) {
				r.Count("excluded", 1)
				return
			}
			c08Check(cfgs[i%nc], setup, s, r)
			if i%4001 == 7 {
				r.Sample(s)
			}
		},
		Desc: func(i uint64) string { return c08Configs[cfgs[i%nc]] + ": " + src(i/nc) },
	}
}

// --- the command

var c08Commands = [][]string{{"-sandbox", "-quiet", "-no-liner"}, {"-sandbox", "-no-liner"}, {"-sandbox", "-quiet", "-no-liner", "-demo"}, {"-sandbox", "-quiet", "-no-liner", "-countcalls"}, {"-sandbox", "-c"}}

// one run of the sandboxed command: the lines are typed, each followed by one
// that shows that the command is still there
func c08Command(flags []string, lines []string, files bool, r *Rec, input string) {
	base := os.Getenv("VZ_BUILD")
	d, err := os.MkdirTemp(base, "cmd.")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	c08Dir = d
	defer func() { c08Dir = "" }()
	os.Chmod(d, 0o777)
	body := `(def canary "` + c08Content + `")` + "\n"
	os.WriteFile(d+"/canary.zy", []byte(body), 0o666)
	os.Chmod(d+"/canary.zy", 0o666)
	run := func(l []string) (string, error) {
		var in bytes.Buffer
		for k, s := range l {
			in.WriteString(c08Fill(s) + "\n")
			fmt.Fprintf(&in, "(println (concat \"still \" \"%d\" \" here\"))\n", k)
		}
		ctx, stop := context.WithTimeout(context.Background(), 30*time.Second)
		defer stop()
		args := flags
		cmd := exec.CommandContext(ctx, zygoBin(), args...)
		cmd.Dir = d
		cmd.Env = []string{"HOME=" + d, "PATH=/usr/bin:/bin", "VZ_CANARY=" + c08EnvValue}
		cmd.Stdin = &in
		if c08CanDrop {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		}
		b, err := cmd.CombinedOutput()
		return string(b), err
	}
	broken := func(l []string) string {
		out, err := run(l)
		r.Validated++
		if strings.Contains(out, c08Content) {
			return "shows the content of a file"
		}
		if strings.Contains(out, c08EnvValue) {
			return "shows an environment variable"
		}
		if b, err := os.ReadFile(d + "/canary.zy"); err != nil || string(b) != body {
			return "changes a file"
		}
		if es, _ := os.ReadDir(d); len(es) != 1 {
			return "makes a file"
		}
		if err != nil {
			if _, exited := err.(*exec.ExitError); exited || l == nil {
				return "ends the command: " + err.Error()
			}
			r.Count("command_failed", 1)
			return ""
		}
		if k := len(l) - 1; k >= 0 && !strings.Contains(out, fmt.Sprintf("still %d here", k)) {
			return "ends the command before its input does"
		}
		return ""
	}
	if flags[len(flags)-1] == "-c" {
		// the text of a command line, one at a time; the command ends by itself
		for _, l := range lines {
			old := flags
			flags = append(append([]string{}, old...), c08Fill(l))
			v := broken(nil)
			flags = old
			if v != "" && !strings.HasPrefix(v, "ends") {
				r.Violate("the command "+v, strings.Join(flags, " ")+": "+l, "given to zygo "+strings.Join(flags, " "))
				return
			}
		}
		return
	}
	w := broken(lines)
	if w == "" {
		return
	}
	for _, l := range lines {
		if v := broken([]string{l}); v != "" {
			r.Violate("the command "+v, strings.Join(flags, " ")+": "+l, "typed to zygo "+strings.Join(flags, " "))
			return
		}
	}
	r.Violate("the command "+w, input, "typed to zygo "+strings.Join(flags, " ")+": "+clip(strings.Join(lines, " "), 300))
}

// c08CanDrop tells whether the command can be run without privileges.
var c08CanDrop bool

func c08TryDrop() {
	if os.Getuid() != 0 {
		return
	}
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	c08CanDrop = cmd.Run() == nil
}

func c08CommandSpace() *Space {
	names, _ := c08Names()
	var heads []string
	for _, n := range names {
		if !c08Blocking.MatchString("(" + n) {
			heads = append(heads, n)
		}
	}
	n := len(heads) + 1
	lines := func(i uint64) []string {
		if i == 0 { // what the interactive loop itself understands
			return []string{".cd @D", ".cd /", ".quit", ".dump", ".ls", ".gls", ".verb", ".debug", ".undebug", ".load @P", ".source @P", "!echo canary > @N", "#include @P", ".include @P", ". @P", ".exit", ".q", "quit", "exit", ":q", ".sh echo canary", "@P", "< @P", "> @N", "$VZ_CANARY", "`cat @P`"}
		}
		nm := heads[i-1]
		var out []string
		for _, a := range append(append([]string{}, c08Args...), c08Pairs...) {
			if a == "@P" && nm != "req" && nm != "import" {
				continue
			}
			out = append(out, "("+nm+" "+a+")")
		}
		out = append(out, "(def zz "+nm+") (zz \"@P\")", "(apply "+nm+" [\"@P\"])", "(eval (quote ("+nm+" \"@P\")))")
		return out
	}
	return &Space{Name: "command", Size: uint64(n * len(c08Commands)), HangS: 120,
		Bound: fmt.Sprintf("%d names, and the commands of the interactive loop, with %d arguments typed to the command with %d sets of flags", len(heads), len(c08Args)+len(c08Pairs)+3, len(c08Commands)),
		Init: func() {
			c08Init()
			c08TryDrop()
		},
		Run: func(i uint64, r *Rec) {
			k := i % uint64(n)
			c08Command(c08Commands[i/uint64(n)], lines(k), false, r, fmt.Sprint(lines(k)[0]))
			if i%67 == 3 {
				r.Sample(fmt.Sprint(c08Commands[i/uint64(n)], lines(k)[0]))
			}
		},
		Desc: func(i uint64) string { return strings.Join(lines(i%uint64(n)), "\n") }}
}

func init() {
	register(&PropDef{ID: "C08",
		Assume: []string{
			"in one process: effects pass through Go's os and syscall packages, whose system calls, environment and exit are watched (and refused) while a script runs; code that called the kernel without them would be seen only by the check of the command",
			"the host registers nothing of its own in the sandboxed interpreter; blocking channel operations are left out",
		},
		Spaces: func(tier string) []*Space {
			names, words := c08Names()
			initHeads()
			nN, nA, nR := len(names), len(c08Args), len(c08Routes)
			std := []uint64{1}
			all := []uint64{0, 1, 2, 3}
			single := append(append([]string{}, c08Args...), c08Pairs...)
			routeArgs := []string{`"@P"`, `"@N"`, `"echo canary > @N"`, `"VZ_CANARY"`, `"text" "@N"`, "7", `"VZ_CANARY" "changed"`, ""}
			pairCfg, routeCfg := std, []uint64{0, 1}
			if tier != "quick" {
				routeCfg, pairCfg = all, []uint64{0, 1}
			}
			return []*Space{
				c08Space("names", fmt.Sprintf("%d names x %d arguments and pairs", nN, len(single)), c08Setup, nN*len(single), all, func(i uint64) string {
					return "(" + names[i/uint64(len(single))] + " " + single[i%uint64(len(single))] + ")"
				}),
				c08Space("names-2", fmt.Sprintf("%d names x %d x %d arguments", nN, nA, nA), c08Setup, nN*nA*nA, pairCfg, func(i uint64) string {
					n := uint64(nA)
					return "(" + names[i/n/n] + " " + c08Args[i/n%n] + " " + c08Args[i%n] + ")"
				}),
				c08Space("words", fmt.Sprintf("%d words of the interpreter's source x %d arguments", len(words), len(single)), "", len(words)*len(single), std, func(i uint64) string {
					return "(" + words[i/uint64(len(single))] + " " + single[i%uint64(len(single))] + ")"
				}),
				c08Space("routes", fmt.Sprintf("%d names x %d routes x %d arguments", nN, nR, len(routeArgs)), c08Setup, nN*nR*len(routeArgs), routeCfg, func(i uint64) string {
					n := names[i/uint64(len(routeArgs))/uint64(nR)]
					t := c08Routes[i/uint64(len(routeArgs))%uint64(nR)]
					return strings.NewReplacer("NAME", n, "ARGS", routeArgs[i%uint64(len(routeArgs))]).Replace(t)
				}),
				c08Space("compositions", fmt.Sprintf("%d x %d names", nN, nN), "", nN*nN, pairCfg, func(i uint64) string {
					return "(" + names[i/uint64(nN)] + " (" + names[i%uint64(nN)] + ` "@P"))`
				}),
				c08Space("catalogue", fmt.Sprintf("%d forms in %d contexts", len(catForms), len(catContexts)), catSetup, len(catForms)*len(catContexts), []uint64{1}, func(i uint64) string { return catText(1, i) }),
				c08Space("calls", fmt.Sprintf("%d names x %d arguments", len(c01Heads), len(c01Pool)), c01Setup, len(c01Heads)*len(c01Pool), []uint64{1}, func(i uint64) string {
					return "(" + c01Heads[i/uint64(len(c01Pool))] + " " + c01Pool[i%uint64(len(c01Pool))] + ")"
				}),
				c08CommandSpace(),
			}
		}})
}
