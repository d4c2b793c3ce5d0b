package main

// The catalogue: one or more self-contained uses of every special form,
// builder, declaration and builtin of the full language, given catSetup.

const catSetup = `(def x 1) (def y 2) (def a [10 20 30]) (def h (hash k: 1 j: [4 5])) (def l (list 1 2 3))
(defn f1 [p] (+ p 1)) (defn f2 [p q] (list p q)) (defn va [p & q] (list p q)) (defn lz [#p] (list (force #p) (force #p)))
(struct P0 [(field a: int64) (field s: string)]) (def r0 (P0 a: 7 s: "q")) (struct Q0 [(field p: P0)])
(defmac m1 [e] ^(+ 1 ~e)) (defmac m2 [& e] ^(begin ~@e)) (def pk0 (package "pk0" (def V 5) (defn F [z] (+ V z))))
(def px (& x)) (func tf [a:int64 b:int64] [n:int64] (+ a b)) (def hx (hash 1 2)) (var vi int64)
`

var catForms = []string{
	// values, definition, assignment
	"1", "nil", "x", "a", "(+ x y)", "(def z 3)", "(def x 4)", "(set x 5)", "(set y (+ y 1))", "(z = 6)", "(z := 7)", "(x = 8)",
	"(mdef p q [1 2])", "(mdef p q (list 1 2))", "{z = 9}", "{z := 1; w := 2}", "{p, q = 3, 4}", "(p q = 5 6)", "(def (quote z) 3)",
	"(= z 1)", "(def pr (quote (a . b)))",
	// element and member assignment
	"(a[0] = 5)", "{a[1] = 6}", "{a[0], a[1] = 1, 2}", "{h.k = 5}", "(h.k = 6)", "{h[%k] = 7}", "(aset a 0 9)", "(hset h (quote n) 3)", "(hdel h (quote k))", "{r0.a = 8}", "{h.j[0] = 9}",
	"(aset a 7 1)", "{x++}", "{x--}", "{x += 2}", "{x -= 2}", "(++ x)", "(+= x 4)", "(set h.k 4)", "(def h.k 4)",
	// access
	"(aget a 1)", "(a 1)", "(:1 a)", "(:k h)", "(hget h (quote k))", "(hget h (quote nope) 5)", "h.k", "h.j", "{a[1]}", "{a[1:2]}", "{h.j[0]}", "(hpair h 0)", "(keys h)", "(len h)", "(first l)", "(rest l)", "(slice a 0 2)", "r0.a", "(:a r0)", "{f1(3)}", "(pk0.F 1)", "pk0.V",
	// control
	"(cond true 1 2)", "(cond false 1 nil 2 3)", "(cond false (f1 1) (f1 2))", "(and 1 2)", "(and nil 2)", "(or nil nil)", "(or 1 2)", "(begin)", "(begin 1 2)", "(begin (def z 1))", "(newScope 1 2)", "(newScope)", "(newScope (def x 1))", "(let [x 9] x)", "(let [x 9 z x] z)", "(letseq [z 9 w z] w)", "(let [] 5)",
	"(for [(def i 0) (< i 3) (def i (+ i 1))] i)", "(for [(def i 0) (< i 0) (def i (+ i 1))] i)", "(for [(def i 0) true (def i (+ i 1))] (break))", "(for lab: [(def i 0) (< i 3) (set i (+ i 1))] (let [q i] (continue lab:)))", "(for [(def i 0) (< i 2) (def i (+ i 1))] (for [(def j 0) (< j 2) (def j (+ j 1))] (cond (== j 1) (break) j)))",
	"(for [nil (< x 3) (set x (+ x 1))])", "(range k v h (def z v))", "(range k v a (set x v))", "{for i := 0; i < 3; i++ { x = i }}", "{for k, v := range h { z := v }}", "{for k := range a { z := k }}", "{for p, q = range a { x = q }}", "{for { break }}", "{for x < 4 { x = x + 1; continue }}", "{if x == 1 {5} else {6}}", "{if x == 1 {5}}",
	"(assert true)", "(assert (== x x))", "(return 5)", "(return 5 6)", "(return)", "(quote (p q))", "(quote x)", "%x", "(return (f1 2))",
	// functions
	"(fn [z] z)", "((fn [z] (+ z x)) 3)", "(defn g [z] z)", "(begin (defn g [z] (* z 2)) (g 4))", "(defn g [] (return 3))", "(begin (defn g [z] (return z 2)) (g 1))", "(f1 3)", "(f2 (f1 1) (f1 2))", "(va 1 2 3)", "(va 1)", "(lz (f1 x))", "(apply f2 [1 2])", "(apply f2 (list 1 2))", "(map f1 a)", "(map f1 l)", "(map (fn [z] (let [w z] (+ w x))) a)", "(begin (defn fact [n] (cond (== n 0) 1 (* n (fact (- n 1))))) (fact 4))", "(begin (defn cnt [n] (cond (== n 0) x (let [m (- n 1)] (cnt m)))) (cnt 4))", "(-> h :k)", "(force 3)", "(substitute 4)",
	"(func gg [a:int64] [n:int64] (+ a 1))", "(begin (func gg [a:int64] [n:int64] (+ a 1)) (gg 3))", "(tf 1 2)", "(tf b: 1 a: 2)", "(func [a:int64] [n:int64] (+ a 1))", "(func gd [a:int64] [n:int64 err:error])", "((func [a:int64] [n:int64] (* a 2)) 4)", "(method [(p *P0)] Mth [] [s: string] \"x\")", "(interface If0 [(func dd [a:int64] [n:int64])])",
	// macros, eval, templates
	"(defmac mm [e] ^(* 2 ~e))", "(begin (defmac mm [e] ^(* 2 ~e)) (mm 4))", "(m1 x)", "(m2 1 2 3)", "(m2 (def z 1) z)", "(macexpand (m1 4))", "^(1 ~x [~y] ~@l)", "^(1 {k ~x})", "(syntaxQuote (1 (unquote x)))", "(eval (quote (+ x 1)))", "(eval (quote (def z 4)))", "(eval (quote (begin 1 2)))", "(eval (list (quote f1) 3))", "(eval (read \"(+ 1 x)\"))", "(read \"(p q)\")", "(eval 5)", "(infixExpand {x + 1})", "{x + 1; y + 2}", "{}", "{x\ny}", "(infix [x + 3])",
	// declarations
	"(struct S1 [(field a: int64)])", "(begin (struct S1 [(field a: int64)]) (S1 a: 3))", "(struct S2 [])", "(P0 a: 1)", "(P0)", "(Q0 p: (P0 a: 2))", "(hash)", "(hash p: 1 q: 2)", "{r = (P0 a: 3); r.a}", "(var v1 int64)", "(var v2 P0)", "(var v3 ([] int64))", "(var v4 (* P0))", "(field a: int64)", "(& x)", "(& r0)", "(* px)", "(derefSet px 6)", "(deref px)", "(derefSet (& r0) (P0 a: 4))", "(sliceOf int64)", "(ptr int64)", "([] int64)", "([3] int64)", "(* P0)",
	"(package \"pp\" (def A 1) (defn B [] A))", "(def pk1 (package \"pk1\" (def A 1) A))", "(package \"pe\" 1)", "(def pn (package \"pn\" (def In (package \"in\" (def Z 4)))))", "(begin (def pk2 (package \"pk2\" { World := \"w\"; (defn Fn [z] (concat World z)) })) (pk2.Fn \"s\"))",
	"(expectError \"Error calling 'f1': f1 expected 1 argument(s), got 0\" (f1))", "(defmap mp)", "(declare-msgpack-map dm0)", "(raw64 \"QQ==\")", "(comma 1)",
	// builtins
	"(str [1 \"a\" k: 2])", "(concat \"a\" \"b\")", "(append a 4)", "(append [1] 2 3)", "(appendslice [1] [2 3])", "(concat [1] [2])", "(cons 1 l)", "(list 1 (f1 2))", "(array 1 2)", "[x (f1 x)]", "[]", "(list)", "(type? r0)", "(defined? x)", "(defined? nosuch)", "(gensym)", "(symnum (quote x))", "(sym2str (quote x))", "(str2sym \"q\")", "(joinsym (quote a) (quote b))", "(json h)", "(unjson (json h))", "(unmsgpack (msgpack h))", "(json2 h)", "(raw \"ab\")", "(raw2str (raw \"ab\"))", "(sprintf \"%v\" x)", "(split \"a,b\" \",\")", "(nsplit \"a\\nb\")", "(trim \" a\")", "(chomp \"a\\n\")", "(flatten (quote (a b)))", "(quotelist (quote (a b)))", "(makeArray 3)", "(sget \"abc\" 1)", "(regexpMatch (regexpCompile `a`) \"ba\")", "(isnan 1.0)", "(mod 7 4)", "(** 2 3)", "(sll 1 3)", "(bitAnd 6 3)", "(bitNot 6)", "(asUint64 4)", "(not x)", "(timeit (fn [] 1) 2)", "(== x 1)", "(!= \"a\" \"b\")", "(typelist)", "(fieldls snoopy)", "(togo r0)", "(rmsym (quote z9))", "(hashidx h [%k])", "(arrayidx a [1])", "(stop 1)", "(makeChan)", "(base64 (raw \"a\"))", "(GOOS)",
	// comments and layout
	"// c\n", "/* c */", "(begin // c\n 1)", "(begin /* c */)", "(cond /* c */ true /* d */ 1 /* e */ 2)", "\"s\"", "`r`", "'c'", "1.5", "#nope", "()", "{x}", "({x + 1})",
}

// contexts a form can stand in; $1 is the form
var catContexts = []string{
	"$1",
	"(begin $1 5)",
	"(begin 5 $1)",
	"(let [w $1] 6)",
	"(let [w 7] $1)",
	"(letseq [w 7 u $1] $1)",
	"(newScope $1)",
	"(newScope $1 w9)",
	"(cond x $1 8)",
	"(cond false 9 $1)",
	"(cond $1 1 2)",
	"(and 1 $1)",
	"(and $1 1)",
	"(or nil $1)",
	"(for [(def i9 0) (< i9 2) (def i9 (+ i9 1))] $1)",
	"(for [(def i9 0) (< i9 2) (def i9 (+ i9 1))] $1 (cond (== i9 0) (continue) (break)))",
	"(for [$1 false nil] 1)",
	"(for [nil (begin $1 false) nil] 1)",
	"(for [(def i9 0) (< i9 2) (begin (def i9 (+ i9 1)) $1)] 1)",
	"((fn [w] $1) 3)",
	"((fn [w] $1 w) 3)",
	"((fn [x y] $1) 3 4)",
	"(begin (defn ff [w] $1) (ff 1))",
	"(begin (defn ff [w] (cond (== w 0) $1 (ff (- w 1)))) (ff 2))",
	"[1 $1 2]",
	"(list 1 $1 2)",
	"(hash k: $1)",
	"(f1 $1)",
	"(def w $1)",
	"(set y $1)",
	"(w = $1)",
	"{w = 1; $1; 4}",
	"{$1}",
	"(eval (quote $1))",
	"(m2 $1)",
	"(m1 $1)",
	"(lz $1)",
	"(va $1 $1)",
	"(map (fn [w] $1) [1 2])",
	"(apply (fn [w] $1) [1])",
	"(return $1)",
	"((fn [] (return $1)))",
	"(assert (begin $1 true))",
	"(package \"ctx\" $1)",
	"(package \"ctx\" (def A 1) $1 (def B 2))",
	"(str $1)",
	"(range k9 v9 a $1)",
	"{for i9 := 0; i9 < 2; i9++ { $1 }}",
	"(timeit (fn [] $1) 1)",
	"^(1 ~$1 2)",
	"($1 1)",
	"(func gg9 [a:int64] [n:int64] $1)",
	"(begin (func gg9 [a:int64] [n:int64] $1) (gg9 3))",
	"(defmac mm9 [] $1)",
	"(begin (defmac mm9 [] $1) (mm9))",
	"(expectError \"nope\" $1)",
	"(aset a 0 $1)",
	"{a[0] = $1}",
}

func fillText(t, s string) string {
	var b []byte
	for i := 0; i < len(t); i++ {
		if t[i] == '$' && i+1 < len(t) && t[i+1] == '1' {
			b = append(b, s...)
			i++
			continue
		}
		b = append(b, t[i])
	}
	return string(b)
}
