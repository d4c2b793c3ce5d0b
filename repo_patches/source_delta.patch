From 29fa3ab32442342a47c6e9e0981442a0a4519af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:11 +0000
Subject: [PATCH 01/51] verif hooks: step budget in Run and read-only accessors
 (build tag verif)

---
 zygo/environment.go |  7 +++++
 zygo/verif_off.go   |  9 +++++++
 zygo/verif_on.go    | 64 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 80 insertions(+)
 create mode 100644 zygo/verif_off.go
 create mode 100644 zygo/verif_on.go

diff --git a/zygo/environment.go b/zygo/environment.go
index f6f9d51..a6c0fce 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -885,6 +885,13 @@ func (env *Zlisp) Run() (Sexp, error) {
 	runState := env.captureControlState()
 
 	for env.pc != -1 && !env.ReachedEnd() {
+		if verifEnabled {
+			if err := verifStep(env); err != nil {
+				env.restoreControlState(runState)
+				env.pc = functionSize(env.curfunc)
+				return SexpNull, err
+			}
+		}
 		instr := env.curfunc.fun[env.pc]
 		if env.debugExec {
 			fmt.Printf("\n ====== in '%s', about to run: '%v'\n",
diff --git a/zygo/verif_off.go b/zygo/verif_off.go
new file mode 100644
index 0000000..5e6aac2
--- /dev/null
+++ b/zygo/verif_off.go
@@ -0,0 +1,9 @@
+//go:build !verif
+
+package zygo
+
+// verifEnabled is false in normal builds: every use of the
+// verification hooks is then dead code.
+const verifEnabled = false
+
+func verifStep(env *Zlisp) error { return nil }
diff --git a/zygo/verif_on.go b/zygo/verif_on.go
new file mode 100644
index 0000000..2a7c3da
--- /dev/null
+++ b/zygo/verif_on.go
@@ -0,0 +1,64 @@
+//go:build verif
+
+package zygo
+
+import "errors"
+
+// Verification hooks, compiled in only with -tags verif.
+
+const verifEnabled = true
+
+// VerifSteps counts the VM instructions executed in this process.
+var VerifSteps int64
+
+// VerifBudget, when positive, is the value of VerifSteps at which the
+// VM stops executing and reports VerifOutOfSteps.
+var VerifBudget int64
+
+// VerifOutOfSteps is the error with which an exhausted budget ends Run().
+var VerifOutOfSteps = errors.New("verif: step budget exhausted")
+
+// VerifOnStep, when set, is called before every instruction.
+var VerifOnStep func(env *Zlisp)
+
+func verifStep(env *Zlisp) error {
+	VerifSteps++
+	if VerifBudget > 0 && VerifSteps > VerifBudget {
+		return VerifOutOfSteps
+	}
+	if VerifOnStep != nil {
+		VerifOnStep(env)
+	}
+	return nil
+}
+
+// VerifDepths returns the sizes of the four VM stacks.
+func (env *Zlisp) VerifDepths() (data, scope, addr, loop int) {
+	return env.datastack.Size(), env.linearstack.Size(), env.addrstack.Size(), env.loopstack.Size()
+}
+
+// VerifMainSize returns the number of instructions held by the main program buffer.
+func (env *Zlisp) VerifMainSize() int {
+	return len(env.mainfunc.fun)
+}
+
+// VerifGlobals returns the names bound in the global scope, builtins,
+// macros and reserved words included.
+func (env *Zlisp) VerifGlobals() []string {
+	var r []string
+	if glob, ok := env.linearstack.elements[0].(*Scope); ok {
+		for num := range glob.Map {
+			r = append(r, env.revsymtable[num])
+		}
+	}
+	for num := range env.builtins {
+		r = append(r, env.revsymtable[num])
+	}
+	for num := range env.macros {
+		r = append(r, env.revsymtable[num])
+	}
+	for num := range env.reserved {
+		r = append(r, env.revsymtable[num])
+	}
+	return r
+}
-- 
2.43.0


From 9c8c8b0c703f64c0c75b51133fa8c6f92c080713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 02/51] fix: order integers and uint64s without wrap-around,
 NaN unordered from either side

---
 zygo/comparisons.go | 47 ++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index 12da425..f72a91d 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -53,6 +53,27 @@ func signumInt(i int64) int {
 	return 0
 }
 
+// cmpInt and cmpUint64 order without subtracting, which would wrap around.
+func cmpInt(a, b int64) int {
+	if a > b {
+		return 1
+	}
+	if a < b {
+		return -1
+	}
+	return 0
+}
+
+func cmpUint64(a, b uint64) int {
+	if a > b {
+		return 1
+	}
+	if a < b {
+		return -1
+	}
+	return 0
+}
+
 func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
@@ -85,17 +106,20 @@ func compareFloat(f *SexpFloat, expr Sexp) (int, error) {
 func compareInt(i *SexpInt, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(i.Val - e.Val), nil
+		return cmpInt(i.Val, e.Val), nil
 	case *SexpFloat:
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
 		return signumFloat(float64(i.Val) - e.Val), nil
 	case *SexpChar:
-		return signumInt(i.Val - int64(e.Val)), nil
+		return cmpInt(i.Val, int64(e.Val)), nil
 	case *SexpReflect:
 		r := reflect.Value(e.Val)
 		ifa := r.Interface()
 		switch z := ifa.(type) {
 		case *int64:
-			return signumInt(i.Val - *z), nil
+			return cmpInt(i.Val, *z), nil
 		}
 		P("compareInt(): ifa = %v/%T", ifa, ifa)
 		P("compareInt(): r.Elem() = %v/%T", r.Elem(), r.Elem())
@@ -110,8 +134,11 @@ func compareInt(i *SexpInt, expr Sexp) (int, error) {
 func compareChar(c *SexpChar, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpInt:
-		return signumInt(int64(c.Val) - e.Val), nil
+		return cmpInt(int64(c.Val), e.Val), nil
 	case *SexpFloat:
+		if math.IsNaN(e.Val) {
+			return 2, nil
+		}
 		return signumFloat(float64(c.Val) - e.Val), nil
 	case *SexpChar:
 		return signumInt(int64(c.Val) - int64(e.Val)), nil
@@ -312,18 +339,8 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 func compareUint64(i *SexpUint64, expr Sexp) (int, error) {
 	switch e := expr.(type) {
 	case *SexpUint64:
-		return signumUint64(i.Val - e.Val), nil
+		return cmpUint64(i.Val, e.Val), nil
 	}
 	errmsg := fmt.Sprintf("err 101: cannot compare %T to %T", i, expr)
 	return 0, errors.New(errmsg)
 }
-
-func signumUint64(i uint64) int {
-	if i > 0 {
-		return 1
-	}
-	if i < 0 {
-		return -1
-	}
-	return 0
-}
-- 
2.43.0


From d7bebd457deb13a45b35b1a1318b3068835bf7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 03/51] fix: deleting from a hash keeps count, key order and
 clones intact; one-element array keys and mixed-type range loops behave

---
 zygo/hashutils.go | 56 +++++++++++++++++++++++++++++++++--------------
 zygo/vm.go        |  8 ++++++-
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b7ff70e..8348d44 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -63,6 +63,18 @@ func hashHelper(expr Sexp) (hashcode int, isList bool, err error) {
 	return 0, false, fmt.Errorf("cannot hash type %T", expr)
 }
 
+// singleKey: a one-element array used as a key stands for its element,
+// so that h[6]=10 works; every operation on a hash has to agree on it.
+func singleKey(key Sexp) Sexp {
+	for {
+		arr, isArr := key.(*SexpArray)
+		if !isArr || len(arr.Val) != 1 {
+			return key
+		}
+		key = arr.Val[0]
+	}
+}
+
 func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	//	Q("MakeHash called ")
 	//	for i := range args {
@@ -223,6 +235,7 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 }
 
 func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sexp, error) {
+	key = singleKey(key)
 	hashval, err := HashExpression(env, key)
 	if err != nil {
 		return SexpNull, err
@@ -348,12 +361,7 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 	if _, isComment := val.(*SexpComment); isComment {
 		return fmt.Errorf("HashSet: val cannot be comment")
 	}
-	if arr, isArray := key.(*SexpArray); isArray {
-		na := len(arr.Val)
-		if na == 1 {
-			key = arr.Val[0] // let single number keys work: h[6]=10
-		}
-	}
+	key = singleKey(key) // let single number keys work: h[6]=10
 
 	err := hash.TypeCheckField(key, val)
 	if err != nil {
@@ -397,26 +405,42 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 }
 
 func (hash *SexpHash) HashDelete(key Sexp) error {
+	key = singleKey(key)
 	hashval, err := HashExpression(nil, key)
 	if err != nil {
 		return err
 	}
-	arr, ok := hash.Map[hashval]
 
+	// copy rather than shift in place: a clone may share these slices.
+	same := func(a Sexp) bool {
+		res, err := hash.Env.Compare(a, key)
+		return err == nil && res == 0
+	}
+	keep := make([]*SexpPair, 0)
+	for _, pair := range hash.Map[hashval] {
+		if !same(pair.Head) {
+			keep = append(keep, pair)
+		}
+	}
 	// if it doesn't exist, no need to delete it
-	if !ok {
+	if len(keep) == len(hash.Map[hashval]) {
 		return nil
 	}
 
 	hash.NumKeys--
-	for i, pair := range arr {
-		res, err := hash.Env.Compare(pair.Head, key)
-		if err == nil && res == 0 {
-			hash.Map[hashval] = append(arr[0:i], arr[i+1:]...)
-			break
+	if len(keep) == 0 {
+		delete(hash.Map, hashval)
+	} else {
+		hash.Map[hashval] = keep
+	}
+	order := make([]Sexp, 0, len(hash.KeyOrder))
+	for _, k := range hash.KeyOrder {
+		kh, err := HashExpression(nil, k)
+		if err != nil || kh != hashval || !same(k) {
+			order = append(order, k)
 		}
 	}
-
+	hash.KeyOrder = order
 	return nil
 }
 
@@ -958,7 +982,7 @@ func compareHash(a *SexpHash, bs Sexp) (int, error) {
 func (p *SexpHash) CopyMap() *map[int][]*SexpPair {
 	cp := make(map[int][]*SexpPair)
 	for k, v := range p.Map {
-		cp[k] = v
+		cp[k] = append([]*SexpPair{}, v...)
 	}
 	return &cp
 }
@@ -970,7 +994,7 @@ func (p *SexpHash) CloneFrom(src *SexpHash) {
 	p.TypeName = src.TypeName
 	p.Map = *(src.CopyMap())
 
-	p.KeyOrder = src.KeyOrder
+	p.KeyOrder = append([]Sexp{}, src.KeyOrder...)
 	p.GoStructFactory = src.GoStructFactory
 	p.NumKeys = src.NumKeys
 	p.GoMethods = src.GoMethods
diff --git a/zygo/vm.go b/zygo/vm.go
index 9cd6543..0d6bb0b 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -550,7 +550,13 @@ func (b BindlistInstr) Execute(env *Zlisp) error {
 	}
 
 	for i, bindThisSym := range b.syms {
-		env.LexicalBindSymbol(bindThisSym, arr[i])
+		// these are fresh definitions: a range over values of different
+		// types must not run into the type of the previous element.
+		_ = env.linearstack.DeleteSymbolFromTopOfStackScope(bindThisSym)
+		err = env.LexicalBindSymbol(bindThisSym, arr[i])
+		if err != nil {
+			return err
+		}
 	}
 	env.pc++
 	return nil
-- 
2.43.0


From d07e30eab493444b6818ec9842b5e420abeccd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 04/51] fix: struct types a script declares belong to its
 interpreter, and instances keep their definition

---
 zygo/builders.go    |  91 ++++++++++++++-----------------
 zygo/environment.go |   6 +++
 zygo/expressions.go |   4 ++
 zygo/gotypereg.go   | 128 +++++++++++++++++++++++++++++++++-----------
 zygo/hashutils.go   |  15 +++---
 zygo/jsonmsgp.go    |  10 ++--
 zygo/scopes.go      |   6 +++
 7 files changed, 168 insertions(+), 92 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 478e95e..2b45cc4 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -63,6 +63,7 @@ type RecordDefn struct {
 	Name      string
 	Fields    []*SexpField
 	FieldType map[string]*RegisteredType
+	rtype     *RegisteredType
 }
 
 func NewRecordDefn() *RecordDefn {
@@ -85,9 +86,7 @@ func (r *RecordDefn) SetFields(flds []*SexpField) {
 }
 
 func (p *RecordDefn) Type() *RegisteredType {
-	rt := GoStructRegistry.Registry[p.Name]
-	//Q("RecordDefn) Type() sees rt = %v", rt)
-	return rt
+	return p.rtype
 }
 
 // pretty print a struct
@@ -280,29 +279,42 @@ func StructBuilder(env *Zlisp, name string,
 	env.datastack.PushExpr(SexpNull)
 	structName := symN.name
 
-	{
-		// begin enable recursion -- add ourselves to the env early, then
-		// update later, so that structs can refer to themselves.
-		udsR := NewRecordDefn()
-		udsR.SetName(structName)
-		rtR := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
-			return udsR, nil
-		})
-		rtR.UserStructDefn = udsR
-		rtR.DisplayAs = structName
-		GoStructRegistry.RegisterUserdef(rtR, false, structName)
-
-		// overwrite any existing definition, deliberately ignore any error,
-		// as there may not be a prior definition present at all.
-		env.linearstack.DeleteSymbolFromTopOfStackScope(symN)
-
-		err := env.LexicalBindSymbol(symN, rtR)
-		if err != nil {
-			return SexpNull, fmt.Errorf("struct builder could not bind symbol '%s': '%v'",
-				structName, err)
+	// enable recursion -- add ourselves to the env early, so that
+	// structs can refer to themselves; the fields are filled in below.
+	uds := NewRecordDefn()
+	uds.SetName(structName)
+	rt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+		return uds, nil
+	})
+	rt.UserStructDefn = uds
+	rt.DisplayAs = structName
+	uds.rtype = rt
+
+	// a declaration that fails must not disturb an earlier one.
+	scope := env.linearstack.elements[env.linearstack.tos].(*Scope)
+	prevVal, hadVal := scope.Map[symN.number]
+	undoType := env.declareType(rt, structName)
+	declared := false
+	defer func() {
+		if declared {
+			return
+		}
+		undoType()
+		if hadVal {
+			scope.Map[symN.number] = prevVal
+		} else {
+			delete(scope.Map, symN.number)
 		}
-		// end enable recursion
+	}()
+
+	// overwrite any existing definition.
+	delete(scope.Map, symN.number)
+	err := env.LexicalBindSymbol(symN, rt)
+	if err != nil {
+		return SexpNull, fmt.Errorf("struct builder could not bind symbol '%s': '%v'",
+			structName, err)
 	}
+
 	var xar []Sexp
 	var flat []*SexpField
 	if n > 2 {
@@ -359,31 +371,8 @@ func StructBuilder(env *Zlisp, name string,
 		}
 	} // end n == 2
 
-	uds := NewRecordDefn()
-	uds.SetName(structName)
 	uds.SetFields(flat)
-	//Q("good: made typeDefnHash: '%s'", uds.SexpString(nil))
-	rt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
-		return uds, nil
-	})
-	rt.UserStructDefn = uds
-	rt.DisplayAs = structName
-	GoStructRegistry.RegisterUserdef(rt, false, structName)
-	//Q("good: registered new userdefined struct '%s'", structName)
-
-	// replace our recursive-reference-enabling symbol with the real one.
-	err := env.linearstack.DeleteSymbolFromTopOfStackScope(symN)
-	if err != nil {
-		return SexpNull, fmt.Errorf("internal error: should have already had symbol '%s' "+
-			"bound, but DeleteSymbolFromTopOfStackScope returned error: '%v'",
-			symN.name, err)
-	}
-	err = env.LexicalBindSymbol(symN, rt)
-	if err != nil {
-		return SexpNull, fmt.Errorf("late: struct builder could not bind symbol '%s': '%v'",
-			structName, err)
-	}
-	//Q("good: bound symbol '%s' to RegisteredType '%s'", symN.SexpString(nil), rt.SexpString(nil))
+	declared = true
 	return rt, nil
 }
 
@@ -676,7 +665,7 @@ func ArrayOfFunction(env *Zlisp, name string,
 	})
 	arrayRt.DisplayAs = fmt.Sprintf("(%s %s)", name, rt.DisplayAs)
 	arrayName := "arrayOf" + rt.RegisteredName
-	GoStructRegistry.RegisterUserdef(arrayRt, false, arrayName)
+	env.declareType(arrayRt, arrayName)
 	return arrayRt, nil
 }
 
@@ -743,9 +732,9 @@ func VarBuilder(env *Zlisp, name string,
 			_ = rd
 			//Q("we have RecordDefn rd = %#v", *rd)
 		}
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), Typ: rt}
 	default:
-		valSexp = &SexpReflect{Val: reflect.ValueOf(v)}
+		valSexp = &SexpReflect{Val: reflect.ValueOf(v), Typ: rt}
 	}
 
 	//Q("var decl: valSexp is '%v'", valSexp.SexpString(nil))
diff --git a/zygo/environment.go b/zygo/environment.go
index a6c0fce..3e3ef63 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -25,6 +25,9 @@ type Zlisp struct {
 	// loopstack: let break and continue find the nearest enclosing loop.
 	loopstack *Stack
 
+	// types declared by the scripts of this interpreter family.
+	types *typeTable
+
 	symtable    map[string]int
 	revsymtable map[int]string
 	builtins    map[int]*SexpFunction
@@ -109,6 +112,7 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.builtins = make(map[int]*SexpFunction)
 	env.reserved = make(map[int]bool)
 	env.macros = make(map[int]*SexpFunction)
+	env.types = newTypeTable()
 	env.symtable = make(map[string]int)
 	env.revsymtable = make(map[int]string)
 	env.nextsymbol = 1
@@ -158,6 +162,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.builtins = env.builtins
 	dupenv.reserved = env.reserved
 	dupenv.macros = env.macros
+	dupenv.types = env.types
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
@@ -189,6 +194,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.builtins = env.builtins
 	dupenv.reserved = env.reserved
 	dupenv.macros = env.macros
+	dupenv.types = env.types
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 48f3daa..89fa331 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -136,9 +136,13 @@ func (r *SexpRaw) Type() *RegisteredType {
 
 type SexpReflect struct {
 	Val reflect.Value
+	Typ *RegisteredType // nil if not declared
 }
 
 func (r *SexpReflect) Type() *RegisteredType {
+	if r.Typ != nil {
+		return r.Typ
+	}
 	k := reflectName(reflect.Value(r.Val))
 	//Q("SexpReflect.Type() looking up type named '%s'", k)
 	ty, ok := GoStructRegistry.Registry[k]
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index e066119..faf2a2c 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"reflect"
+	"sync"
 	"time"
 )
 
@@ -125,16 +126,11 @@ func (r *GoStructRegistryType) RegisterUserdef(
 			// make a copy of the RegisteredType for each name, so all names are kept.
 			// Otherwise we overwrite the DisplayAs below.
 			rt := *e
+			rt.pointerTo, rt.sliceOf = nil, nil
 			e0 = &rt
 		}
 		r.register(name, e0, true)
-		e0.IsUser = true
-		e0.hasShadowStruct = hasShadowStruct
-
-		e0.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
-		if e0.DisplayAs == "" {
-			e0.DisplayAs = name
-		}
+		e0.setupUserdef(name, hasShadowStruct)
 	}
 }
 
@@ -195,6 +191,76 @@ type RegisteredType struct {
 	DisplayAs      string
 	UserStructDefn *RecordDefn
 	IsPointer      bool
+
+	// the types derived from this one, made on first use
+	pointerTo *RegisteredType
+	sliceOf   *RegisteredType
+}
+
+// typeTable holds the types that scripts declare at run time. Unlike
+// GoStructRegistry, which belongs to the host program, it is private
+// to one interpreter and its duplicates.
+type typeTable struct {
+	byName map[string]*RegisteredType
+	order  []string
+}
+
+// derivedTypesMut guards RegisteredType.pointerTo and sliceOf.
+var derivedTypesMut sync.Mutex
+
+func newTypeTable() *typeTable {
+	return &typeTable{byName: make(map[string]*RegisteredType)}
+}
+
+// LookupType returns the type a script of this interpreter declared
+// under that name, or else the one the host registered, or nil.
+func (env *Zlisp) LookupType(name string) *RegisteredType {
+	if env != nil && env.types != nil {
+		if rt, ok := env.types.byName[name]; ok {
+			return rt
+		}
+	}
+	return GoStructRegistry.Registry[name]
+}
+
+// declareType makes e known under name to this interpreter only. The
+// returned function takes the declaration back.
+func (env *Zlisp) declareType(e *RegisteredType, name string) func() {
+	e.setupUserdef(name, false)
+	prev, found := env.types.byName[name]
+	if !found {
+		env.types.order = append(env.types.order, name)
+	}
+	env.types.byName[name] = e
+	return func() {
+		if found {
+			env.types.byName[name] = prev
+			return
+		}
+		delete(env.types.byName, name)
+		for i, nm := range env.types.order {
+			if nm == name {
+				env.types.order = append(env.types.order[:i:i], env.types.order[i+1:]...)
+				break
+			}
+		}
+	}
+}
+
+func (e *RegisteredType) setupUserdef(name string, hasShadowStruct bool) {
+	if !e.initDone {
+		e.Init()
+	}
+	e.RegisteredName = name
+	e.Aliases[name] = true
+	e.Aliases[e.ReflectName] = true
+	e.IsUser = true
+	e.hasShadowStruct = hasShadowStruct
+
+	e.Constructor = MakeUserFunction("__struct_"+name, StructConstructorFunction)
+	if e.DisplayAs == "" {
+		e.DisplayAs = name
+	}
 }
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
@@ -388,7 +454,12 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if narg != 0 {
 		return SexpNull, WrongNargs
 	}
-	r := ListRegisteredTypes
+	r := append([]string{}, ListRegisteredTypes...)
+	for _, nm := range env.types.order {
+		if _, found := GoStructRegistry.Registry[nm]; !found {
+			r = append(r, nm)
+		}
+	}
 	s := make([]Sexp, len(r))
 	for i := range r {
 		s[i] = &SexpStr{S: r[i]}
@@ -423,42 +494,39 @@ func compareRegisteredTypes(a *RegisteredType, bs Sexp) (int, error) {
 	return 1, nil
 }
 
+// GetOrCreatePointerType returns the one pointer type that belongs to
+// pointedToType.
 func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *RegisteredType) *RegisteredType {
-	Q("pointedToType = %#v", pointedToType)
-	ptrName := "*" + pointedToType.RegisteredName
-	ptrRt := gsr.Lookup(ptrName)
-	if ptrRt != nil {
-		Q("type named '%v' already registered, reusing the pointer type", ptrName)
-	} else {
-		Q("registering new pointer type '%v'", ptrName)
+	derivedTypesMut.Lock()
+	defer derivedTypesMut.Unlock()
+	if pointedToType.pointerTo == nil {
+		ptrName := "*" + pointedToType.RegisteredName
 		derivedType := reflect.PtrTo(pointedToType.TypeCache)
-		ptrRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+		ptrRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.New(derivedType), nil
 		})
 		ptrRt.DisplayAs = fmt.Sprintf("(* %s)", pointedToType.DisplayAs)
-		ptrRt.RegisteredName = ptrName
-		gsr.RegisterUserdef(ptrRt, false, ptrName)
+		ptrRt.setupUserdef(ptrName, false)
+		pointedToType.pointerTo = ptrRt
 	}
-	return ptrRt
+	return pointedToType.pointerTo
 }
 
+// GetOrCreateSliceType returns the one slice type that belongs to rt.
 func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *RegisteredType {
-	//sliceName := "sliceOf" + rt.RegisteredName
-	sliceName := "[]" + rt.RegisteredName
-	sliceRt := gsr.Lookup(sliceName)
-	if sliceRt != nil {
-		Q("type named '%v' already registered, re-using the type", sliceName)
-	} else {
-		Q("registering new slice type '%v'", sliceName)
+	derivedTypesMut.Lock()
+	defer derivedTypesMut.Unlock()
+	if rt.sliceOf == nil {
+		sliceName := "[]" + rt.RegisteredName
 		derivedType := reflect.SliceOf(rt.TypeCache)
-		sliceRt = NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
+		sliceRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
-		sliceRt.RegisteredName = sliceName
-		gsr.RegisterUserdef(sliceRt, false, sliceName)
+		sliceRt.setupUserdef(sliceName, false)
+		rt.sliceOf = sliceRt
 	}
-	return sliceRt
+	return rt.sliceOf
 }
 
 func RegisterDemoStructs() {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 8348d44..6bc72ac 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -104,7 +104,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	var iface interface{}
 	jsonMap := make(map[string]*HashFieldDet)
 
-	factory := GoStructRegistry.Lookup(typename)
+	factory := env.LookupType(typename)
 	if factory == nil {
 		factory = &RegisteredType{Factory: MakeGoStructFunc(func(env *Zlisp, h *SexpHash) (interface{}, error) { return MakeHash(nil, typename, env) })}
 		factory.Aliases = make(map[string]bool)
@@ -153,8 +153,8 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	}
 
 	//Q("doing factory, foundRecordType := GoStructRegistry.Registry[typename]")
-	factoryShad, foundRecordType := GoStructRegistry.Registry[typename]
-	if foundRecordType {
+	factoryShad := env.LookupType(typename)
+	if factoryShad != nil {
 		//Q("factoryShad = '%#v' for typename='%s'\n", factoryShad, typename)
 		if factoryShad.hasShadowStruct {
 			//Q("\n in MakeHash: found struct associated with '%s'\n", typename)
@@ -177,7 +177,7 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 		factory.ReflectName = typename
 		factory.DisplayAs = typename
 
-		GoStructRegistry.RegisterUserdef(factory, false, typename)
+		env.declareType(factory, typename)
 	}
 
 	return &hash, nil
@@ -285,7 +285,7 @@ func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
 		//Q("SexpHash.TypeCheckField() sees nil has.GoStructFactory.UserStructDefn, bailing out.")
 
 		// check in the registry for this type!
-		rt := GoStructRegistry.Lookup(h.TypeName)
+		rt := h.Env.LookupType(h.TypeName)
 
 		// was it found? If so, use it!
 		if rt != nil && rt.UserStructDefn != nil {
@@ -959,7 +959,10 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 }
 
 func (r *SexpHash) Type() *RegisteredType {
-	return GoStructRegistry.Registry[r.TypeName]
+	if p := r.GoStructFactory; p != nil && p.UserStructDefn != nil {
+		return p
+	}
+	return r.Env.LookupType(r.TypeName)
 }
 
 func compareHash(a *SexpHash, bs Sexp) (int, error) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index f2f505d..3e5e0dd 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -367,7 +367,7 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 	default:
 		// do we have a struct for it?
 		nm := fmt.Sprintf("%T", val)
-		rt := GoStructRegistry.Lookup(nm)
+		rt := env.LookupType(nm)
 		if rt == nil {
 			fmt.Printf("unknown type '%s' in type switch, val = %#v.  type = %T.\n", nm, val, val)
 		} else {
@@ -548,8 +548,8 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		} else {
 			//vv("ToGo: tn '%s' does not have GoShadowStruct set, making a new one", tn)
 
-			factory, hasMaker := GoStructRegistry.Registry[tn]
-			if !hasMaker {
+			factory := env.LookupType(tn)
+			if factory == nil {
 				return SexpNull, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 			}
 			newStruct, err = factory.Factory(env, asHash)
@@ -907,8 +907,8 @@ func SexpToGoStructs(
 		}
 
 		// use targVa, but check against the type in the registry for sanity/type checking.
-		factory, hasMaker := GoStructRegistry.Registry[tn]
-		if !hasMaker {
+		factory := env.LookupType(tn)
+		if factory == nil {
 			panic(fmt.Errorf("type '%s' not registered in GoStructRegistry", tn))
 			//return nil, fmt.Errorf("type '%s' not registered in GoStructRegistry", tn)
 		}
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 8bd062a..d256349 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -220,6 +220,12 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 			return nil
 		}
 
+		if r, l := rhsTy.UserStructDefn, lhsTy.UserStructDefn; r != nil && l != nil && r.Name == l.Name {
+			// two definitions of one struct, before and after a redeclaration
+			stack.elements[stack.tos].(*Scope).Map[sym.number] = expr
+			return nil
+		}
+
 		if rhsTy.UserStructDefn != nil && rhsTy.UserStructDefn != lhsTy.UserStructDefn {
 			return fmt.Errorf("cannot assign %v to %v", rhsTy.ShortName(), lhsTy.ShortName())
 		}
-- 
2.43.0


From 6462029f24655ca3563086b0224c34f4a5e13326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 05/51] fix: setup order, registry lookups, Go conversions and
 panic reports no longer depend on map order or addresses

---
 zygo/callgo.go      | 51 +++++++++++++++------------------------------
 zygo/environment.go | 35 +++++++++++++++++++++++++------
 zygo/gotypereg.go   | 35 ++++++++++++++++++++++++-------
 zygo/hashutils.go   | 42 ++++++++++++++++++-------------------
 zygo/jsonmsgp.go    | 12 +++++------
 5 files changed, 101 insertions(+), 74 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index feea898..91cb608 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -3,7 +3,6 @@ package zygo
 import (
 	"fmt"
 	"reflect"
-	"runtime"
 )
 
 // call Go methods
@@ -18,15 +17,13 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	// protect against bad calls/bad reflection
 	var wasPanic bool
 	var recovered interface{}
-	tr := make([]byte, 16384)
-	trace := &tr
+	var trace string
 	sx, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				nbyte := runtime.Stack(*trace, false)
-				*trace = (*trace)[:nbyte]
+				trace = panicTrace()
 			}
 		}()
 
@@ -158,36 +155,22 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 			case rune:
 				r = append(r, &SexpChar{Val: e})
 			default:
-				// go through the type registry
-				found := false
-				for hashName, factory := range GoStructRegistry.Registry {
-					st, err := factory.Factory(env, nil)
-					if err != nil {
-						return SexpNull, fmt.Errorf("MakeHash '%s' problem on Factory call: %s",
-							hashName, err)
-					}
-					//Q("got st from Factory, checking if types match")
-					if reflect.ValueOf(st).Type() == out[i].Type() {
-						//Q("types match")
-						retHash, err := MakeHash([]Sexp{}, factory.RegisteredName, env)
-						if err != nil {
-							return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-								hashName, err)
-						}
-
-						//Q("filling from shadow")
-						err = retHash.FillHashFromShadow(env, f)
-						if err != nil {
-							return SexpNull, err
-						}
-						r = append(r, retHash)
-						found = true
-						break
-					}
-				}
-				if !found {
+				// consult the type registry
+				rt := GoStructRegistry.forGoType(out[i].Type())
+				if rt == nil {
 					r = append(r, &SexpReflect{Val: out[i]})
+					break
+				}
+				retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
+				if err != nil {
+					return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+						rt.RegisteredName, err)
+				}
+				err = retHash.FillHashFromShadow(env, f)
+				if err != nil {
+					return SexpNull, err
 				}
+				r = append(r, retHash)
 			}
 		}
 		return env.NewSexpArray(r), nil
@@ -195,7 +178,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	if wasPanic {
 		return SexpNull, fmt.Errorf("\n recovered from panic "+
 			"during CallGo. panic on = '%v'\n"+
-			"stack trace:\n%s\n", recovered, string(*trace))
+			"stack trace:\n%s\n", recovered, trace)
 	}
 	return sx, err
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index 3e3ef63..e61a755 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -8,7 +8,9 @@ import (
 	"io"
 	"os"
 	"runtime"
+	"sort"
 	"strconv"
+	"strings"
 )
 
 type PreHook func(*Zlisp, string, []Sexp)
@@ -122,7 +124,14 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.AddGlobal("null", SexpNull)
 	env.AddGlobal("nil", SexpNull)
 
-	for key, function := range funcs {
+	// in a fixed order, so that symbol numbers are reproducible.
+	keys := make([]string, 0, len(funcs))
+	for key := range funcs {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	for _, key := range keys {
+		function := funcs[key]
 		sym := env.MakeSymbol(key)
 		env.builtins[sym.number] = MakeUserFunction(key, function)
 		env.AddFunction(key, function)
@@ -575,6 +584,22 @@ func (env *Zlisp) ReturnFromFunction() error {
 	return err
 }
 
+// panicTrace describes the Go calls, innermost first, between the
+// panic being recovered and the VM. Unlike runtime.Stack's, its text
+// has no addresses, so it is the same on every run.
+func panicTrace() string {
+	pcs := make([]uintptr, 64)
+	frames := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs)])
+	var b strings.Builder
+	for {
+		fr, more := frames.Next()
+		if !more || strings.HasSuffix(fr.Function, ".CallUserFunction") {
+			return b.String()
+		}
+		fmt.Fprintf(&b, "%s\n\t%s:%d\n", fr.Function, fr.File, fr.Line)
+	}
+}
+
 func (env *Zlisp) CallUserFunction(
 	function *SexpFunction, name string, nargs int) (nargReturned int, err error) {
 	//Q("CallUserFunction calling name '%s' with nargs=%v", name, nargs)
@@ -603,15 +628,13 @@ func (env *Zlisp) CallUserFunction(
 	// protect against bad calls/bad reflection in usercalls
 	var wasPanic bool
 	var recovered interface{}
-	var trace []byte
+	var trace string
 	res, err := func() (Sexp, error) {
 		defer func() {
 			recovered = recover()
 			if recovered != nil {
 				wasPanic = true
-				trace = make([]byte, 16384)
-				nbyte := runtime.Stack(trace, false)
-				trace = trace[:nbyte]
+				trace = panicTrace()
 			}
 		}()
 
@@ -625,7 +648,7 @@ func (env *Zlisp) CallUserFunction(
 	if wasPanic {
 		err = fmt.Errorf("CallUserFunction caught panic during call of "+
 			"'%s': '%v'\n stack trace:\n%v\n",
-			name, recovered, string(trace))
+			name, recovered, trace)
 	}
 	if err != nil {
 		env.restoreControlState(callState)
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index faf2a2c..1b9dec2 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -3,6 +3,7 @@ package zygo
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"sync"
 	"time"
 )
@@ -138,6 +139,17 @@ func (r *GoStructRegistryType) Lookup(name string) *RegisteredType {
 	return r.Registry[name]
 }
 
+// forGoType returns the registered type for Go values of type t, or
+// nil. The earliest registration wins.
+func (r *GoStructRegistryType) forGoType(t reflect.Type) *RegisteredType {
+	for _, name := range ListRegisteredTypes {
+		if e := r.Registry[name]; e != nil && e.TypeCache != nil && e.TypeCache == t {
+			return e
+		}
+	}
+	return nil
+}
+
 // wait to AddFunction until EnvAvail()
 func (r *GoStructRegistryType) LazyAddFunction(name string, function ZlispUserFunction) {
 	if r.LazyFunc == nil {
@@ -150,8 +162,13 @@ func (r *GoStructRegistryType) EnvAvail(env *Zlisp) {
 	if len(r.LazyFunc) == 0 {
 		return
 	}
-	for nm, fn := range r.LazyFunc {
-		env.AddFunction(nm, fn)
+	names := make([]string, 0, len(r.LazyFunc))
+	for nm := range r.LazyFunc {
+		names = append(names, nm)
+	}
+	sort.Strings(names)
+	for _, nm := range names {
+		env.AddFunction(nm, r.LazyFunc[nm])
 	}
 	// clear it out, all added.
 	r.LazyFunc = make(map[string]ZlispUserFunction)
@@ -468,12 +485,16 @@ func TypeListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func (env *Zlisp) ImportBaseTypes() {
-	for _, e := range GoStructRegistry.Builtin {
-		env.AddGlobal(e.RegisteredName, e)
+	// in a fixed order, so that symbol numbers are reproducible.
+	for _, name := range ListRegisteredTypes {
+		if e, found := GoStructRegistry.Builtin[name]; found {
+			env.AddGlobal(e.RegisteredName, e)
+		}
 	}
-
-	for _, e := range GoStructRegistry.Userdef {
-		env.AddGlobal(e.RegisteredName, e)
+	for _, name := range ListRegisteredTypes {
+		if e, found := GoStructRegistry.Userdef[name]; found {
+			env.AddGlobal(e.RegisteredName, e)
+		}
 	}
 }
 
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 6bc72ac..5e38379 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -183,6 +183,18 @@ func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
 	return &hash, nil
 }
 
+// buckets lists the key/value pairs in key order, each in a slice of its own.
+func (h *SexpHash) buckets() (r [][]*SexpPair) {
+	for _, key := range h.KeyOrder {
+		val, err := h.HashGetDefault(h.Env, key, SexpEnd)
+		if err != nil || val == SexpEnd {
+			continue
+		}
+		r = append(r, []*SexpPair{Cons(key, val)})
+	}
+	return r
+}
+
 func (h *SexpHash) DotPathHashGet(env *Zlisp, sym *SexpSymbol) (Sexp, error) {
 	path := DotPartsRegex.FindAllString(sym.name, -1)
 	//Q("in DotPathHashGet(), path = '%#v'", path)
@@ -711,30 +723,18 @@ func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp,
 
 	// check for one of our registered structs
 
-	// go through the type registry upfront
-	for hashName, factory := range GoStructRegistry.Registry {
-		//P("fillHashHelper is trying hashName='%s'", hashName)
-		st, err := factory.Factory(env, nil)
+	// consult the type registry upfront
+	if rt := GoStructRegistry.forGoType(reflect.TypeOf(r)); rt != nil {
+		retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
 		if err != nil {
-			return SexpNull, err
+			return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
+				rt.RegisteredName, err)
 		}
-		if reflect.ValueOf(st).Type() == reflect.ValueOf(r).Type() {
-			//Q("we have a registered struct match for st=%T and r=%T", st, r)
-			retHash, err := MakeHash([]Sexp{}, hashName, env)
-			if err != nil {
-				return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-					hashName, err)
-			}
-
-			err = retHash.FillHashFromShadow(env, r)
-			if err != nil {
-				return SexpNull, err
-			}
-			//Q("retHash = %#v\n", retHash)
-			return retHash, nil // or return sx?
-		} else {
-			//Q("fillHashHelper: no match for st=%T and r=%T", st, r)
+		err = retHash.FillHashFromShadow(env, r)
+		if err != nil {
+			return SexpNull, err
 		}
+		return retHash, nil
 	}
 
 	//Q("fillHashHelper: trying basic non-struct types for r=%T", r)
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 3e5e0dd..ff42501 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -478,7 +478,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 		}
 
 		m := make(map[string]interface{})
-		for _, arr := range e.Map {
+		for _, arr := range e.buckets() {
 			for _, pair := range arr {
 				key := SexpToGo(pair.Head, env, dedup)
 				val := SexpToGo(pair.Tail, env, dedup)
@@ -773,7 +773,7 @@ func SexpToGoStructs(
 			switch target.(type) {
 			case *map[string]string:
 				m := make(map[string]string)
-				for _, arr := range src.Map {
+				for _, arr := range src.buckets() {
 					for _, pair := range arr {
 						key := SexpToGo(pair.Head, env, dedup)
 						val := SexpToGo(pair.Tail, env, dedup)
@@ -793,7 +793,7 @@ func SexpToGoStructs(
 
 			case *map[string]float64:
 				m := make(map[string]float64)
-				for _, arr := range src.Map {
+				for _, arr := range src.buckets() {
 					for _, pair := range arr {
 						key := SexpToGo(pair.Head, env, dedup)
 						val := SexpToGo(pair.Tail, env, dedup)
@@ -818,7 +818,7 @@ func SexpToGoStructs(
 				//P("target is a map[int64]float64")
 
 				m := make(map[int64]float64)
-				for _, arr := range src.Map {
+				for _, arr := range src.buckets() {
 					for _, pair := range arr {
 						key := SexpToGo(pair.Head, env, dedup)
 						val := SexpToGo(pair.Tail, env, dedup)
@@ -850,7 +850,7 @@ func SexpToGoStructs(
 					pmap := reflect.MakeMap(targElemTyp)
 					//P(" pmap starts out as %v/type = %T", pmap, pmap.Interface())
 					// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-					for _, arr := range src.Map {
+					for _, arr := range src.buckets() {
 						for _, pair := range arr {
 							key := SexpToGo(pair.Head, env, dedup)
 							//val := SexpToGo(pair.Tail, env, dedup)
@@ -969,7 +969,7 @@ func SexpToGoStructs(
 			panic(fmt.Errorf("type checking failed compare the factor associated with SexpHash and the provided target *T: expected '%s' (associated with typename '%s' in the GoStructRegistry) but saw '%s' type in target", tn, factType, targTyp))
 		}
 		//maploop:
-		for _, arr := range src.Map {
+		for _, arr := range src.buckets() {
 			for _, pair := range arr {
 				recordKey = ""
 				switch k := pair.Head.(type) {
-- 
2.43.0


From ed75616d15f48963cdc18a71be76079fc3a63f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 06/51] fix: finished top-level code is dropped instead of
 piling up in the main function

---
 zygo/environment.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zygo/environment.go b/zygo/environment.go
index e61a755..d88f222 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -698,6 +698,11 @@ func (env *Zlisp) LoadExpressions(xs []Sexp) error {
 		return err
 	}
 
+	if env.curfunc == env.mainfunc && env.ReachedEnd() && env.addrstack.IsEmpty() {
+		// at rest: nothing will run the earlier code again.
+		env.mainfunc.fun = nil
+		env.pc = 0
+	}
 	env.mainfunc.fun = append(env.mainfunc.fun, gen.instructions...)
 	env.curfunc = env.mainfunc
 
-- 
2.43.0


From 86aef5bc350a1152289e83280203614531fab11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 07/51] fix: a generated symbol is never one that already
 exists

---
 zygo/environment.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index d88f222..117dc11 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -282,7 +282,12 @@ func (env *Zlisp) MakeSymbol(name string) *SexpSymbol {
 
 func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
 	symname := prefix + strconv.Itoa(env.nextsymbol)
-	return env.MakeSymbol(symname)
+	for i := env.nextsymbol + 1; ; i++ {
+		if _, taken := env.symtable[symname]; !taken {
+			return env.MakeSymbol(symname)
+		}
+		symname = prefix + strconv.Itoa(i)
+	}
 }
 
 func (env *Zlisp) CurrentFunctionSize() int {
-- 
2.43.0


From ad7a44a5f24f175b3ce38592d791fe2dd3e08fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 08/51] fix: assignments leave their value; struct, var and
 func declarations leave no operand behind

---
 zygo/builders.go |  5 +----
 zygo/func.go     |  2 --
 zygo/vm.go       | 10 ++++++++++
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index 2b45cc4..bbe910f 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -276,7 +276,6 @@ func StructBuilder(env *Zlisp, name string,
 
 	//Q("good: have struct name '%v'", symN)
 
-	env.datastack.PushExpr(SexpNull)
 	structName := symN.name
 
 	// enable recursion -- add ourselves to the env early, so that
@@ -712,7 +711,7 @@ func VarBuilder(env *Zlisp, name string,
 	case *RegisteredType:
 		rt = myrt
 	default:
-		return SexpNull, fmt.Errorf("bad var declaration, type '%v' is unknown", rt.SexpString(nil))
+		return SexpNull, fmt.Errorf("bad var declaration, type '%v' is unknown", ev.SexpString(nil))
 	}
 
 	val, err := rt.Factory(env, nil)
@@ -745,8 +744,6 @@ func VarBuilder(env *Zlisp, name string,
 	}
 	//Q("good: var decl bound symbol '%s' to '%s' of type '%s'", symN.SexpString(nil), valSexp.SexpString(nil), rt.SexpString(nil))
 
-	env.datastack.PushExpr(valSexp)
-
 	return SexpNull, nil
 }
 
diff --git a/zygo/func.go b/zygo/func.go
index 2462754..9e3b0ce 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -126,8 +126,6 @@ func FuncBuilder(env *Zlisp, name string,
 	}
 	//Q("retHash = '%v'", retHash.SexpString(nil))
 
-	env.datastack.PushExpr(SexpNull)
-
 	//Q("FuncBuilder() about to call buildSexpFun")
 
 	// ===================================
diff --git a/zygo/vm.go b/zygo/vm.go
index 0d6bb0b..42c0843 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -859,6 +859,16 @@ func (a AssignInstr) Execute(env *Zlisp) error {
 	if err != nil {
 		return err
 	}
+	err = env.assign(lhs, rhs)
+	if err != nil {
+		return err
+	}
+	// like any expression, an assignment leaves its value.
+	env.datastack.PushExpr(rhs)
+	return nil
+}
+
+func (env *Zlisp) assign(lhs, rhs Sexp) (err error) {
 	switch x := lhs.(type) {
 	case *SexpSymbol:
 		return env.LexicalBindSymbol(x, rhs)
-- 
2.43.0


From a29c186a12ae7cd4b867e178854a1098f4f48b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 09/51] fix: every form compiles to exactly one value, nested
 compile errors are reported, loops end at function boundaries

---
 zygo/generator.go | 134 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 95 insertions(+), 39 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index cf5f7e5..81b5951 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -56,11 +56,13 @@ func (gen *Generator) AddInstruction(instr Instruction) {
 func (gen *Generator) GenerateBegin(expressions []Sexp) error {
 	size := len(expressions)
 	oldtail := gen.Tail
-	gen.Tail = false
 	if size == 0 {
+		// every expression leaves one value.
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 		//return NoExpressionsFound
 	}
+	gen.Tail = false
 	startInstructionCount := 0
 	for _, expr := range expressions[:size-1] {
 		startInstructionCount = len(gen.instructions)
@@ -90,6 +92,12 @@ func buildSexpFun(
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
+	// a break or continue in the body cannot reach a loop around the
+	// function: that loop belongs to other code.
+	enclosingLoops := env.loopstack
+	env.loopstack = env.NewStack(LoopStackSize)
+	defer func() { env.loopstack = enclosingLoops }()
+
 	gen := NewGenerator(env)
 	if knownFunctions != nil {
 		gen.knownFunctions = knownFunctions
@@ -383,17 +391,28 @@ func (gen *Generator) GenerateMacexpand(args []Sexp) error {
 
 func (gen *Generator) GenerateShortCircuit(or bool, args []Sexp) error {
 	size := len(args)
+	if size == 0 {
+		return WrongNargs
+	}
 
 	subgen := gen.NewSubGenerator()
 	subgen.scopes = gen.scopes
 	subgen.Tail = gen.Tail
 	subgen.funcname = gen.funcname
-	subgen.Generate(args[size-1])
+	err := subgen.Generate(args[size-1])
+	if err != nil {
+		return err
+	}
 	instructions := subgen.instructions
 
 	for i := size - 2; i >= 0; i-- {
 		subgen = gen.NewSubGenerator()
-		subgen.Generate(args[i])
+		subgen.scopes = gen.scopes
+		subgen.funcname = gen.funcname
+		err = subgen.Generate(args[i])
+		if err != nil {
+			return err
+		}
 		subgen.AddInstruction(DupInstr(0))
 		subgen.AddInstruction(BranchInstr{or, len(instructions) + 2})
 		subgen.AddInstruction(PopInstr(0))
@@ -422,6 +441,8 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 	// we generate the cond bottom up, so i counts down.
 	for i := len(args)/2 - 1; i >= 0; i-- {
 		subgen.Reset()
+		subgen.scopes = gen.scopes
+		subgen.funcname = gen.funcname
 		err := subgen.Generate(args[2*i])
 		if err != nil {
 			return err
@@ -453,9 +474,10 @@ func (gen *Generator) GenerateCond(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateQuote(args []Sexp) error {
-	for _, expr := range args {
-		gen.AddInstruction(PushInstr{expr})
+	if len(args) != 1 {
+		return WrongNargs
 	}
+	gen.AddInstruction(PushInstr{args[0]})
 	return nil
 }
 
@@ -494,7 +516,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 
 	if name == "letseq" {
 		for i, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.generateNonTail(rs)
 			if err != nil {
 				return err
 			}
@@ -502,7 +524,7 @@ func (gen *Generator) GenerateLet(name string, args []Sexp) error {
 		}
 	} else if name == "let" {
 		for _, rs := range rstatements {
-			err := gen.Generate(rs)
+			err := gen.generateNonTail(rs)
 			if err != nil {
 				return err
 			}
@@ -525,7 +547,7 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 	if len(args) != 1 {
 		return WrongNargs
 	}
-	err := gen.Generate(args[0])
+	err := gen.generateNonTail(args[0])
 	if err != nil {
 		return err
 	}
@@ -543,7 +565,6 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 		return WrongNargs
 	}
 
-	var err error
 	var exps []Sexp
 
 	var sourceItem func(item Sexp) error
@@ -559,22 +580,21 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 		case *SexpPair:
 			expr := item
 			for expr != SexpNull {
-				list := expr.(*SexpPair)
+				list, isPair := expr.(*SexpPair)
+				if !isPair {
+					return NotAList
+				}
 				if err := sourceItem(list.Head); err != nil {
 					return err
 				}
 				expr = list.Tail
 			}
 		case *SexpStr:
-			exps, err = gen.env.ParseFile(t.S)
-			if err != nil {
-				return err
-			}
-
-			err = gen.GenerateBegin(exps)
+			fileExps, err := gen.env.ParseFile(t.S)
 			if err != nil {
 				return err
 			}
+			exps = append(exps, fileExps...)
 
 		default:
 			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item)
@@ -584,13 +604,13 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 	}
 
 	for _, v := range args {
-		err = sourceItem(v)
+		err := sourceItem(v)
 		if err != nil {
 			return err
 		}
 	}
 
-	return nil
+	return gen.GenerateBegin(exps)
 }
 
 func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Sexp) error {
@@ -693,7 +713,10 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	for i := 0; i < n; i++ {
 		gen.AddInstruction(PushInstr{args[i]})
 	}
-	gen.Generate(fun)
+	err := gen.Generate(fun)
+	if err != nil {
+		return err
+	}
 	gen.AddInstruction(DispatchInstr{len(args)})
 	return nil
 }
@@ -862,9 +885,19 @@ func (gen *Generator) Generate(expr Sexp) error {
 	return nil
 }
 
+// generateNonTail compiles an expression whose value the enclosing
+// form still uses, so a call in it is not in tail position.
+func (gen *Generator) generateNonTail(expr Sexp) error {
+	oldtail := gen.Tail
+	gen.Tail = false
+	err := gen.Generate(expr)
+	gen.Tail = oldtail
+	return err
+}
+
 func (gen *Generator) GenerateAll(expressions []Sexp) error {
 	for _, expr := range expressions {
-		err := gen.Generate(expr)
+		err := gen.generateNonTail(expr)
 		if err != nil {
 			return err
 		}
@@ -1126,9 +1159,10 @@ func (gen *Generator) GenerateMultiDef(args []Sexp) error {
 		case *SexpPair:
 			// gracefully handle the quoted symbols we get from the range macro
 			unquotedSymbol, isQuo := isQuotedSymbol(sym)
-			if isQuo {
-				syms[i] = unquotedSymbol.(*SexpSymbol)
+			if !isQuo {
+				return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead: '%s'", i+1, sym.SexpString(nil))
 			}
+			syms[i] = unquotedSymbol.(*SexpSymbol)
 		default:
 			return fmt.Errorf("All mdef targets must be symbols, but %d-th was not, instead of type %T: '%s'", i+1, sym, sym.SexpString(nil))
 		}
@@ -1154,6 +1188,8 @@ func isQuotedSymbol(list *SexpPair) (unquotedSymbol Sexp, isQuo bool) {
 		if h.name != "quote" {
 			return SexpNull, false
 		}
+	default:
+		return SexpNull, false
 	}
 	// good, keep going to tail
 	t := list.Tail
@@ -1184,17 +1220,14 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 	// in them too.
 	switch aaa := arg.(type) {
 	case *SexpArray:
-		gen.generateSyntaxQuoteArray(aaa)
-		return nil
+		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
 		if !IsList(arg) {
 			break
 		}
-		gen.generateSyntaxQuoteList(arg)
-		return nil
+		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
-		gen.generateSyntaxQuoteHash(arg)
-		return nil
+		return gen.generateSyntaxQuoteHash(arg)
 	}
 	gen.AddInstruction(PushInstr{arg})
 	return nil
@@ -1232,10 +1265,12 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		if issymbol {
 			if sym.name == "unquote" {
 				//VPrintf("detected unquote with quotebody[1]='%#v'   arg='%#v'\n", quotebody[1], arg)
-				gen.Generate(quotebody[1])
-				return nil
+				return gen.generateNonTail(quotebody[1])
 			} else if sym.name == "unquote-splicing" {
-				gen.Generate(quotebody[1])
+				err := gen.generateNonTail(quotebody[1])
+				if err != nil {
+					return err
+				}
 				gen.AddInstruction(ExplodeInstr(0))
 				return nil
 			}
@@ -1245,7 +1280,10 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 
 	for _, expr := range quotebody {
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		err := gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err != nil {
+			return err
+		}
 	}
 
 	gen.AddInstruction(SquashInstr(0))
@@ -1268,7 +1306,10 @@ func (gen *Generator) generateSyntaxQuoteArray(arg Sexp) error {
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for _, expr := range arr.Val {
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{expr})
+		err := gen.GenerateSyntaxQuote([]Sexp{expr})
+		if err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1298,12 +1339,18 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 		}
 		// value first, since value comes second on rebuild
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{val})
+		err = gen.GenerateSyntaxQuote([]Sexp{val})
+		if err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 
 		gen.AddInstruction(PushInstr{SexpMarker})
-		gen.GenerateSyntaxQuote([]Sexp{key})
+		err = gen.GenerateSyntaxQuote([]Sexp{key})
+		if err != nil {
+			return err
+		}
 		gen.AddInstruction(SquashInstr(0))
 		gen.AddInstruction(ExplodeInstr(0))
 	}
@@ -1459,12 +1506,13 @@ scanUpTheLoops:
 // like begin, but puts its contents in a new scope
 func (gen *Generator) GenerateNewScope(expressions []Sexp) error {
 	size := len(expressions)
-	oldtail := gen.Tail
-	gen.Tail = false
 	if size == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 		//return NoExpressionsFound
 	}
+	oldtail := gen.Tail
+	gen.Tail = false
 
 	gen.AddInstruction(AddScopeInstr{Name: "newScope"})
 	gen.scopes++
@@ -1511,6 +1559,7 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 	oldtail := gen.Tail
 	gen.Tail = false
 
+	gen.scopes++
 	gen.AddInstruction(AddScopeInstr{Name: pkgName})
 	gen.AddInstruction(PushStackmarkInstr{sym: symPkgName})
 
@@ -1523,11 +1572,12 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 		}
 	}
 
-	gen.Tail = oldtail
 	err := gen.Generate(expressions[size-1])
 	if err != nil {
 		return err
 	}
+	gen.Tail = oldtail
+	gen.scopes--
 	gen.AddInstruction(PopUntilStackmarkInstr{sym: symPkgName})
 	gen.AddInstruction(PopInstr(0)) // remove the stackmark itself now
 	gen.AddInstruction(PopScopeTransferToDataStackInstr{PackageName: pkgName})
@@ -1570,6 +1620,7 @@ func getQuotedSymbol(expr *SexpPair) (*SexpSymbol, error) {
 func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	n := len(xs)
 	if n == 0 {
+		gen.AddInstruction(PushInstr{SexpNull})
 		return nil
 	}
 
@@ -1578,7 +1629,12 @@ func (gen *Generator) GenerateReturn(xs []Sexp) error {
 	}
 	for i := range xs {
 		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
-		err := gen.Generate(xs[i])
+		var err error
+		if n == 1 {
+			err = gen.Generate(xs[i])
+		} else {
+			err = gen.generateNonTail(xs[i])
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c6df6fe41d16408222f3cde73407b73b6613dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 10/51] fix: a tail call is resolved, prepared and checked like
 any other call and gets a fresh scope

---
 zygo/environment.go |  13 +++-
 zygo/generator.go   |  82 ++++-------------------
 zygo/vm.go          | 154 +++++++++++++-------------------------------
 3 files changed, 72 insertions(+), 177 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 117dc11..92ba91f 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -523,7 +523,10 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 	return fmt.Errorf("not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
 }
 
-func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
+// checkCall runs the pre-call hooks, checks the nargs arguments on the
+// datastack against what function declares, and arranges them in the way its
+// code expects them.
+func (env *Zlisp) checkCall(function *SexpFunction, nargs int) error {
 	for _, prehook := range env.before {
 		expressions, err := env.datastack.GetExpressions(nargs)
 		if err != nil {
@@ -555,6 +558,14 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 			fmt.Sprintf("%s expected %d arguments, got %d",
 				function.name, function.nargs, nargs))
 	}
+	return nil
+}
+
+func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
+	err := env.checkCall(function, nargs)
+	if err != nil {
+		return err
+	}
 
 	if env.linearstack.IsEmpty() {
 		panic("where's the global scope?")
diff --git a/zygo/generator.go b/zygo/generator.go
index 81b5951..6a8cf9f 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -7,12 +7,11 @@ import (
 var NoExpressionsFound = fmt.Errorf("No expressions found")
 
 type Generator struct {
-	env            *Zlisp
-	funcname       string
-	Tail           bool
-	scopes         int
-	instructions   []Instruction
-	knownFunctions map[int]*SexpFunction
+	env          *Zlisp
+	funcname     string
+	Tail         bool
+	scopes       int
+	instructions []Instruction
 }
 
 type Loop struct {
@@ -31,7 +30,6 @@ func NewGenerator(env *Zlisp) *Generator {
 	gen := new(Generator)
 	gen.env = env
 	gen.instructions = make([]Instruction, 0)
-	gen.knownFunctions = make(map[int]*SexpFunction)
 	// tail marks whether or not we are in the tail position
 	gen.Tail = false
 	// scopes is the number of extra (non-function) scopes we've created
@@ -40,9 +38,7 @@ func NewGenerator(env *Zlisp) *Generator {
 }
 
 func (gen *Generator) NewSubGenerator() *Generator {
-	subgen := NewGenerator(gen.env)
-	subgen.knownFunctions = gen.knownFunctions
-	return subgen
+	return NewGenerator(gen.env)
 }
 
 func (gen *Generator) AddInstructions(instr []Instruction) {
@@ -87,8 +83,7 @@ func buildSexpFun(
 	name string,
 	funcargs *SexpArray,
 	funcbody []Sexp,
-	orig Sexp,
-	knownFunctions map[int]*SexpFunction) (*SexpFunction, error) {
+	orig Sexp) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
@@ -99,9 +94,6 @@ func buildSexpFun(
 	defer func() { env.loopstack = enclosingLoops }()
 
 	gen := NewGenerator(env)
-	if knownFunctions != nil {
-		gen.knownFunctions = knownFunctions
-	}
 	gen.Tail = true
 
 	if len(name) == 0 {
@@ -137,9 +129,6 @@ func buildSexpFun(
 
 	sfun := gen.env.MakeFunction(gen.funcname, nargs, varargs, nil, orig)
 	sfun.SetFormalSymbols(argsyms)
-	if len(name) > 0 {
-		gen.knownFunctions[env.MakeSymbol(name).number] = sfun
-	}
 
 	//VPrintf("\n in buildSexpFun(): DumpFunction just before %v args go onto stack\n", len(argsyms))
 	if Working {
@@ -182,7 +171,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig)
 	if err != nil {
 		return err
 	}
@@ -276,7 +265,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -325,7 +314,7 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, gen.knownFunctions)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
 	if err != nil {
 		return err
 	}
@@ -685,25 +674,12 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 		return gen.Generate(expr)
 	}
 
-	oldtail := gen.Tail
-	gen.Tail = false
-	if oldtail && sym.name == gen.funcname {
-		err := gen.GenerateCallArgsForFunction(gen.LookupKnownFunction(sym), args)
-		if err != nil {
-			return err
-		}
-		// to do a tail call
-		// pop off all the extra scopes
-		// then jump to beginning of function
-		for i := 0; i < gen.scopes; i++ {
-			gen.AddInstruction(RemoveScopeInstr{})
-		}
-		gen.AddInstruction(PrepareCallInstr{sym, len(args)})
-		gen.AddInstruction(GotoInstr{1}) // goto 1 instead of 0 to avoid adding a new scope
+	callargs := append([]Sexp(nil), args...)
+	if gen.Tail && sym.name == gen.funcname {
+		gen.AddInstruction(TailCallInstr{callee: sym, args: callargs, scopes: gen.scopes})
 	} else {
-		gen.AddInstruction(CallExprInstr{callee: sym, args: append([]Sexp(nil), args...)})
+		gen.AddInstruction(CallExprInstr{callee: sym, args: callargs})
 	}
-	gen.Tail = oldtail
 	return nil
 }
 
@@ -721,36 +697,6 @@ func (gen *Generator) GenerateBuilder(fun Sexp, args []Sexp) error {
 	return nil
 }
 
-func (gen *Generator) LookupKnownFunction(sym *SexpSymbol) *SexpFunction {
-	if sym == nil {
-		return nil
-	}
-	if gen.knownFunctions != nil {
-		if function := gen.knownFunctions[sym.number]; function != nil {
-			return function
-		}
-	}
-	x, err, _ := gen.env.LexicalLookupSymbol(sym, nil)
-	if err != nil {
-		return nil
-	}
-	function, _ := x.(*SexpFunction)
-	return function
-}
-
-func (gen *Generator) GenerateCallArgsForFunction(function *SexpFunction, args []Sexp) error {
-	for i, expr := range args {
-		if function != nil && function.IsLazyCallArg(i) {
-			gen.AddInstruction(PushLazyArgInstr{expr: expr})
-			continue
-		}
-		if err := gen.Generate(expr); err != nil {
-			return err
-		}
-	}
-	return nil
-}
-
 func (gen *Generator) GenerateInfix(args []Sexp) error {
 	arr, empty, err := InfixArgsToArray("infix", args)
 	if err != nil {
diff --git a/zygo/vm.go b/zygo/vm.go
index 42c0843..0cd591c 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -30,22 +30,6 @@ func (j JumpInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type GotoInstr struct {
-	location int
-}
-
-func (g GotoInstr) InstrString() string {
-	return fmt.Sprintf("goto %d", g.location)
-}
-
-func (g GotoInstr) Execute(env *Zlisp) error {
-	if g.location < 0 || g.location > env.CurrentFunctionSize() {
-		return OutOfBounds
-	}
-	env.pc = g.location
-	return nil
-}
-
 type BranchInstr struct {
 	direction bool
 	location  int
@@ -87,23 +71,6 @@ func (p PushInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
-type PushLazyArgInstr struct {
-	expr Sexp
-}
-
-func (p PushLazyArgInstr) InstrString() string {
-	if p.expr == nil {
-		return "push lazyArg nil"
-	}
-	return "push lazyArg " + p.expr.SexpString(nil)
-}
-
-func (p PushLazyArgInstr) Execute(env *Zlisp) error {
-	env.datastack.PushExpr(NewSourceLazyArg(env, p.expr))
-	env.pc++
-	return nil
-}
-
 type PopInstr int
 
 func (p PopInstr) InstrString() string {
@@ -364,6 +331,52 @@ func (c CallExprInstr) Execute(env *Zlisp) error {
 	return env.CallResolved(funcobj, callName, c.args)
 }
 
+// TailCallInstr is a call in tail position to a name that is, as far
+// as the compiler can tell, the function being compiled. If it turns
+// out to be, the call replaces the running activation; scopes counts
+// the extra (non-function) scopes that are open at this point.
+type TailCallInstr struct {
+	callee *SexpSymbol
+	args   []Sexp
+	scopes int
+}
+
+func (c TailCallInstr) InstrString() string {
+	return fmt.Sprintf("tailCall %s %d", c.callee.name, len(c.args))
+}
+
+func (c TailCallInstr) Execute(env *Zlisp) error {
+	funcobj, err := env.EvalCallExpression(c.callee)
+	if err != nil {
+		return err
+	}
+	funcobj, callName, err := env.ResolveCallable(funcobj)
+	if err != nil {
+		return err
+	}
+	f, isFun := funcobj.(*SexpFunction)
+	if !isFun || f.user || len(f.fun) == 0 || &f.fun[0] != &env.curfunc.fun[0] {
+		return env.CallResolved(funcobj, callName, c.args)
+	}
+
+	if err := env.PrepareCallExprArgs(f, c.args); err != nil {
+		return err
+	}
+	if err := env.checkCall(f, len(c.args)); err != nil {
+		return err
+	}
+	// leave the extra scopes and that of the finished activation;
+	// the callee starts by making its own.
+	for i := 0; i < c.scopes+1; i++ {
+		if err := env.linearstack.PopScope(); err != nil {
+			return err
+		}
+	}
+	env.curfunc = f
+	env.pc = 0
+	return nil
+}
+
 type DispatchInstr struct {
 	nargs int
 }
@@ -927,78 +940,3 @@ func (a PopScopeTransferToDataStackInstr) Execute(env *Zlisp) error {
 	env.datastack.PushExpr(stackClone)
 	return nil
 }
-
-type PrepareCallInstr struct {
-	sym   *SexpSymbol
-	nargs int
-}
-
-func (c PrepareCallInstr) InstrString() string {
-	return fmt.Sprintf("pre-call %s %d", c.sym.name, c.nargs)
-}
-
-func (c PrepareCallInstr) Execute(env *Zlisp) error {
-	if err := c.execute(env); err != nil {
-		return err
-	}
-	env.pc++
-	return nil
-}
-
-func (c PrepareCallInstr) execute(env *Zlisp) error {
-	_, ok := env.builtins[c.sym.number]
-	if ok {
-		return nil
-	}
-	var funcobj, indirectFuncName Sexp
-	var err error
-
-	funcobj, err, _ = env.LexicalLookupSymbol(c.sym, nil)
-
-	if err != nil {
-		return err
-	}
-	switch f := funcobj.(type) {
-	case *SexpSymbol:
-		if c.sym.isDot {
-
-			dotSymRef, dotLookupErr := dotGetSetHelper(env, c.sym.name, nil)
-			if dotLookupErr != nil {
-				return dotLookupErr
-			}
-			indirectFuncName = dotSymRef
-		} else {
-			indirectFuncName, err = dotGetSetHelper(env, f.name, nil)
-			if err != nil {
-				return fmt.Errorf("'%s' refers to symbol '%s', but '%s' could not be resolved: '%s'.",
-					c.sym.name, f.name, f.name, err)
-			}
-		}
-
-		switch g := indirectFuncName.(type) {
-		case *SexpFunction:
-			if !g.user {
-				nargs := c.nargs
-				if err := env.prepareLazyCallArgs(g, &nargs); err != nil {
-					return err
-				}
-				if g.varargs {
-					return env.wrangleOptargs(g.nargs, nargs)
-				}
-			}
-			return nil
-		}
-
-	case *SexpFunction:
-		if !f.user {
-			nargs := c.nargs
-			if err := env.prepareLazyCallArgs(f, &nargs); err != nil {
-				return err
-			}
-			if f.varargs {
-				return env.wrangleOptargs(f.nargs, nargs)
-			}
-		}
-	}
-	return nil
-}
-- 
2.43.0


From 4667168db0fbd70516522d1aa1915328d3514960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 11/51] fix: append and concat copy, map hands out no view of
 its array

---
 zygo/arrayutils.go | 12 ++++++++++--
 zygo/functions.go  |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 43d2633..d74226a 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -8,7 +8,7 @@ func MapArray(env *Zlisp, fun *SexpFunction, arr *SexpArray) (Sexp, error) {
 
 	var firstTyp *RegisteredType
 	for i := range arr.Val {
-		result[i], err = env.Apply(fun, arr.Val[i:i+1])
+		result[i], err = env.Apply(fun, []Sexp{arr.Val[i]})
 		if err != nil {
 			return &SexpArray{Val: result, Typ: firstTyp, Env: env}, err
 		}
@@ -20,12 +20,20 @@ func MapArray(env *Zlisp, fun *SexpFunction, arr *SexpArray) (Sexp, error) {
 	return &SexpArray{Val: result, Typ: firstTyp, Env: env}, nil
 }
 
+// joinVals returns a followed by b, sharing storage with neither: arrays
+// made from the same one must not overwrite each other's elements.
+func joinVals(a, b []Sexp) []Sexp {
+	joined := make([]Sexp, 0, len(a)+len(b))
+	joined = append(joined, a...)
+	return append(joined, b...)
+}
+
 func ConcatArray(arr *SexpArray, rest []Sexp) (Sexp, error) {
 	if arr == nil {
 		return SexpNull, fmt.Errorf("ConcatArray called with nil arr")
 	}
 	var res SexpArray
-	res.Val = arr.Val
+	res.Val = joinVals(arr.Val, nil)
 	for i, x := range rest {
 		switch t := x.(type) {
 		case *SexpArray:
diff --git a/zygo/functions.go b/zygo/functions.go
index a79173c..fd96d5f 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -604,11 +604,11 @@ func AppendFunction(name string) ZlispUserFunction {
 		case *SexpArray:
 			switch name {
 			case "append":
-				return &SexpArray{Val: append(t.Val, args[1]), Env: env, Typ: t.Typ}, nil
+				return &SexpArray{Val: joinVals(t.Val, args[1:]), Env: env, Typ: t.Typ}, nil
 			case "appendslice":
 				switch sl := args[1].(type) {
 				case *SexpArray:
-					return &SexpArray{Val: append(t.Val, sl.Val...), Env: env, Typ: t.Typ}, nil
+					return &SexpArray{Val: joinVals(t.Val, sl.Val), Env: env, Typ: t.Typ}, nil
 				default:
 					return SexpNull, fmt.Errorf("Second argument of appendslice must be slice")
 				}
-- 
2.43.0


From 87222f4979986253f3e70cf795aec4d1e53821bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 12/51] fix: an array's inferred type follows its elements, and
 is that of an array

---
 zygo/arrayutils.go  |  8 ++------
 zygo/expressions.go | 24 ++++++++++++------------
 zygo/functions.go   |  5 -----
 3 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index d74226a..d30086e 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -6,18 +6,14 @@ func MapArray(env *Zlisp, fun *SexpFunction, arr *SexpArray) (Sexp, error) {
 	result := make([]Sexp, len(arr.Val))
 	var err error
 
-	var firstTyp *RegisteredType
 	for i := range arr.Val {
 		result[i], err = env.Apply(fun, []Sexp{arr.Val[i]})
 		if err != nil {
-			return &SexpArray{Val: result, Typ: firstTyp, Env: env}, err
-		}
-		if firstTyp == nil {
-			firstTyp = result[i].Type()
+			return &SexpArray{Val: result, Env: env}, err
 		}
 	}
 
-	return &SexpArray{Val: result, Typ: firstTyp, Env: env}, nil
+	return &SexpArray{Val: result, Env: env}, nil
 }
 
 // joinVals returns a followed by b, sharing storage with neither: arrays
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 89fa331..75854f7 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -266,20 +266,20 @@ type SexpArray struct {
 }
 
 func (r *SexpArray) Type() *RegisteredType {
-	if r.Typ == nil {
-		if len(r.Val) > 0 {
-			// take type from first element
-			ty := r.Val[0].Type()
-			if ty != nil {
-				r.Typ = GoStructRegistry.GetOrCreateSliceType(ty)
-			}
-		} else {
-			// empty array
-			r.Typ = GoStructRegistry.Lookup("[]")
-			//P("lookup [] returned type %#v", r.Typ)
+	if r.Typ != nil {
+		return r.Typ
+	}
+	// not declared; and not remembered either, since the elements change.
+	if len(r.Val) > 0 {
+		// take type from first element
+		ty := r.Val[0].Type()
+		if ty != nil {
+			return GoStructRegistry.GetOrCreateSliceType(ty)
 		}
+		return nil
 	}
-	return r.Typ
+	// empty array
+	return GoStructRegistry.Lookup("[]")
 }
 
 func (arr *SexpArray) SexpString(ps *PrintState) string {
diff --git a/zygo/functions.go b/zygo/functions.go
index fd96d5f..26a2567 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -378,11 +378,6 @@ func HashAccessFunction(name string) ZlispUserFunction {
 			arr := &SexpArray{Env: env}
 			for i := 0; i < n; i++ {
 				keys = append(keys, (hash.KeyOrder)[i])
-
-				// try to get a .Typ value going too... from the first available.
-				if arr.Typ == nil {
-					arr.Typ = (hash.KeyOrder)[i].Type()
-				}
 			}
 			arr.Val = keys
 			return arr, nil
-- 
2.43.0


From 0612f3807f17a26fa0132814b8103da56a9897d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:58 +0000
Subject: [PATCH 13/51] fix: a function's tail call to itself takes constant
 space whatever name it is called by

---
 zygo/generator.go | 2 +-
 zygo/vm.go        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 6a8cf9f..505a288 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -675,7 +675,7 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 	}
 
 	callargs := append([]Sexp(nil), args...)
-	if gen.Tail && sym.name == gen.funcname {
+	if gen.Tail {
 		gen.AddInstruction(TailCallInstr{callee: sym, args: callargs, scopes: gen.scopes})
 	} else {
 		gen.AddInstruction(CallExprInstr{callee: sym, args: callargs})
diff --git a/zygo/vm.go b/zygo/vm.go
index 0cd591c..f74b23e 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -331,10 +331,10 @@ func (c CallExprInstr) Execute(env *Zlisp) error {
 	return env.CallResolved(funcobj, callName, c.args)
 }
 
-// TailCallInstr is a call in tail position to a name that is, as far
-// as the compiler can tell, the function being compiled. If it turns
-// out to be, the call replaces the running activation; scopes counts
-// the extra (non-function) scopes that are open at this point.
+// TailCallInstr is a call in tail position. If the callee turns out to
+// be the running function, whatever name it goes by, the call replaces
+// the running activation; scopes counts the extra (non-function) scopes
+// that are open at this point.
 type TailCallInstr struct {
 	callee *SexpSymbol
 	args   []Sexp
-- 
2.43.0


From 06811fb045cb5ef4d168000d96d4b2771dad75d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 14/51] fix: a func without a body returns one value

---
 zygo/func.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/zygo/func.go b/zygo/func.go
index 9e3b0ce..9f684cd 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -184,14 +184,6 @@ func FuncBuilder(env *Zlisp, name string,
 		return MissingFunction, err
 	}
 
-	// minimal sanity check that we return the number of arguments
-	// on the stack that are declared
-	if len(body) == 0 {
-		for range retHash.KeyOrder {
-			gen.AddInstruction(PushInstr{expr: SexpNull})
-		}
-	}
-
 	gen.AddInstruction(RemoveScopeInstr{})
 	gen.AddInstruction(ReturnInstr{nil}) // nil is the error returned
 
-- 
2.43.0


From b44a43515a562c668c55673b044972df3b7ff78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:19 +0000
Subject: [PATCH 15/51] fix: arguments given by name are lazy when the formal
 they name is

---
 zygo/environment.go |  3 ++-
 zygo/expressions.go | 25 +++++++++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 92ba91f..c34b93b 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -422,8 +422,9 @@ func (env *Zlisp) ResolveCallable(funcobj Sexp) (Sexp, string, error) {
 }
 
 func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error {
+	lazy := function.lazyCallArgs(args)
 	for i, expr := range args {
-		if function != nil && !function.user && function.HasLazyFormals() && function.IsLazyCallArg(i) {
+		if lazy != nil && lazy[i] {
 			env.datastack.PushExpr(NewSourceLazyArg(env, expr))
 			continue
 		}
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 75854f7..e75d42a 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -752,6 +752,31 @@ func (sf *SexpFunction) IsLazyCallArg(i int) bool {
 	return sf.IsLazyFormal(i)
 }
 
+// lazyCallArgs says which of the argument expressions of a call are bound to
+// lazy formals: by position, or by name where the call names its arguments.
+// It returns nil when none can be.
+func (sf *SexpFunction) lazyCallArgs(args []Sexp) []bool {
+	if !sf.HasLazyFormals() || sf.user {
+		return nil
+	}
+	lazy := make([]bool, len(args))
+	for i := 0; i < len(args); i++ {
+		if sf.inputTypes != nil && !sf.varargs {
+			if label, isSym := args[i].(*SexpSymbol); isSym && label.colonTail {
+				i++ // the label is followed by the argument it names
+				for j, formal := range sf.argSyms {
+					if i < len(args) && formal.name == label.name {
+						lazy[i] = sf.IsLazyFormal(j)
+					}
+				}
+				continue
+			}
+		}
+		lazy[i] = sf.IsLazyCallArg(i)
+	}
+	return lazy
+}
+
 func (sf *SexpFunction) SetClosing(clos *Closing) {
 	ps4 := NewPrintStateWithIndent(4)
 	pre, err := sf.ShowClosing(clos.env, ps4, "prev")
-- 
2.43.0


From da7384e6130eadc35f1dd640d1509331606635e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:57 +0000
Subject: [PATCH 16/51] fix: compiling loops, packages, anonymous functions and
 range loops adds nothing to the symbol table

---
 zygo/environment.go | 18 ++++++++++++++++++
 zygo/func.go        |  2 +-
 zygo/generator.go   |  8 ++++----
 zygo/pratt.go       | 20 ++++++++++++++++----
 4 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index c34b93b..060cfe1 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -39,6 +39,8 @@ type Zlisp struct {
 	mainfunc    *SexpFunction
 	pc          int
 	nextsymbol  int
+	rangeSyms   map[string]*SexpSymbol
+	internals   *int // symbols made by internalSymbol, in all duplicates
 	before      []PreHook
 	after       []PostHook
 
@@ -118,6 +120,8 @@ func NewZlispWithFuncs(funcs map[string]ZlispUserFunction) *Zlisp {
 	env.symtable = make(map[string]int)
 	env.revsymtable = make(map[int]string)
 	env.nextsymbol = 1
+	env.internals = new(int)
+	env.rangeSyms = make(map[string]*SexpSymbol)
 	env.before = []PreHook{}
 	env.after = []PostHook{}
 	env.infixOps = make(map[string]*InfixOp)
@@ -175,6 +179,8 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.internals = env.internals
+	dupenv.rangeSyms = env.rangeSyms
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -207,6 +213,8 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.symtable = env.symtable
 	dupenv.revsymtable = env.revsymtable
 	dupenv.nextsymbol = env.nextsymbol
+	dupenv.internals = env.internals
+	dupenv.rangeSyms = env.rangeSyms
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
@@ -290,6 +298,16 @@ func (env *Zlisp) GenSymbol(prefix string) *SexpSymbol {
 	}
 }
 
+// internalSymbol makes a symbol for the compiler's own use: no script can
+// get hold of it, and it takes no room in the symbol tables.
+func (env *Zlisp) internalSymbol(prefix string) *SexpSymbol {
+	*env.internals++
+	return &SexpSymbol{
+		name:   prefix + strconv.Itoa(*env.internals),
+		number: -*env.internals,
+	}
+}
+
 func (env *Zlisp) CurrentFunctionSize() int {
 	if env.curfunc.user {
 		return 0
diff --git a/zygo/func.go b/zygo/func.go
index 9f684cd..b562d81 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -51,7 +51,7 @@ func FuncBuilder(env *Zlisp, name string,
 			bodyLoc++
 		} else {
 			// anonymous function
-			symN = env.GenSymbol("__anon")
+			symN = env.internalSymbol("__anon")
 			isAnon = true
 			inputsLoc--
 			returnsLoc--
diff --git a/zygo/generator.go b/zygo/generator.go
index 505a288..ef295e3 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -97,7 +97,7 @@ func buildSexpFun(
 	gen.Tail = true
 
 	if len(name) == 0 {
-		gen.funcname = env.GenSymbol("__anon").name
+		gen.funcname = env.internalSymbol("__anon").name
 	} else {
 		gen.funcname = name
 	}
@@ -918,14 +918,14 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 	var loop *Loop
 	if foundSym {
 		loop = &Loop{
-			stmtname: gen.env.GenSymbol("__loop_" + labelsym.name + "_"),
+			stmtname: gen.env.internalSymbol("__loop_" + labelsym.name + "_"),
 			//label:    &labelsym,
 			label:      labelsym,
 			scopeDepth: gen.scopes,
 		}
 	} else {
 		loop = &Loop{
-			stmtname:   gen.env.GenSymbol("__loop"),
+			stmtname:   gen.env.internalSymbol("__loop"),
 			scopeDepth: gen.scopes,
 		}
 	}
@@ -1500,7 +1500,7 @@ func (gen *Generator) GeneratePackage(expressions []Sexp) error {
 
 	// use GenSymbol so we are sure to have a unique point
 	// to aim at when cleaning up.
-	symPkgName := gen.env.GenSymbol(pkgName)
+	symPkgName := gen.env.internalSymbol(pkgName)
 
 	oldtail := gen.Tail
 	gen.Tail = false
diff --git a/zygo/pratt.go b/zygo/pratt.go
index e699833..9309bcd 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -424,6 +424,18 @@ func parseRangeTargets(tokens []Sexp) ([]*SexpSymbol, error) {
 	return nil, fmt.Errorf("go-style for range header: expected one or two range targets")
 }
 
+// rangeSymbol returns the generated symbol range loops use for prefix. Every
+// loop binds it in a scope of its own before using it, so that all loops
+// can share it.
+func (env *Zlisp) rangeSymbol(prefix string) *SexpSymbol {
+	sym, made := env.rangeSyms[prefix]
+	if !made {
+		sym = env.GenSymbol(prefix)
+		env.rangeSyms[prefix] = sym
+	}
+	return sym
+}
+
 func lowerRangeBinding(env *Zlisp, targets []*SexpSymbol, define bool, sourceSym, indexSym *SexpSymbol, body []Sexp) Sexp {
 	if len(targets) == 1 {
 		op := "set"
@@ -438,7 +450,7 @@ func lowerRangeBinding(env *Zlisp, targets []*SexpSymbol, define bool, sourceSym
 		return prattCall(env, "mdef", targets[0], targets[1], pair)
 	}
 
-	pairSym := env.GenSymbol("__range_pair")
+	pairSym := env.rangeSymbol("__range_pair")
 	pairBindings := &SexpArray{Val: []Sexp{pairSym, pair}, Env: env}
 	beginArgs := []Sexp{
 		env.MakeSymbol("begin"),
@@ -478,9 +490,9 @@ func lowerRangeFor(env *Zlisp, label *SexpSymbol, header []Sexp, body []Sexp) (S
 		return SexpNull, true, err
 	}
 
-	sourceSym := env.GenSymbol("__range_src")
-	lenSym := env.GenSymbol("__range_len")
-	indexSym := env.GenSymbol("__range_i")
+	sourceSym := env.rangeSymbol("__range_src")
+	lenSym := env.rangeSymbol("__range_len")
+	indexSym := env.rangeSymbol("__range_i")
 	letBindings := &SexpArray{
 		Val: []Sexp{
 			sourceSym, source,
-- 
2.43.0


From 5fbfb3a199af9c6d0486e8e91bb7ffbc59519917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:57 +0000
Subject: [PATCH 17/51] verif hooks: table sizes (build tag verif)

---
 zygo/verif_on.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zygo/verif_on.go b/zygo/verif_on.go
index 2a7c3da..f971fcd 100644
--- a/zygo/verif_on.go
+++ b/zygo/verif_on.go
@@ -62,3 +62,10 @@ func (env *Zlisp) VerifGlobals() []string {
 	}
 	return r
 }
+
+// VerifTables returns the sizes of the interpreter's tables: symbols,
+// global bindings, macros, instructions of the main program.
+func (env *Zlisp) VerifTables() (syms, globals, macros, main int) {
+	glob := env.linearstack.elements[0].(*Scope)
+	return len(env.symtable), len(glob.Map), len(env.macros), len(env.mainfunc.fun)
+}
-- 
2.43.0


From 08bef02cb51778780a7584c87886c9a773f1f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:03 +0000
Subject: [PATCH 18/51] fix: a multiple assignment list leaves one operand;
 anonymous funcs are not bound globally

---
 zygo/func.go      | 4 +++-
 zygo/generator.go | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/zygo/func.go b/zygo/func.go
index b562d81..133cbba 100644
--- a/zygo/func.go
+++ b/zygo/func.go
@@ -205,7 +205,9 @@ func FuncBuilder(env *Zlisp, name string,
 	invok, err := env.datastack.PopExpr()
 	panicOn(err) // we just pushed in the clos.Execute(), so this should always be err == nil
 	env.pc = notePc
-	err = env.LexicalBindSymbol(symN, invok)
+	if !isAnon {
+		err = env.LexicalBindSymbol(symN, invok)
+	}
 	if err != nil {
 		return SexpNull, fmt.Errorf("internal error: could not bind symN:'%s' into env: %v", symN.name, err)
 	}
diff --git a/zygo/generator.go b/zygo/generator.go
index ef295e3..77dc32d 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -747,6 +747,10 @@ func (gen *Generator) GenerateAssignment(expr *SexpPair, assignPos int) error {
 	// of return value flow, rather than exact lhs to rhs count equality.
 
 	for i := range rhs {
+		if i > 0 {
+			// the value of the whole is that of the last assignment
+			gen.AddInstruction(PopInstr(0))
+		}
 		err = gen.GenerateDef([]Sexp{lhs[i], rhs[i]}, "def")
 		if err != nil {
 			return err
-- 
2.43.0


From db39abbc713a5ca90597fe60f4c6c07574754638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:55 +0000
Subject: [PATCH 19/51] fix: parsing depends on the text only: last token,
 unfinished strings, lookahead and reset of the lexer

---
 zygo/functions.go |   1 +
 zygo/lexer.go     |  81 +++++++---
 zygo/parser.go    | 397 +++++++++++++++++++++++++---------------------
 3 files changed, 274 insertions(+), 205 deletions(-)

diff --git a/zygo/functions.go b/zygo/functions.go
index 26a2567..7eea075 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -657,6 +657,7 @@ func ReadFunction(env *Zlisp, name string, args []Sexp) (sx Sexp, err error) {
 	default:
 		return SexpNull, WrongType
 	}
+	sx = SexpNull
 	env.parser.ResetAddNewInput(bytes.NewBuffer([]byte(str)))
 	//exp, err := env.parser.ParseExpression(0)
 	// have to use the iter interface...once.
diff --git a/zygo/lexer.go b/zygo/lexer.go
index 58419cd..2d1a0c8 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -131,17 +131,22 @@ const (
 )
 
 type Lexer struct {
-	parser   *Parser
+	parser *Parser
+	lexerState
+	buffer *bytes.Buffer // a token that isn't complete yet
+	stream io.RuneScanner
+	next   []io.RuneScanner
+	taken  []Token // consumed since the start of the current top level expression
+}
+
+// lexerState is what the lexer knows between two runes,
+// apart from the partial token in its buffer.
+type lexerState struct {
 	state    LexerState
 	prevrune rune
 	tokens   []Token
-	buffer   *bytes.Buffer
 
-	prevToken      Token
-	prevPrevToken  Token
 	preBuiltinRune rune
-	stream         io.RuneScanner
-	next           []io.RuneScanner
 	linenum        int
 
 	priori    int
@@ -150,8 +155,6 @@ type Lexer struct {
 
 func (lexer *Lexer) AppendToken(tok Token) {
 	lexer.tokens = append(lexer.tokens, tok)
-	lexer.prevPrevToken = lexer.prevToken
-	lexer.prevToken = tok
 }
 
 func (lexer *Lexer) PrependToken(tok Token) {
@@ -181,11 +184,12 @@ func canStartSignedNumberAfter(r rune) bool {
 
 func NewLexer(p *Parser) *Lexer {
 	return &Lexer{
-		parser:  p,
-		tokens:  make([]Token, 0, 10),
-		buffer:  new(bytes.Buffer),
-		state:   LexerNormal,
-		linenum: 1,
+		parser: p,
+		buffer: new(bytes.Buffer),
+		lexerState: lexerState{
+			tokens:  make([]Token, 0, 10),
+			linenum: 1,
+		},
 	}
 }
 
@@ -195,11 +199,46 @@ func (lexer *Lexer) Linenum() int {
 
 func (lex *Lexer) Reset() {
 	lex.stream = nil
-	lex.tokens = lex.tokens[:0]
-	lex.state = LexerNormal
-	lex.linenum = 1
-	lex.preBuiltinRune = 0
+	lex.next = nil
 	lex.buffer.Reset()
+	lex.taken = nil
+	lex.lexerState = lexerState{
+		tokens:  lex.tokens[:0],
+		linenum: 1,
+	}
+}
+
+// snapshot returns a copy of the state of the lexer between two runes.
+func (lex *Lexer) snapshot() (st lexerState, partial string) {
+	st = lex.lexerState
+	st.tokens = append([]Token(nil), lex.tokens...)
+	return st, lex.buffer.String()
+}
+
+func (lex *Lexer) restore(st lexerState, partial string) {
+	lex.lexerState = st
+	lex.buffer.Reset()
+	lex.buffer.WriteString(partial)
+}
+
+// inString is true inside of a "" string.
+func (lex *Lexer) inString() bool {
+	return lex.state == LexerStrLit || lex.state == LexerStrEscaped
+}
+
+// inRune is true inside of a character literal.
+func (lex *Lexer) inRune() bool {
+	return lex.state == LexerRuneLit || lex.state == LexerRuneEscaped
+}
+
+// untake gives back the tokens taken since the last call to forget.
+func (lex *Lexer) untake() {
+	lex.tokens = append(lex.taken, lex.tokens...)
+	lex.taken = nil
+}
+
+func (lex *Lexer) forget() {
+	lex.taken = nil
 }
 
 func (lex *Lexer) EmptyToken() Token {
@@ -559,9 +598,8 @@ top:
 		if r == '\'' {
 			// closing single quote
 			lexer.buffer.WriteRune(r)
-			lexer.dumpBuffer()
 			lexer.state = LexerNormal
-			return nil
+			return lexer.dumpBuffer()
 		}
 		lexer.buffer.WriteRune(r)
 		return nil
@@ -576,13 +614,13 @@ top:
 		return nil
 
 	case LexerUnquote:
+		lexer.state = LexerNormal
 		if r == '@' {
 			lexer.AppendToken(lexer.Token(TokenTildeAt, ""))
 		} else {
 			lexer.AppendToken(lexer.Token(TokenTilde, ""))
-			lexer.buffer.WriteRune(r)
+			goto top // r starts what is unquoted
 		}
-		lexer.state = LexerNormal
 		return nil
 	case LexerFreshAssignOrColon:
 		lexer.state = LexerNormal
@@ -869,6 +907,7 @@ func (lexer *Lexer) GetNextToken() (tok Token, err error) {
 		return EndTk, err
 	}
 	lexer.tokens = lexer.tokens[1:]
+	lexer.taken = append(lexer.taken, tok)
 	return tok, nil
 }
 
diff --git a/zygo/parser.go b/zygo/parser.go
index b0b590d..ad947f4 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -27,6 +27,9 @@ type Parser struct {
 
 	inBacktick bool
 	recur      int64
+
+	open  int  // how many brackets, strings and comments are open
+	atEnd bool // parsing the end of a text: nothing follows what the lexer holds
 }
 
 type ParserReply struct {
@@ -66,6 +69,8 @@ func (p *Parser) Reset() {
 	}
 	p.sendMe = &ParserReply{}
 	p.yield = nil
+	p.open = 0
+	p.atEnd = false
 	p.lexer.Reset()
 }
 
@@ -91,6 +96,8 @@ func (p *Parser) ResetAddNewInput(s io.RuneScanner) {
 	}
 	p.yield = nil
 	p.sendMe = &ParserReply{}
+	p.open = 0
+	p.atEnd = false
 	p.lexer.Reset()
 	p.lexer.AddNextStream(s)
 }
@@ -105,118 +112,86 @@ func (p *Parser) getRecur() int64 {
 
 func (parser *Parser) ParseList(depth int, endTokenTyp TokenType) (sx Sexp, err error) {
 	parser.recur++
-	defer func() { parser.recur-- }()
+	parser.open++
+	defer func() {
+		parser.recur--
+		parser.open--
+	}()
 
 	lexer := parser.lexer
 	var tok Token
+	var items []Sexp
+	var tail Sexp = SexpNull
 
-tokFilled:
 	for {
-		tok, err = lexer.PeekNextToken(0)
-		//Q("\n ParseList(depth=%d) got lexer.PeekNextToken() -> tok='%v' err='%v'\n", depth, tok, err)
+		// asks for more input when there is none left.
+		tok, err = parser.ParserPeekNextToken(0)
 		if err != nil {
 			return SexpNull, err
 		}
-		if tok.typ != TokenEnd {
-			break tokFilled
-		}
-		// instead of returning UnexpectedEnd, we:
-		parser.sendMe.Err = ErrMoreInputNeeded
-		ok := parser.yield(parser.sendMe)
-		if !ok {
-			return SexpEnd, nil
-		}
-		//Q("\n ParseList(depth=%d) got back from parser.GetMoreInput(): '%v'\n", depth, err)
 
-		// have to still fill tok, so
-		// loop to the top to PeekNextToken
-	}
-
-	// allow TokenRCurly to end a list too, for the JSON {} style hashes.
-	if tok.typ == endTokenTyp {
-		_, _ = lexer.GetNextToken()
-		return SexpNull, nil
-	}
-
-	var start = &SexpPair{}
-
-	expr, err := parser.ParseExpression(depth + 1)
-	if err != nil {
-		return SexpNull, err
-	}
-
-	start.Head = expr
+		// allow TokenRCurly to end a list too, for the JSON {} style hashes.
+		if tok.typ == endTokenTyp {
+			_, _ = lexer.GetNextToken()
+			break
+		}
 
-	tok, err = lexer.PeekNextToken(0)
-	if err != nil {
-		return SexpNull, err
-	}
+		// backslash '\' replaces dot '.'
+		if tok.typ == TokenBackslash && len(items) > 0 {
+			// eat up the backslash
+			_, _ = lexer.GetNextToken()
+			tail, err = parser.parseOperand(depth + 1)
+			if err != nil {
+				return SexpNull, err
+			}
 
-	// backslash '\' replaces dot '.'
-	if tok.typ == TokenBackslash {
-		// eat up the backslash
-		_, _ = lexer.GetNextToken()
-		expr, err = parser.ParseExpression(depth + 1)
-		if err != nil {
-			return SexpNull, err
+			// eat up the end paren
+			tok, err = parser.ParserPeekNextToken(0)
+			if err != nil {
+				return SexpNull, err
+			}
+			// make sure it was actually an end paren
+			if tok.typ != TokenRParen {
+				return SexpNull, errors.New("extra value in dotted pair")
+			}
+			_, _ = lexer.GetNextToken()
+			break
 		}
 
-		// eat up the end paren
-		tok, err = lexer.GetNextToken()
+		expr, err := parser.ParseExpression(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
-		// make sure it was actually an end paren
-		if tok.typ != TokenRParen {
-			return SexpNull, errors.New("extra value in dotted pair")
-		}
-		start.Tail = expr
-		return start, nil
+		items = append(items, expr)
 	}
 
-	expr, err = parser.ParseList(depth+1, endTokenTyp)
-	if err != nil {
-		return start, err
+	for i := len(items) - 1; i >= 0; i-- {
+		tail = Cons(items[i], tail)
 	}
-	start.Tail = expr
-
-	return start, nil
+	return tail, nil
 }
 
 func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 	parser.recur++
-	defer func() { parser.recur-- }()
+	parser.open++
+	defer func() {
+		parser.recur--
+		parser.open--
+	}()
 
 	lexer := parser.lexer
 	arr := make([]Sexp, 0, SliceDefaultCap)
 
-	var tok Token
-	var err error
 	for {
-	getTok:
-		for {
-			tok, err = lexer.PeekNextToken(0)
-			if err != nil {
-				return SexpEnd, err
-			}
-
-			if tok.typ == TokenComma {
-				// pop off the ,
-				_, _ = lexer.GetNextToken()
-				continue getTok
-			}
+		tok, err := parser.ParserPeekNextToken(0)
+		if err != nil {
+			return SexpEnd, err
+		}
 
-			if tok.typ != TokenEnd {
-				break getTok
-			} else {
-				//instead of return SexpEnd, UnexpectedEnd
-				// we ask for more, and then loop
-				parser.sendMe.Err = ErrMoreInputNeeded
-				ok := parser.yield(parser.sendMe)
-				if !ok {
-					return SexpEnd, nil
-				}
-			}
+		if tok.typ == TokenComma {
+			// pop off the ,
+			_, _ = lexer.GetNextToken()
+			continue
 		}
 
 		if tok.typ == TokenRSquare {
@@ -235,6 +210,39 @@ func (parser *Parser) ParseArray(depth int) (Sexp, error) {
 	return &SexpArray{Val: arr, Env: parser.env}, nil
 }
 
+// parseOperand parses the expression that a prefix such as % or ^ applies to.
+func (parser *Parser) parseOperand(depth int) (Sexp, error) {
+	_, err := parser.ParserPeekNextToken(0)
+	if err != nil {
+		return SexpNull, err
+	}
+	return parser.ParseExpression(depth)
+}
+
+// peekPastComments returns the first token at or after lexer.tokens[i] that
+// does not belong to a comment, and the index of the token after it.
+func (parser *Parser) peekPastComments(i int) (tok Token, next int, err error) {
+	inBlock := false
+	for ; ; i++ {
+		_, err = parser.ParserPeekNextToken(i)
+		if err != nil {
+			return EndTk, i, err
+		}
+		tok = parser.lexer.tokens[i]
+		switch tok.typ {
+		case TokenBeginBlockComment:
+			inBlock = true
+		case TokenEndBlockComment:
+			inBlock = false
+		case TokenComment:
+		default:
+			if !inBlock {
+				return tok, i + 1, nil
+			}
+		}
+	}
+}
+
 func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	parser.recur++
 	defer func() { parser.recur-- }()
@@ -265,39 +273,14 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		return exp, err
 	case TokenLCurly:
 		// allow `{ symbol: ` to initiate a `(hash symbol:` so we can parse JSON type {} hashmaps.
-		tok2, err := parser.ParserPeekNextToken(0)
+		// (the bracket is open while we look ahead)
+		parser.open++
+		defer func() { parser.open-- }()
+		tok2, extra, err := parser.peekPastComments(0)
 		if err != nil {
 			return SexpNull, err
 		}
 
-		extra := 1
-		// skip past comments
-		for tok2.typ == TokenBeginBlockComment || tok2.typ == TokenComment {
-			if tok2.typ == TokenBeginBlockComment {
-				_, err = parser.ParserPeekNextToken(extra + 2)
-				if err != nil {
-					return SexpNull, err
-				}
-				// to discern the pattern:
-				//tok2 = lexer.tokens[extra]    // TokenComment
-				//tok3 := lexer.tokens[extra+1] // TokenEndBlockComment
-				//vv("tok2 = '%v' / '%#v' (extra=%v)", tok2.String(), tok2, extra)
-				//vv("tok3 = '%v' / '%#v'", tok3.String(), tok3)
-
-				tok2 = lexer.tokens[extra+2]
-				extra += 3
-			}
-			if tok2.typ == TokenComment {
-				_, err = parser.ParserPeekNextToken(extra)
-				if err != nil {
-					return SexpNull, err
-				}
-				//vv("tok2 = '%v' / '%#v'", tok2.String(), tok2)
-				tok2 = lexer.tokens[extra]
-				extra++
-			}
-		}
-
 		switch tok2.typ {
 		case TokenSymbolColon:
 			_, err = parser.ParserPeekNextToken(extra)
@@ -320,7 +303,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 			return MakeHash(nil, "hash", env) // return empty hash
 		case TokenString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra)
+			_, err = parser.ParserPeekNextToken(extra)
+			if err != nil {
+				return SexpNull, err
+			}
 
 			// are we { "name": value }, as in JSON?
 			second := lexer.tokens[extra]
@@ -336,7 +322,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 
 		case TokenBeginBacktickString:
 			// peek ahead past the string to see if we have ':' TokenColonOperator
-			_, _ = parser.ParserPeekNextToken(extra + 1)
+			_, err = parser.ParserPeekNextToken(extra + 1)
+			if err != nil {
+				return SexpNull, err
+			}
 
 			// are we { `name`: value }, as in JSON but with backtick quoted string this time?
 			second := lexer.tokens[extra]
@@ -356,26 +345,26 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		exp, err := parser.ParseInfix(depth + 1)
 		return exp, err
 	case TokenQuote:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("quote"), expr}), nil
 	case TokenCaret:
 		// '^' is now our syntax-quote symbol, not TokenBacktick, to allow go-style `string literals`.
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("syntaxQuote"), expr}), nil
 	case TokenTilde:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
 		return MakeList([]Sexp{env.MakeSymbol("unquote"), expr}), nil
 	case TokenTildeAt:
-		expr, err := parser.ParseExpression(depth + 1)
+		expr, err := parser.parseOperand(depth + 1)
 		if err != nil {
 			return SexpNull, err
 		}
@@ -468,6 +457,10 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		if tok.str == "-" || tok.str == "+" {
 			// are we -Inf ?
 			tok2, err := parser.ParserPeekNextToken(0)
+			if err == ErrMoreInputNeeded {
+				// nothing will follow, and nothing needs to.
+				tok2, err = EndTk, nil
+			}
 			if err != nil {
 				return SexpEnd, err
 			}
@@ -546,6 +539,10 @@ func (p *Parser) ParseTokens() (sx []Sexp, err error) {
 				}
 			}
 			if err != nil {
+				if err != ErrMoreInputNeeded {
+					// only a parse that waits for input can go on.
+					p.Stop()
+				}
 				return
 			}
 		}
@@ -567,18 +564,78 @@ func (p *Parser) ParsingIter() iter.Seq[*ParserReply] {
 		var err error
 		const depth0 int = 0
 		for {
+			p.lexer.forget()
 			expr, err = p.ParseExpression(depth0)
-			if err != nil || expr == SexpEnd {
+			if err == errLookPastEnd {
+				p.lexer.untake()
+				expr, err = SexpEnd, nil
+			}
+			if err == ParserHaltRequested {
+				return
+			}
+			if err != nil {
 				p.sendMe.Err = err
 				yield(p.sendMe)
 				return
 			}
-			p.sendMe.Expr = append(p.sendMe.Expr, expr)
+			if expr != SexpEnd {
+				p.sendMe.Expr = append(p.sendMe.Expr, expr)
+				continue
+			}
+
+			// the text so far may end in the middle of a string,
+			// or in an expression which only its end delimits.
+			var last []Sexp
+			if p.lexer.inString() {
+				err = ErrMoreInputNeeded
+			} else {
+				last, err = p.parseLast()
+			}
+			if err == ErrMoreInputNeeded {
+				p.sendMe.Err = err
+				if !yield(p.sendMe) {
+					return
+				}
+				continue
+			}
+			n := len(p.sendMe.Expr)
+			yield(&ParserReply{Expr: append(p.sendMe.Expr[:n:n], last...), Err: err})
+			return
 		}
 		// never reached.
 	}
 }
 
+// errLookPastEnd: outside of all brackets, the parser wants to
+// know what follows the end of the text so far.
+var errLookPastEnd = errors.New("at the end of the input")
+
+// parseLast parses what the lexer still holds as if the text ended here,
+// and then puts the lexer back, so that more input can follow.
+func (p *Parser) parseLast() (xs []Sexp, err error) {
+	lexer := p.lexer
+	st, partial := lexer.snapshot()
+	p.atEnd = true
+	defer func() {
+		p.atEnd = false
+		lexer.restore(st, partial)
+	}()
+
+	if err = lexer.LexNextRune('\n'); err != nil {
+		return nil, err
+	}
+	if lexer.inRune() {
+		return nil, errors.New("unfinished character literal")
+	}
+	for {
+		x, err := p.ParseExpression(0)
+		if err != nil || x == SexpEnd {
+			return xs, err
+		}
+		xs = append(xs, x)
+	}
+}
+
 var ErrShuttingDown error = fmt.Errorf("lexer shutting down")
 
 func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
@@ -593,22 +650,11 @@ func (parser *Parser) ParseBlockComment(start *Token) (sx Sexp, err error) {
 	var block = &SexpComment{Block: true, Comment: start.str}
 
 	for {
-	tokFilled:
-		for {
-			tok, err = lexer.PeekNextToken(0)
-			if err != nil {
-				return SexpNull, err
-			}
-			if tok.typ != TokenEnd {
-				break tokFilled
-			}
-			parser.sendMe.Err = ErrMoreInputNeeded
-			ok := parser.yield(parser.sendMe)
-			if !ok {
-				return SexpEnd, nil
-			}
-			// have to still fill tok, so
-			// loop to the top to PeekNextToken
+		parser.open++ // not finished before its end token
+		tok, err = parser.ParserPeekNextToken(0)
+		parser.open--
+		if err != nil {
+			return SexpNull, err
 		}
 
 		// consume it
@@ -638,22 +684,11 @@ func (parser *Parser) ParseBacktickString(start *Token) (sx Sexp, err error) {
 	var tok Token
 
 	for {
-	tokFilled:
-		for {
-			tok, err = lexer.PeekNextToken(0)
-			if err != nil {
-				return SexpNull, err
-			}
-			if tok.typ != TokenEnd {
-				break tokFilled
-			}
-			parser.sendMe.Err = ErrMoreInputNeeded
-			ok := parser.yield(parser.sendMe)
-			if !ok {
-				return SexpEnd, nil
-			}
-			// have to still fill tok, so
-			// loop to the top to PeekNextToken
+		parser.open++ // not finished before its end token
+		tok, err = parser.ParserPeekNextToken(0)
+		parser.open--
+		if err != nil {
+			return SexpNull, err
 		}
 
 		// consume it
@@ -673,31 +708,18 @@ func (parser *Parser) ParseBacktickString(start *Token) (sx Sexp, err error) {
 
 func (parser *Parser) ParseInfix(depth int) (Sexp, error) {
 	parser.recur++
-	defer func() { parser.recur-- }()
+	parser.open++
+	defer func() {
+		parser.recur--
+		parser.open--
+	}()
 
 	lexer := parser.lexer
 	arr := make([]Sexp, 0, SliceDefaultCap)
-	var err error
-	var tok Token
 	for {
-	getTok:
-		for {
-			tok, err = lexer.PeekNextToken(0)
-			if err != nil {
-				return SexpEnd, err
-			}
-
-			if tok.typ != TokenEnd {
-				break getTok
-			} else {
-				//instead of return SexpEnd, UnexpectedEnd
-				// we ask for more, and then loop
-				parser.sendMe.Err = ErrMoreInputNeeded
-				ok := parser.yield(parser.sendMe)
-				if !ok {
-					return SexpEnd, nil
-				}
-			}
+		tok, err := parser.ParserPeekNextToken(0)
+		if err != nil {
+			return SexpEnd, err
 		}
 
 		if tok.typ == TokenRCurly {
@@ -730,6 +752,8 @@ func (parser *Parser) Linenum() int {
 	return parser.lexer.Linenum()
 }
 
+// ParserPeekNextToken peeks at the extra-th token from here, and asks for more
+// input when there are not that many.
 func (parser *Parser) ParserPeekNextToken(extra int) (tok Token, err error) {
 
 	lexer := parser.lexer
@@ -741,18 +765,23 @@ func (parser *Parser) ParserPeekNextToken(extra int) (tok Token, err error) {
 		}
 		if tok.typ != TokenEnd {
 			return
-		} else {
-			//instead of return SexpEnd, UnexpectedEnd
-			// we ask for more, and then loop
-
-			parser.sendMe.Err = ErrMoreInputNeeded
-			ok := parser.yield(parser.sendMe)
-			if !ok {
-				err = ParserHaltRequested
-				return
+		}
+		if parser.open == 0 {
+			// an expression outside of all brackets
+			// may be delimited by the end of the text.
+			if parser.atEnd {
+				return tok, ErrMoreInputNeeded
 			}
-			// otherwise, loop
+			return tok, errLookPastEnd
 		}
+
+		//instead of return SexpEnd, UnexpectedEnd
+		// we ask for more, and then loop
+		parser.sendMe.Err = ErrMoreInputNeeded
+		ok := parser.yield(parser.sendMe)
+		if !ok {
+			return tok, ParserHaltRequested
+		}
+		// otherwise, loop
 	}
-	return
 }
-- 
2.43.0


From f250eee54aafaecc2af179001747a7a4932af628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 20/51] fix: a block comment may end in more than one asterisk

---
 zygo/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index 2d1a0c8..a7d16f6 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -515,8 +515,11 @@ top:
 		if err != nil {
 			return err
 		}
+		if r == '*' {
+			return nil // this one may be followed by the slash
+		}
 		lexer.state = LexerCommentBlock
-		goto writeRuneToBuffer
+		goto top
 
 	case LexerFirstFwdSlash:
 		//Q("lexer.state = LexerFirstFwdSlash")
-- 
2.43.0


From 11f3a66420e918e024e28f201d03c8e1d6cfc727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 21/51] fix: source of several files left values on the data
 stack; source of none took the caller's

---
 zygo/source.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zygo/source.go b/zygo/source.go
index f1a9a2b..5f67a8b 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -103,16 +103,22 @@ func SourceFileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		return SexpNull, WrongNargs
 	}
 
+	base := env.datastack.Size()
 	for _, v := range args {
 		if err := env.sourceItem(v); err != nil {
 			return SexpNull, err
 		}
 	}
+	if env.datastack.Size() == base {
+		return SexpNull, nil // there was nothing to source
+	}
 
+	// every file left its value; ours is the last one.
 	result, err := env.datastack.PopExpr()
 	if err != nil {
 		return SexpNull, err
 	}
+	env.datastack.TruncateToSize(base)
 	return result, nil
 }
 
-- 
2.43.0


From 21bc1c10269ba40c6225555d0db59e16f8d3a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 22/51] fix: whole floats and string hash keys print so that
 they read back

A float without a fraction printed as an integer; a string key
containing quotes, backslashes or control characters printed raw.
---
 zygo/expressions.go | 6 +++++-
 zygo/hashutils.go   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index e75d42a..6bad61a 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -509,7 +509,11 @@ func (f *SexpFloat) SexpString(ps *PrintState) string {
 	if f.Scientific {
 		return strconv.FormatFloat(f.Val, 'e', -1, SexpFloatSize)
 	}
-	return strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	s := strconv.FormatFloat(f.Val, 'f', -1, SexpFloatSize)
+	if !strings.ContainsAny(s, ".IN") {
+		s += ".0" // without a point it would read back as an integer
+	}
+	return s
 }
 
 func (c *SexpChar) SexpString(ps *PrintState) string {
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 5e38379..f94d683 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -925,7 +925,7 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			onKey++
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + `"` + s.S + `":`
+				str += indInner + s.SexpString(nil) + ":"
 			case *SexpSymbol:
 				if asJSON {
 					str += indInner + `"` + s.name + `":`
-- 
2.43.0


From f2a89c9192a37eb10de37b4a24bf9c84cabe3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 23/51] fix: literals denote what is written

Characters outside ASCII were cut to their first byte; the escapes
the printer writes (\b \f \v \x41 \u0041 \U00000041) were not read;
nil read back as a symbol; floats with underscores and signed hex,
octal and binary numbers were errors or symbols; -.5 was read as
two tokens, .5e3 and misspelled numbers as symbols.
---
 zygo/lexer.go  | 115 ++++++++++++++++++++++++++++++++++++++++++++-----
 zygo/parser.go |  11 +++--
 2 files changed, 113 insertions(+), 13 deletions(-)

diff --git a/zygo/lexer.go b/zygo/lexer.go
index a7d16f6..84e10f8 100644
--- a/zygo/lexer.go
+++ b/zygo/lexer.go
@@ -128,6 +128,8 @@ const (
 	LexerBuiltinOperator
 	LexerRuneLit
 	LexerRuneEscaped
+	LexerHexEscape // in the digits of \x41, \u0041 or \U00000041
+	LexerMinusDot  // could be the start of -.5
 )
 
 type Lexer struct {
@@ -149,6 +151,13 @@ type lexerState struct {
 	preBuiltinRune rune
 	linenum        int
 
+	// the \x, \u or \U escape we are in: its digits so far, how many
+	// are to come, is it \x, and the state to return to.
+	escape      rune
+	escapeLeft  int
+	escapeX     bool
+	escapeState LexerState
+
 	priori    int
 	priorRune [20]rune
 }
@@ -223,12 +232,14 @@ func (lex *Lexer) restore(st lexerState, partial string) {
 
 // inString is true inside of a "" string.
 func (lex *Lexer) inString() bool {
-	return lex.state == LexerStrLit || lex.state == LexerStrEscaped
+	return lex.state == LexerStrLit || lex.state == LexerStrEscaped ||
+		lex.state == LexerHexEscape && lex.escapeState == LexerStrLit
 }
 
 // inRune is true inside of a character literal.
 func (lex *Lexer) inRune() bool {
-	return lex.state == LexerRuneLit || lex.state == LexerRuneEscaped
+	return lex.state == LexerRuneLit || lex.state == LexerRuneEscaped ||
+		lex.state == LexerHexEscape && lex.escapeState == LexerRuneLit
 }
 
 // untake gives back the tokens taken since the last call to forget.
@@ -257,9 +268,9 @@ var (
 	BoolRegex    = regexp.MustCompile("^(true|false)$")
 	Uint64Regex  = regexp.MustCompile("^(0x|0o)?[0-9a-fA-F]+ULL$")
 	DecimalRegex = regexp.MustCompile("^-?[0-9][_0-9]*$") // allow underscores now, like go1.13
-	HexRegex     = regexp.MustCompile("^0x[0-9a-fA-F]+$")
-	OctRegex     = regexp.MustCompile("^0o[0-7]+$")
-	BinaryRegex  = regexp.MustCompile("^0b[01]+$")
+	HexRegex     = regexp.MustCompile("^-?0x[0-9a-fA-F]+$")
+	OctRegex     = regexp.MustCompile("^-?0o[0-7]+$")
+	BinaryRegex  = regexp.MustCompile("^-?0b[01]+$")
 	InfRegex     = regexp.MustCompile(`^(-|\+)?[Ii]nf$`)
 
 	// SymbolRegex = regexp.MustCompile("^[^'#]+$")
@@ -278,7 +289,10 @@ var (
 	DotPartsRegex  = regexp.MustCompile(`[.]?[^'#:;\\~@\[\]{}\^|"()%.0-9,][^'#:;\\~@\[\]{}\^|"()%.,]*`)
 	CharRegex      = regexp.MustCompile("^'(\\\\?.|\n)'$")
 
-	FloatRegex = regexp.MustCompile(`^-?([0-9]+[0-9_]*\.[0-9_]*)$|^-?(\.[0-9]+[0-9_]*)$|^-?([0-9]+[0-9_]*(\.[0-9_]*)?[eE]([-+]?[0-9]+[0-9_]*))$`)
+	FloatRegex = regexp.MustCompile(`^-?([0-9]+[0-9_]*\.[0-9_]*)$|^-?(\.[0-9]+[0-9_]*)$|^-?(([0-9]+[0-9_]*(\.[0-9_]*)?|\.[0-9]+[0-9_]*)[eE]([-+]?[0-9]+[0-9_]*))$`)
+
+	// what starts like this is a number or nothing.
+	NumberStartRegex = regexp.MustCompile(`^-?\.?[0-9]`)
 
 	ComplexRegex = regexp.MustCompile("^-?([0-9]+[0-9_]*\\.[0-9_]*)i?$|^-?(\\.[0-9]+[0-9_]*)i?$|^-?([0-9]+[0-9_]*(\\.[0-9_]*)?[eE](-?[0-9]+[0-9_]*))i?$")
 
@@ -291,7 +305,8 @@ func sliceBoundLiteralBeforeColon(atom string) bool {
 	if len(atom) > 1 && atom[0] == '-' {
 		return SliceBoundsRegex.MatchString(atom[1:])
 	}
-	return SliceBoundsRegex.MatchString(atom)
+	return SliceBoundsRegex.MatchString(atom) || HexRegex.MatchString(atom) ||
+		OctRegex.MatchString(atom) || BinaryRegex.MatchString(atom)
 }
 
 func StringToRunes(str string) []rune {
@@ -316,6 +331,12 @@ func EscapeChar(char rune) (rune, error) {
 		return '\a', nil
 	case 't':
 		return '\t', nil
+	case 'b':
+		return '\b', nil
+	case 'f':
+		return '\f', nil
+	case 'v':
+		return '\v', nil
 	case '\\':
 		return '\\', nil
 	case '"':
@@ -344,6 +365,14 @@ func DecodeChar(atom string) (string, error) {
 	return "", errors.New("not a char literal")
 }
 
+// withoutBase removes the 0x, 0o or 0b after the sign of a number, if any.
+func withoutBase(atom string) string {
+	if atom[0] == '-' {
+		return "-" + atom[3:]
+	}
+	return atom[2:]
+}
+
 func (x *Lexer) DecodeAtom(atom string) (tk Token, err error) {
 
 	endColon := false
@@ -368,13 +397,13 @@ func (x *Lexer) DecodeAtom(atom string) (tk Token, err error) {
 		return x.Token(TokenDecimal, atom), nil
 	}
 	if HexRegex.MatchString(atom) {
-		return x.Token(TokenHex, atom[2:]), nil
+		return x.Token(TokenHex, withoutBase(atom)), nil
 	}
 	if OctRegex.MatchString(atom) {
-		return x.Token(TokenOct, atom[2:]), nil
+		return x.Token(TokenOct, withoutBase(atom)), nil
 	}
 	if BinaryRegex.MatchString(atom) {
-		return x.Token(TokenBinary, atom[2:]), nil
+		return x.Token(TokenBinary, withoutBase(atom)), nil
 	}
 	if FloatRegex.MatchString(atom) {
 		return x.Token(TokenFloat, atom), nil
@@ -386,6 +415,9 @@ func (x *Lexer) DecodeAtom(atom string) (tk Token, err error) {
 		//vv("InfRegex has matched atom = '%v'", atom)
 		return x.Token(TokenFloat, atom), nil
 	}
+	if NumberStartRegex.MatchString(atom) {
+		return x.EmptyToken(), fmt.Errorf("Unrecognized atom: '%s'", atom)
+	}
 	if DotSymbolRegex.MatchString(atom) {
 		//Q("matched DotSymbolRegex '%v'", atom)
 		return x.Token(TokenDotSymbol, atom), nil
@@ -474,6 +506,46 @@ func (x *Lexer) DecodeBrace(brace rune) Token {
 	return EndTk
 }
 
+// startHexEscape: does r, after a backslash, start a \x, \u or \U escape?
+func (lexer *Lexer) startHexEscape(r rune, next LexerState) bool {
+	switch r {
+	case 'x':
+		lexer.escapeLeft = 2
+	case 'u':
+		lexer.escapeLeft = 4
+	case 'U':
+		lexer.escapeLeft = 8
+	default:
+		return false
+	}
+	lexer.escape = 0
+	lexer.escapeX = r == 'x'
+	lexer.escapeState = next
+	lexer.state = LexerHexEscape
+	return true
+}
+
+func (lexer *Lexer) hexEscape(r rune) error {
+	d, err := strconv.ParseUint(string(r), 16, 8)
+	if err != nil || lexer.escape > utf8.MaxRune {
+		return errors.New("invalid escape sequence")
+	}
+	lexer.escape = lexer.escape<<4 | rune(d)
+	lexer.escapeLeft--
+	if lexer.escapeLeft > 0 {
+		return nil
+	}
+	lexer.state = lexer.escapeState
+	if lexer.escapeX && lexer.state == LexerStrLit {
+		return lexer.buffer.WriteByte(byte(lexer.escape))
+	}
+	if !utf8.ValidRune(lexer.escape) {
+		return errors.New("invalid escape sequence")
+	}
+	_, err = lexer.buffer.WriteRune(lexer.escape)
+	return err
+}
+
 func (lexer *Lexer) LexNextRune(r rune) error {
 
 	// a little look-back ring. To help with scientific
@@ -584,7 +656,13 @@ top:
 		lexer.buffer.WriteRune(r)
 		return nil
 
+	case LexerHexEscape:
+		return lexer.hexEscape(r)
+
 	case LexerStrEscaped:
+		if lexer.startHexEscape(r, LexerStrLit) {
+			return nil
+		}
 		char, err := EscapeChar(r)
 		if err != nil {
 			return err
@@ -608,6 +686,9 @@ top:
 		return nil
 
 	case LexerRuneEscaped:
+		if lexer.startHexEscape(r, LexerRuneLit) {
+			return nil
+		}
 		char, err := EscapeChar(r)
 		if err != nil {
 			return err
@@ -684,6 +765,10 @@ top:
 			} else {
 				//Q("atom was not matched by FloatRegex: '%s'", atom)
 			}
+			if r == '.' {
+				lexer.state = LexerMinusDot
+				return nil
+			}
 		}
 
 		if BuiltinOpRegex.MatchString(atom) {
@@ -702,6 +787,16 @@ top:
 		lexer.AppendToken(lexer.Token(TokenSymbol, first))
 		goto top // still have to parse r in normal
 
+	case LexerMinusDot:
+		lexer.state = LexerNormal
+		if r >= '0' && r <= '9' {
+			lexer.buffer.WriteString("-.")
+		} else {
+			lexer.AppendToken(lexer.Token(TokenSymbol, "-"))
+			lexer.buffer.WriteRune('.')
+		}
+		goto top
+
 	case LexerNormal:
 		switch r {
 		case '+':
diff --git a/zygo/parser.go b/zygo/parser.go
index ad947f4..2f794c0 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 var NaN float64
@@ -407,7 +408,7 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 			return SexpNull, err
 		}
 		return &SexpInt{Val: i}, nil
-	case TokenHex:
+	case TokenHex: // these may have a sign
 		i, err := strconv.ParseInt(tok.str, 16, SexpIntSize)
 		if err != nil {
 			return SexpNull, err
@@ -426,7 +427,8 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		}
 		return &SexpInt{Val: i}, nil
 	case TokenChar:
-		return &SexpChar{Val: rune(tok.str[0])}, nil
+		r, _ := utf8.DecodeRuneInString(tok.str)
+		return &SexpChar{Val: r}, nil
 	case TokenString:
 		return &SexpStr{S: tok.str}, nil
 	case TokenBeginBacktickString:
@@ -440,7 +442,7 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 		if tok.str == "NaN" {
 			f = NaN
 		} else {
-			f, err = strconv.ParseFloat(tok.str, SexpFloatSize)
+			f, err = strconv.ParseFloat(strings.ReplaceAll(tok.str, "_", ""), SexpFloatSize)
 			if err != nil {
 				return SexpNull, err
 			}
@@ -477,6 +479,9 @@ func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 				}
 			}
 		}
+		if tok.str == "nil" {
+			return SexpNull, nil
+		}
 		return env.MakeSymbol(tok.str), nil
 	case TokenSymbolColon:
 		sym := env.MakeSymbol(tok.str)
-- 
2.43.0


From 7472dd226bbc79cd651a590d0a198f162c424cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 24/51] fix: nil, characters and uint64s can follow another
 expression in an infix block

---
 zygo/pratt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index 9309bcd..4ac9d3f 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -1073,6 +1073,8 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		return 0, nil
 	case *SexpStr:
 		return 0, nil
+	case *SexpChar, *SexpUint64, *SexpSentinel:
+		return 0, nil
 	case *SexpSymbol:
 		op, found := env.infixOps[x.name]
 		if x.name == "if" {
-- 
2.43.0


From 22331e96a333eb028ecc607946cf0e5167a4751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 25/51] fix: json and msgpack of strings, keys, nil and numbers

Keys and strings were quoted as Go does, string keys twice, nil was
written as nil, uint64s with their suffix. Floats with many digits
were decoded to a neighbour and large integers not at all; what json
has no notation for is an error, as are keys that clash with each
other or with Atype and zKeyOrder, whose order is no longer taken
from the text unseen.
---
 zygo/hashutils.go |  21 +++-
 zygo/jsonmsgp.go  | 272 +++++++++++++++++++++++++++++++++++++---------
 2 files changed, 233 insertions(+), 60 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index f94d683..cca0023 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -477,17 +477,26 @@ func HashIsEmpty(hash *SexpHash) bool {
 }
 
 func SetHashKeyOrder(hash *SexpHash, keyOrd Sexp) error {
-	// truncate down to zero, then build back up correctly.
-	hash.KeyOrder = hash.KeyOrder[:0]
-
 	keys, isArr := keyOrd.(*SexpArray)
 	if !isArr {
-		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%#v'", keyOrd, keyOrd)
+		return fmt.Errorf("must have SexpArray for keyOrd, but instead we have: %T with value='%s'", keyOrd, keyOrd.SexpString(nil))
+	}
+	if len(keys.Val) != len(hash.KeyOrder) {
+		return fmt.Errorf("key order of %d keys for a hash with %d keys", len(keys.Val), len(hash.KeyOrder))
 	}
+	seen := make(map[string]bool)
 	for _, key := range keys.Val {
-		hash.KeyOrder = append(hash.KeyOrder, key)
+		_, err := hash.HashGet(nil, key)
+		if err != nil {
+			return err
+		}
+		str := key.SexpString(nil)
+		if seen[str] {
+			return fmt.Errorf("key order has the key '%s' twice", str)
+		}
+		seen[str] = true
 	}
-
+	hash.KeyOrder = append([]Sexp{}, keys.Val...)
 	return nil
 }
 
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index ff42501..c0e8484 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -2,11 +2,14 @@ package zygo
 
 import (
 	"bytes"
+	"encoding/json"
 	"fmt"
 	"github.com/shurcooL/go-goon"
 	"github.com/ugorji/go/codec"
+	"math"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
 	"unsafe"
@@ -66,7 +69,10 @@ func JsonFunction(name string) ZlispUserFunction {
 
 		switch name {
 		case "json":
-			str := SexpToJson(args[0])
+			str, err := sexpToJson(args[0])
+			if err != nil {
+				return SexpNull, err
+			}
 			return &SexpRaw{Val: []byte(str)}, nil
 		case "unjson":
 			raw, isRaw := args[0].(*SexpRaw)
@@ -75,7 +81,10 @@ func JsonFunction(name string) ZlispUserFunction {
 			}
 			return JsonToSexp([]byte(raw.Val), env)
 		case "msgpack":
-			by, _ := SexpToMsgpack(args[0])
+			by, _, err := sexpToMsgpack(args[0])
+			if err != nil {
+				return SexpNull, err
+			}
 			return &SexpRaw{Val: []byte(by)}, nil
 		case "unmsgpack":
 			raw, isRaw := args[0].(*SexpRaw)
@@ -98,64 +107,117 @@ func JsonToSexp(json []byte, env *Zlisp) (Sexp, error) {
 	return GoToSexp(iface, env)
 }
 
-// sexp -> json
+// sexp -> json. It panics if exp has no representation in json.
 func SexpToJson(exp Sexp) string {
+	str, err := sexpToJson(exp)
+	panicOn(err)
+	return str
+}
+
+func sexpToJson(exp Sexp) (string, error) {
 	switch e := exp.(type) {
 	case *SexpHash:
 		return e.jsonHashHelper()
 	case *SexpArray:
 		return e.jsonArrayHelper()
 	case *SexpSymbol:
-		return `"` + e.name + `"`
-	default:
-		return exp.SexpString(nil)
+		return jsonString(e.name), nil
+	case *SexpStr:
+		return jsonString(e.S), nil
+	case *SexpUint64:
+		return strconv.FormatUint(e.Val, 10), nil
+	case *SexpFloat:
+		return jsonFloat(e.Val)
+	case *SexpSentinel:
+		if e == SexpNull {
+			return "null", nil
+		}
 	}
+	str := exp.SexpString(nil)
+	if !json.Valid([]byte(str)) {
+		return jsonString(str), nil
+	}
+	return str, nil
 }
 
-func (hash *SexpHash) jsonHashHelper() string {
-	str := fmt.Sprintf(`{"Atype":"%s", `, hash.TypeName)
+// jsonString quotes s as json requires, which isn't always how Go does.
+func jsonString(s string) string {
+	var w bytes.Buffer
+	enc := json.NewEncoder(&w)
+	enc.SetEscapeHTML(false)
+	err := enc.Encode(s)
+	panicOn(err) // not for strings
+	return strings.TrimSuffix(w.String(), "\n")
+}
 
-	ko := []string{}
-	n := len(hash.KeyOrder)
-	if n == 0 {
-		return str[:len(str)-2] + "}"
+func jsonFloat(f float64) (string, error) {
+	if math.IsInf(f, 0) || math.IsNaN(f) {
+		return "", fmt.Errorf("json cannot represent %v", f)
 	}
+	str := strconv.FormatFloat(f, 'g', -1, 64)
+	if !strings.ContainsAny(str, ".e") {
+		str += ".0" // still a float when decoded
+	}
+	return str, nil
+}
 
-	for _, key := range hash.KeyOrder {
-		keyst := key.SexpString(nil)
-		ko = append(ko, keyst)
-		val, err := hash.HashGet(nil, key)
-		if err == nil {
-			str += `"` + keyst + `":`
-			str += string(SexpToJson(val)) + `, `
-		} else {
-			panic(err)
+// encodedKeys returns the names of the members of the hash in their order.
+func (hash *SexpHash) encodedKeys() ([]string, error) {
+	seen := map[string]bool{"Atype": true, "zKeyOrder": true}
+	names := make([]string, len(hash.KeyOrder))
+	for i, key := range hash.KeyOrder {
+		switch k := key.(type) {
+		case *SexpSymbol:
+			names[i] = k.name
+		case *SexpStr:
+			names[i] = k.S
+		default:
+			names[i] = key.SexpString(nil)
+		}
+		if seen[names[i]] {
+			return nil, fmt.Errorf("cannot encode a hash with the key '%s': it is reserved, or used twice", names[i])
 		}
+		seen[names[i]] = true
 	}
+	return names, nil
+}
 
-	str += `"zKeyOrder":[`
-	for _, key := range ko {
-		str += `"` + key + `", `
+func (hash *SexpHash) jsonHashHelper() (string, error) {
+	str := `{"Atype":` + jsonString(hash.TypeName)
+	names, err := hash.encodedKeys()
+	if err != nil {
+		return "", err
 	}
-	if n > 0 {
-		str = str[:len(str)-2]
+	if len(names) == 0 {
+		return str + "}", nil
 	}
-	str += "]}"
-
-	//VPrintf("\n\n final ToJson() str = '%s'\n", str)
-	return str
-}
 
-func (arr *SexpArray) jsonArrayHelper() string {
-	if len(arr.Val) == 0 {
-		return "[]"
+	ko := make([]string, len(names))
+	for i, key := range hash.KeyOrder {
+		val, err := hash.HashGet(nil, key)
+		if err != nil {
+			return "", err
+		}
+		js, err := sexpToJson(val)
+		if err != nil {
+			return "", err
+		}
+		ko[i] = jsonString(names[i])
+		str += `, ` + ko[i] + `:` + js
 	}
+	return str + `, "zKeyOrder":[` + strings.Join(ko, ", ") + "]}", nil
+}
 
-	str := "[" + SexpToJson(arr.Val[0])
-	for _, sexp := range arr.Val[1:] {
-		str += ", " + SexpToJson(sexp)
+func (arr *SexpArray) jsonArrayHelper() (string, error) {
+	ele := make([]string, len(arr.Val))
+	for i, sexp := range arr.Val {
+		js, err := sexpToJson(sexp)
+		if err != nil {
+			return "", err
+		}
+		ele[i] = js
 	}
-	return str + "]"
+	return "[" + strings.Join(ele, ", ") + "]", nil
 }
 
 type msgpackHelper struct {
@@ -176,7 +238,6 @@ func (m *msgpackHelper) init() {
 	//does this make a differenece? m.mh.AddExt(reflect.TypeOf(time.Time{}), 1, timeEncExt, timeDecExt)
 	m.mh.RawToString = true
 	m.mh.WriteExt = true
-	m.mh.SignedInteger = true
 	m.mh.Canonical = true // sort maps before writing them
 
 	// JSON
@@ -193,30 +254,130 @@ func init() {
 	msgpHelper.init()
 }
 
-// translate to sexp -> json -> go -> msgpack
-// returns both the msgpack []bytes and the go intermediary
+// translate to sexp -> go -> msgpack
+// returns both the msgpack []bytes and the go intermediary, which
+// has the same members as the json. It panics if exp has no
+// representation in msgpack.
 func SexpToMsgpack(exp Sexp) ([]byte, interface{}) {
-
-	json := []byte(SexpToJson(exp))
-	iface, err := JsonToGo(json)
-	panicOn(err)
-	by, err := GoToMsgpack(iface)
+	by, iface, err := sexpToMsgpack(exp)
 	panicOn(err)
 	return by, iface
 }
 
+func sexpToMsgpack(exp Sexp) ([]byte, interface{}, error) {
+	iface, err := sexpToPlainGo(exp)
+	if err != nil {
+		return nil, nil, err
+	}
+	by, err := GoToMsgpack(iface)
+	return by, iface, err
+}
+
+// sexpToPlainGo returns what decoding the json for exp would.
+func sexpToPlainGo(exp Sexp) (interface{}, error) {
+	switch e := exp.(type) {
+	case *SexpHash:
+		names, err := e.encodedKeys()
+		if err != nil {
+			return nil, err
+		}
+		m := map[string]interface{}{"Atype": e.TypeName}
+		ko := make([]interface{}, len(names))
+		for i, key := range e.KeyOrder {
+			val, err := e.HashGet(nil, key)
+			if err != nil {
+				return nil, err
+			}
+			m[names[i]], err = sexpToPlainGo(val)
+			if err != nil {
+				return nil, err
+			}
+			ko[i] = names[i]
+		}
+		if len(names) > 0 {
+			m["zKeyOrder"] = ko
+		}
+		return m, nil
+	case *SexpArray:
+		ar := make([]interface{}, len(e.Val))
+		for i, ele := range e.Val {
+			val, err := sexpToPlainGo(ele)
+			if err != nil {
+				return nil, err
+			}
+			ar[i] = val
+		}
+		return ar, nil
+	case *SexpSymbol:
+		return e.name, nil
+	case *SexpStr:
+		return e.S, nil
+	case *SexpInt:
+		return e.Val, nil
+	case *SexpUint64:
+		return signedIfFits(e.Val), nil
+	case *SexpFloat:
+		return e.Val, nil
+	case *SexpBool:
+		return e.Val, nil
+	case *SexpSentinel:
+		if e == SexpNull {
+			return nil, nil
+		}
+	}
+	js, err := sexpToJson(exp)
+	if err != nil {
+		return nil, err
+	}
+	return JsonToGo([]byte(js))
+}
+
+// signedIfFits prefers int64 for what both int64 and uint64 can hold.
+func signedIfFits(u uint64) interface{} {
+	if u <= math.MaxInt64 {
+		return int64(u)
+	}
+	return u
+}
+
+// plainNumbers replaces the numbers in what was decoded by int64,
+// or, for large ones, uint64 and float64.
+func plainNumbers(iface interface{}) interface{} {
+	switch x := iface.(type) {
+	case map[string]interface{}:
+		for k, v := range x {
+			x[k] = plainNumbers(v)
+		}
+	case []interface{}:
+		for i, v := range x {
+			x[i] = plainNumbers(v)
+		}
+	case uint64:
+		return signedIfFits(x)
+	case json.Number:
+		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(string(x), 10, 64); err == nil {
+			return u
+		}
+		f, _ := x.Float64() // json.Number is well-formed; Inf if too large
+		return f
+	}
+	return iface
+}
+
 // json -> go
-func JsonToGo(json []byte) (interface{}, error) {
+func JsonToGo(by []byte) (interface{}, error) {
 	var iface interface{}
 
-	decoder := codec.NewDecoderBytes(json, &msgpHelper.jh)
+	decoder := json.NewDecoder(bytes.NewReader(by))
+	decoder.UseNumber()
 	err := decoder.Decode(&iface)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	//VPrintf("\n decoded type : %T\n", iface)
-	//VPrintf("\n decoded value: %#v\n", iface)
-	return iface, nil
+	return plainNumbers(iface), nil
 }
 
 func GoToMsgpack(iface interface{}) ([]byte, error) {
@@ -265,7 +426,7 @@ func MsgpackToGo(msgp []byte) (interface{}, error) {
 
 	//fmt.Printf("\n decoded type : %T\n", iface)
 	//fmt.Printf("\n decoded value: %#v\n", iface)
-	return iface, nil
+	return plainNumbers(iface), nil
 }
 
 // convert iface, which will typically be map[string]interface{},
@@ -297,6 +458,9 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		//VPrintf("depth %d found int64 case: val = %#v\n", depth, val)
 		return &SexpInt{Val: val}
 
+	case uint64:
+		return &SexpUint64{Val: val}
+
 	case float64:
 		//VPrintf("depth %d found float64 case: val = %#v\n", depth, val)
 		return &SexpFloat{Val: val}
@@ -340,11 +504,11 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 			}
 		}
 		hash, err := MakeHash(pairs, typeName, env)
+		panicOn(err)
 		if foundzKeyOrder {
 			err = SetHashKeyOrder(hash, keyOrd)
 			panicOn(err)
 		}
-		panicOn(err)
 		return hash
 
 	case []byte:
-- 
2.43.0


From e2140555cab59677c2a97de583b07dfd2bd370d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 26/51] fix: endless recursion is an error, not a Go stack
 overflow

Run and Generate count how deep they nest and stop at 50000. Closings
copy only the scopes they keep, so that nesting does not take time
quadratic in its depth; neither do error texts.
---
 zygo/closing.go     | 21 ++++++++++++---------
 zygo/environment.go | 31 +++++++++++++++++++++++++++++++
 zygo/generator.go   | 21 +++++++++++++++++----
 3 files changed, 60 insertions(+), 13 deletions(-)

diff --git a/zygo/closing.go b/zygo/closing.go
index 1a20a9a..217d32c 100644
--- a/zygo/closing.go
+++ b/zygo/closing.go
@@ -8,22 +8,25 @@ type Closing struct {
 }
 
 func NewClosing(name string, env *Zlisp) *Closing {
-	stk := env.linearstack.Clone()
+	stk := env.linearstack
 	// Be strict: only store scopes from the current lexical function outward
 	// to the current top. Caller scopes below that function are dynamic state.
-	for i := stk.tos; i >= 0; i-- {
+	i := stk.tos
+	for ; i > 0; i-- {
 		scop, ok := stk.elements[i].(*Scope)
 		if ok && scop.IsFunction {
-			if i > 0 {
-				trimmed := env.NewStack(stk.Size() - i)
-				for _, elem := range stk.elements[i : stk.tos+1] {
-					trimmed.Push(elem)
-				}
-				stk = trimmed
-			}
 			break
 		}
 	}
+	if i > 0 {
+		trimmed := env.NewStack(stk.Size() - i)
+		for _, elem := range stk.elements[i : stk.tos+1] {
+			trimmed.Push(elem)
+		}
+		stk = trimmed
+	} else {
+		stk = stk.Clone()
+	}
 
 	return &Closing{
 		Stack: stk,
diff --git a/zygo/environment.go b/zygo/environment.go
index 060cfe1..dc2d279 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -58,6 +58,27 @@ type Zlisp struct {
 
 	// API use, since infix is already default at repl
 	WrapLoadExpressionsInInfix bool
+
+	// nesting counts the calls to Run and Generate in progress.
+	nesting int
+}
+
+// maxNesting limits how deep evaluation and compilation may nest, well
+// before the stack of the goroutine is exhausted, which Go cannot
+// recover from.
+const maxNesting = 50000
+
+// enterNesting is to be matched by a leaveNesting, unless it fails.
+func (env *Zlisp) enterNesting() error {
+	if env.nesting >= maxNesting {
+		return fmt.Errorf("evaluation is nested more than %d deep", maxNesting)
+	}
+	env.nesting++
+	return nil
+}
+
+func (env *Zlisp) leaveNesting() {
+	env.nesting--
 }
 
 // allow clients to establish a callback to
@@ -195,6 +216,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.nesting = env.nesting
 	return dupenv
 }
 
@@ -230,6 +252,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.showGlobalScope = env.showGlobalScope
 	dupenv.WrapLoadExpressionsInInfix = env.WrapLoadExpressionsInInfix
 	dupenv.booter = env.booter
+	dupenv.nesting = env.nesting
 
 	return dupenv
 }
@@ -687,6 +710,9 @@ func (env *Zlisp) CallUserFunction(
 	}
 	if err != nil {
 		env.restoreControlState(callState)
+		if len(err.Error()) > maxErrorText {
+			return 0, err
+		}
 		return 0, errors.New(
 			fmt.Sprintf("Error calling '%s': %v", name, err))
 	}
@@ -952,6 +978,11 @@ func (env *Zlisp) Apply(fun *SexpFunction, args []Sexp) (Sexp, error) {
 
 func (env *Zlisp) Run() (Sexp, error) {
 	runState := env.captureControlState()
+	if err := env.enterNesting(); err != nil {
+		env.pc = functionSize(env.curfunc)
+		return SexpNull, err
+	}
+	defer env.leaveNesting()
 
 	for env.pc != -1 && !env.ReachedEnd() {
 		if verifEnabled {
diff --git a/zygo/generator.go b/zygo/generator.go
index 77dc32d..c0dcee4 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -795,6 +795,10 @@ func (gen *Generator) Generate(expr Sexp) error {
 	if _, isComment := expr.(*SexpComment); isComment {
 		return nil
 	}
+	if err := gen.env.enterNesting(); err != nil {
+		return err
+	}
+	defer gen.env.leaveNesting()
 	switch e := expr.(type) {
 	case *SexpSymbol:
 		gen.AddInstruction(EnvToStackInstr{e})
@@ -812,15 +816,13 @@ func (gen *Generator) Generate(expr Sexp) error {
 			if isAssign && pos > 0 && legalLeftHandSide {
 				err := gen.GenerateAssignment(e, pos)
 				if err != nil {
-					return fmt.Errorf("Error generating %s:\n%v",
-						expr.SexpString(nil), err)
+					return errorGenerating(expr, err)
 				}
 				return nil
 			}
 			err := gen.GenerateCall(e)
 			if err != nil {
-				return fmt.Errorf("Error generating %s:\n%v",
-					expr.SexpString(nil), err)
+				return errorGenerating(expr, err)
 			}
 			return nil
 		} else {
@@ -835,6 +837,17 @@ func (gen *Generator) Generate(expr Sexp) error {
 	return nil
 }
 
+// maxErrorText is about how much text is spent on saying where in a
+// nest of expressions or calls an error occurred.
+const maxErrorText = 10000
+
+func errorGenerating(expr Sexp, err error) error {
+	if len(err.Error()) > maxErrorText {
+		return err
+	}
+	return fmt.Errorf("Error generating %s:\n%v", expr.SexpString(nil), err)
+}
+
 // generateNonTail compiles an expression whose value the enclosing
 // form still uses, so a call in it is not in tail position.
 func (gen *Generator) generateNonTail(expr Sexp) error {
-- 
2.43.0


From 1eb3f55f1b63216f9b63c54fd3760f7524bf2f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 27/51] fix: endless recursion is an error, also where it only
 fills the VM's stacks

---
 zygo/environment.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zygo/environment.go b/zygo/environment.go
index dc2d279..70e3152 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -68,6 +68,10 @@ type Zlisp struct {
 // recover from.
 const maxNesting = 50000
 
+// maxCalls limits how many calls wait for another to return, which
+// takes memory but no Go stack.
+const maxCalls = 1000000
+
 // enterNesting is to be matched by a leaveNesting, unless it fails.
 func (env *Zlisp) enterNesting() error {
 	if env.nesting >= maxNesting {
@@ -613,6 +617,9 @@ func (env *Zlisp) CallFunction(function *SexpFunction, nargs int) error {
 		panic("where's the global scope?")
 	}
 
+	if env.addrstack.Size() >= maxCalls {
+		return fmt.Errorf("calls are nested more than %d deep", maxCalls)
+	}
 	env.addrstack.PushAddr(env.curfunc, env.pc+1)
 
 	//P("DEBUG linearstack with this next:")
-- 
2.43.0


From 69d8df0ccbd7ad8179666a45638a5b591e02457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 28/51] fix: a lazy argument keeps only the scopes its
 expression can see; nesting limit 20000

---
 zygo/environment.go | 2 +-
 zygo/expressions.go | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 70e3152..8621035 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -66,7 +66,7 @@ type Zlisp struct {
 // maxNesting limits how deep evaluation and compilation may nest, well
 // before the stack of the goroutine is exhausted, which Go cannot
 // recover from.
-const maxNesting = 50000
+const maxNesting = 20000
 
 // maxCalls limits how many calls wait for another to return, which
 // takes memory but no Go stack.
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 6bad61a..b20db69 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -585,7 +585,13 @@ type SexpLazyArg struct {
 func NewSourceLazyArg(env *Zlisp, expr Sexp) *SexpLazyArg {
 	lazy := &SexpLazyArg{Expr: expr}
 	if env != nil {
-		lazy.Stack = env.linearstack.Clone()
+		// the expression sees the global scope and those of the
+		// current function, not those of the function's callers.
+		lazy.Stack = NewClosing("lazyArg", env).Stack
+		if glob := env.linearstack.elements[0]; lazy.Stack.elements[0] != glob {
+			lazy.Stack.elements = append([]StackElem{glob}, lazy.Stack.elements...)
+			lazy.Stack.tos++
+		}
 		lazy.CurFunc = env.curfunc
 	}
 	return lazy
-- 
2.43.0


From a88a6537defb2530243c9da98029c6b5927a5a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 29/51] fix: printing of data that contains itself or is nested
 deep; closures print nothing when made

---
 zygo/arrayutils.go  |  5 ++++
 zygo/expressions.go | 67 +++++++++++++++++++++++++++------------------
 zygo/hashutils.go   | 27 +++++++++++++-----
 zygo/printstate.go  | 29 ++++++++++++++++++++
 zygo/vm.go          | 11 --------
 5 files changed, 94 insertions(+), 45 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index d30086e..01f94bf 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -149,6 +149,11 @@ type SexpArraySelector struct {
 }
 
 func (si *SexpArraySelector) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(si)
+	if !ok {
+		return notPrinted
+	}
+	defer ps.leave(si)
 	//Q("in SexpArraySelector.SexpString(), si.Container.Env = %p", si.Container.Env)
 	rhs, err := si.RHS(si.Container.Env)
 	if err != nil {
diff --git a/zygo/expressions.go b/zygo/expressions.go
index b20db69..44ef350 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -228,27 +228,34 @@ func Cons(a Sexp, b Sexp) *SexpPair {
 }
 
 func (pair *SexpPair) SexpString(ps *PrintState) string {
-	str := "("
+	first := pair
+	ps, ok := ps.enter(first)
+	if !ok {
+		return notPrinted
+	}
+	defer ps.leave(first)
+	var str strings.Builder
+	str.WriteString("(")
 
 	for {
 		switch pair.Tail.(type) {
 		case *SexpPair:
-			str += pair.Head.SexpString(ps) + " "
+			str.WriteString(pair.Head.SexpString(ps) + " ")
 			pair = pair.Tail.(*SexpPair)
 			continue
 		}
 		break
 	}
 
-	str += pair.Head.SexpString(ps)
+	str.WriteString(pair.Head.SexpString(ps))
 
 	if pair.Tail == SexpNull {
-		str += ")"
+		str.WriteString(")")
 	} else {
-		str += " \\ " + pair.Tail.SexpString(ps) + ")"
+		str.WriteString(" \\ " + pair.Tail.SexpString(ps) + ")")
 	}
 
-	return str
+	return str.String()
 }
 func (r *SexpPair) Type() *RegisteredType {
 	return nil // TODO what should this be?
@@ -283,6 +290,11 @@ func (r *SexpArray) Type() *RegisteredType {
 }
 
 func (arr *SexpArray) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(arr)
+	if !ok {
+		return notPrinted
+	}
+	defer ps.leave(arr)
 	indInner := ""
 	indent := ps.GetIndent()
 	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
@@ -318,37 +330,38 @@ func (arr *SexpArray) SexpString(ps *PrintState) string {
 		return opn + cls
 	}
 	ta := arr.IsFuncDeclTypeArray
-	str := opn
+	var str strings.Builder
+	str.WriteString(opn)
 
 	last := n - 1
 	var comma2 string
 	for i, sexp := range arr.Val {
-		str += indInner + sexp.SexpString(ps)
+		str.WriteString(indInner)
+		str.WriteString(sexp.SexpString(ps))
 		comma2 = comma
 		if i == last {
 			comma2 = ""
 		}
 		if ta {
 			if i%2 == 0 {
-				str += ":"
+				str.WriteString(":")
 			} else {
-				str += comma2 + " "
+				str.WriteString(comma2 + " ")
 			}
 		} else {
 			if pretty {
-				str += comma2 + "\n"
+				str.WriteString(comma2 + "\n")
 			} else {
-				str += comma2 + " "
+				str.WriteString(comma2 + " ")
 			}
 		}
 	}
-	m := len(str)
+	res := str.String()
+	m := len(res)
 	if pretty {
-		str = str[:m-1] + "\n" + indInner + cls
-	} else {
-		str = str[:m-1] + indInner + cls
+		return res[:m-1] + "\n" + indInner + cls
 	}
-	return str
+	return res[:m-1] + indInner + cls
 }
 
 func (e *SexpError) SexpString(ps *PrintState) string {
@@ -612,6 +625,11 @@ func (lazy *SexpLazyArg) SexpString(ps *PrintState) string {
 	if lazy.Expr == nil {
 		return "(lazyArg nil)"
 	}
+	ps, ok := ps.enter(lazy)
+	if !ok {
+		return notPrinted
+	}
+	defer ps.leave(lazy)
 	return "(lazyArg " + lazy.Expr.SexpString(ps) + ")"
 }
 
@@ -788,16 +806,6 @@ func (sf *SexpFunction) lazyCallArgs(args []Sexp) []bool {
 }
 
 func (sf *SexpFunction) SetClosing(clos *Closing) {
-	ps4 := NewPrintStateWithIndent(4)
-	pre, err := sf.ShowClosing(clos.env, ps4, "prev")
-	_ = pre
-	panicOn(err)
-	newnew, err := sf.ShowClosing(clos.env, ps4, "newnew")
-	_ = newnew
-	panicOn(err)
-	//P("99999 for sfun = %p, in sfun.SetClosing(), prev value is %p = '%s'\n",
-	//	sf, sf.closingOverScopes, pre)
-	//P("88888 in sfun.SetClosing(), new  value is %p = '%s'\n", clos, newnew)
 	sf.closingOverScopes = clos
 	//P("in SetClosing() for '%s'/%p: my stack is: '%s'", sf.name, sf, clos.Stack.SexpString(nil))
 }
@@ -858,6 +866,11 @@ func (sf *SexpFunction) SexpString(ps *PrintState) string {
 	if sf.orig == nil {
 		return "fn [" + sf.name + "]"
 	}
+	ps, ok := ps.enter(sf)
+	if !ok {
+		return notPrinted
+	}
+	defer ps.leave(sf)
 	return sf.orig.SexpString(ps)
 }
 
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index cca0023..00d31eb 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -901,6 +901,11 @@ func (hash *SexpHash) ShortName() string {
 }
 
 func (hash *SexpHash) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(hash)
+	if !ok {
+		return notPrinted
+	}
+	defer ps.leave(hash)
 	indInner := ""
 	indent := ps.GetIndent()
 	innerPs := ps.AddIndent(4) // generates a fresh new PrintState
@@ -912,20 +917,22 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 		indInner = strings.Repeat(" ", inner)
 		origIndInner = strings.Repeat(" ", indent)
 	}
-	str := " (" + hash.TypeName + " " + prettyEnd
+	opn := " (" + hash.TypeName + " " + prettyEnd
 
 	displayHashInCurly := false
 	comma := ""
 	asJSON := false
 	if hash.TypeName == "hash" {
 		displayHashInCurly = true
-		str = "{" + prettyEnd
+		opn = "{" + prettyEnd
 		if ps != nil && ps.PrintJSON {
 			comma = "," // be valid JSON
 			asJSON = true
 		}
 	}
 
+	var text strings.Builder
+	text.WriteString(opn)
 	lastKey := hash.NumKeys
 	onKey := 0
 	for _, key := range hash.KeyOrder {
@@ -934,27 +941,28 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 			onKey++
 			switch s := key.(type) {
 			case *SexpStr:
-				str += indInner + s.SexpString(nil) + ":"
+				text.WriteString(indInner + s.SexpString(nil) + ":")
 			case *SexpSymbol:
 				if asJSON {
-					str += indInner + `"` + s.name + `":`
+					text.WriteString(indInner + `"` + s.name + `":`)
 				} else {
-					str += indInner + s.name + ":"
+					text.WriteString(indInner + s.name + ":")
 				}
 			default:
-				str += indInner + key.SexpString(innerPs) + ":"
+				text.WriteString(indInner + key.SexpString(innerPs) + ":")
 			}
 			comma2 := comma
 			if onKey == lastKey {
 				comma2 = ""
 			}
-			str += val.SexpString(innerPs) + comma2 + " " + prettyEnd
+			text.WriteString(val.SexpString(innerPs) + comma2 + " " + prettyEnd)
 
 		} else {
 			// ignore deleted keys
 			// don't panic(err)
 		}
 	}
+	str := text.String()
 	if displayHashInCurly {
 		if len(hash.Map) > 0 {
 			return str[:len(str)-1] + prettyEnd + origIndInner + "}"
@@ -1083,6 +1091,11 @@ func (h *SexpHash) NewSexpHashSelector(sym *SexpSymbol) *SexpHashSelector {
 }
 
 func (si *SexpHashSelector) SexpString(ps *PrintState) string {
+	ps, ok := ps.enter(si)
+	if !ok {
+		return notPrinted
+	}
+	defer ps.leave(si)
 	rhs, err := si.RHS(si.Container.Env)
 	if err != nil {
 		return fmt.Sprintf("SexpHashSelector error: could not get RHS: '%v'",
diff --git a/zygo/printstate.go b/zygo/printstate.go
index 16cec97..85777fa 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -13,6 +13,34 @@ type PrintState struct {
 	Indent    int
 	Seen      Seen
 	PrintJSON bool
+
+	// the values being printed, each inside another
+	inside map[Sexp]bool
+}
+
+// maxPrintDepth is how deep in each other values are printed.
+const maxPrintDepth = 10000
+
+// notPrinted stands for values nested deeper, or inside themselves.
+const notPrinted = "..."
+
+// enter says whether to print x, and with which state. If so, leave it.
+func (ps *PrintState) enter(x Sexp) (*PrintState, bool) {
+	if ps == nil {
+		ps = NewPrintState()
+	}
+	if ps.inside == nil {
+		ps.inside = make(map[Sexp]bool)
+	}
+	if ps.inside[x] || len(ps.inside) >= maxPrintDepth {
+		return ps, false
+	}
+	ps.inside[x] = true
+	return ps, true
+}
+
+func (ps *PrintState) leave(x Sexp) {
+	delete(ps.inside, x)
 }
 
 func (ps *PrintState) SetSeen(x interface{}, name string) {
@@ -48,6 +76,7 @@ func (ps *PrintState) AddIndent(addme int) *PrintState {
 		Indent:    ps.Indent + addme,
 		Seen:      ps.Seen,
 		PrintJSON: ps.PrintJSON,
+		inside:    ps.inside,
 	}
 }
 
diff --git a/zygo/vm.go b/zygo/vm.go
index f74b23e..08355db 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -836,17 +836,6 @@ func (a CreateClosureInstr) Execute(env *Zlisp) error {
 		//P("myInvok is copy of a.sfun '%s' with parent = %s", a.sfun.name, myInvok.parent.name)
 	}
 
-	ps8 := NewPrintStateWithIndent(8)
-	shown, err := myInvok.ShowClosing(env, ps8, fmt.Sprintf("closedOverScopes of '%s'", myInvok.name))
-	_ = shown
-	if err != nil {
-		return err
-	}
-	//VPrintf("+++ CreateClosure: assign to '%s' the stack:\n\n%s\n\n",		myInvok.SexpString(nil), shown)
-	top := cls.TopScope()
-	//VPrintf("222 CreateClosure: top of NewClosing Scope has addr %p and is\n",		top)
-	top.Show(env, ps8, fmt.Sprintf("top of NewClosing at %p", top))
-
 	env.datastack.PushExpr(myInvok)
 	return nil
 }
-- 
2.43.0


From 13d214f0635d612ed411ecd3da7c05b6a551c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 30/51] fix: comparing data that contains itself ends

---
 zygo/comparisons.go | 79 ++++++++++++++++++++++++++++++++++-----------
 zygo/hashutils.go   |  3 +-
 zygo/printstate.go  |  7 ++--
 3 files changed, 67 insertions(+), 22 deletions(-)

diff --git a/zygo/comparisons.go b/zygo/comparisons.go
index f72a91d..bae2b27 100644
--- a/zygo/comparisons.go
+++ b/zygo/comparisons.go
@@ -173,26 +173,53 @@ func (env *Zlisp) compareSymbol(sym *SexpSymbol, expr Sexp) (int, error) {
 	return 0, errors.New(errmsg)
 }
 
-func (env *Zlisp) comparePair(a *SexpPair, b Sexp) (int, error) {
-	var bp *SexpPair
-	switch t := b.(type) {
-	case *SexpPair:
-		bp = t
-	default:
-		errmsg := fmt.Sprintf("err 96: cannot compare %T to %T", a, b)
-		return 0, errors.New(errmsg)
+// comparing is the state of one comparison: the containers compared
+// so far, which differ in nothing yet seen, and the depth reached.
+type comparing struct {
+	env   *Zlisp
+	same  map[[2]Sexp]bool
+	depth int
+}
+
+// again says that a and b have been compared, or are being compared.
+func (c *comparing) again(a, b Sexp) bool {
+	key := [2]Sexp{a, b}
+	if c.same[key] {
+		return true
 	}
-	res, err := env.Compare(a.Head, bp.Head)
-	if err != nil {
-		return 0, err
+	if c.same == nil {
+		c.same = make(map[[2]Sexp]bool)
 	}
-	if res != 0 {
-		return res, nil
+	c.same[key] = true
+	return false
+}
+
+func (c *comparing) comparePair(a *SexpPair, b Sexp) (int, error) {
+	for {
+		bp, ok := b.(*SexpPair)
+		if !ok {
+			errmsg := fmt.Sprintf("err 96: cannot compare %T to %T", a, b)
+			return 0, errors.New(errmsg)
+		}
+		res, err := c.compare(a.Head, bp.Head)
+		if err != nil {
+			return 0, err
+		}
+		if res != 0 {
+			return res, nil
+		}
+		next, more := a.Tail.(*SexpPair)
+		if !more {
+			return c.compare(a.Tail, bp.Tail)
+		}
+		a, b = next, bp.Tail
+		if c.again(a, b) {
+			return 0, nil
+		}
 	}
-	return env.Compare(a.Tail, bp.Tail)
 }
 
-func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
+func (c *comparing) compareArray(a *SexpArray, b Sexp) (int, error) {
 	var ba *SexpArray
 	switch t := b.(type) {
 	case *SexpArray:
@@ -209,7 +236,7 @@ func (env *Zlisp) compareArray(a *SexpArray, b Sexp) (int, error) {
 	}
 
 	for i := 0; i < length; i++ {
-		res, err := env.Compare(a.Val[i], ba.Val[i])
+		res, err := c.compare(a.Val[i], ba.Val[i])
 		if err != nil {
 			return 0, err
 		}
@@ -260,6 +287,16 @@ func comparePointers(a *SexpPointer, bs Sexp) (int, error) {
 }
 
 func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
+	return (&comparing{env: env}).compare(a, b)
+}
+
+func (c *comparing) compare(a Sexp, b Sexp) (int, error) {
+	env := c.env
+	if c.depth >= maxDataDepth {
+		return 0, fmt.Errorf("cannot compare values nested more than %d deep", maxDataDepth)
+	}
+	c.depth++
+	defer func() { c.depth-- }()
 
 	var err error
 	if sel, isSel := a.(Selector); isSel {
@@ -291,9 +328,15 @@ func (env *Zlisp) Compare(a Sexp, b Sexp) (int, error) {
 	case *SexpSymbol:
 		return env.compareSymbol(at, b)
 	case *SexpPair:
-		return env.comparePair(at, b)
+		if c.again(a, b) {
+			return 0, nil
+		}
+		return c.comparePair(at, b)
 	case *SexpArray:
-		return env.compareArray(at, b)
+		if c.again(a, b) {
+			return 0, nil
+		}
+		return c.compareArray(at, b)
 	case *SexpHash:
 		return compareHash(at, b)
 	case *RegisteredType:
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 00d31eb..a8cfe85 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -66,13 +66,14 @@ func hashHelper(expr Sexp) (hashcode int, isList bool, err error) {
 // singleKey: a one-element array used as a key stands for its element,
 // so that h[6]=10 works; every operation on a hash has to agree on it.
 func singleKey(key Sexp) Sexp {
-	for {
+	for depth := 0; depth < maxDataDepth; depth++ {
 		arr, isArr := key.(*SexpArray)
 		if !isArr || len(arr.Val) != 1 {
 			return key
 		}
 		key = arr.Val[0]
 	}
+	return key
 }
 
 func MakeHash(args []Sexp, typename string, env *Zlisp) (*SexpHash, error) {
diff --git a/zygo/printstate.go b/zygo/printstate.go
index 85777fa..ddae148 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -18,8 +18,9 @@ type PrintState struct {
 	inside map[Sexp]bool
 }
 
-// maxPrintDepth is how deep in each other values are printed.
-const maxPrintDepth = 10000
+// maxDataDepth is how deep values may be nested in each other for
+// operations on all of a value. Deeper ones are not printed.
+const maxDataDepth = 10000
 
 // notPrinted stands for values nested deeper, or inside themselves.
 const notPrinted = "..."
@@ -32,7 +33,7 @@ func (ps *PrintState) enter(x Sexp) (*PrintState, bool) {
 	if ps.inside == nil {
 		ps.inside = make(map[Sexp]bool)
 	}
-	if ps.inside[x] || len(ps.inside) >= maxPrintDepth {
+	if ps.inside[x] || len(ps.inside) >= maxDataDepth {
 		return ps, false
 	}
 	ps.inside[x] = true
-- 
2.43.0


From 9f1240f7b57bbaaf4ec962cb562de597e1d1b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 31/51] fix: the type of an array that contains itself

---
 zygo/expressions.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index 44ef350..aaf1809 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -277,16 +277,31 @@ func (r *SexpArray) Type() *RegisteredType {
 		return r.Typ
 	}
 	// not declared; and not remembered either, since the elements change.
-	if len(r.Val) > 0 {
-		// take type from first element
-		ty := r.Val[0].Type()
-		if ty != nil {
-			return GoStructRegistry.GetOrCreateSliceType(ty)
+	// The type comes from the first element, that of an array of arrays
+	// from its first element in turn.
+	const maxDepth = 1000
+	inner, depth := r, 0
+	for len(inner.Val) > 0 {
+		first, isArr := inner.Val[0].(*SexpArray)
+		depth++
+		if !isArr || first.Typ != nil {
+			break
 		}
-		return nil
+		if depth > maxDepth {
+			return nil // too deep to have a type, perhaps inside itself
+		}
+		inner = first
+	}
+	var ty *RegisteredType
+	if len(inner.Val) > 0 {
+		ty = inner.Val[0].Type()
+	} else {
+		ty = GoStructRegistry.Lookup("[]")
+	}
+	for ; ty != nil && depth > 0; depth-- {
+		ty = GoStructRegistry.GetOrCreateSliceType(ty)
 	}
-	// empty array
-	return GoStructRegistry.Lookup("[]")
+	return ty
 }
 
 func (arr *SexpArray) SexpString(ps *PrintState) string {
-- 
2.43.0


From ccc2992ace03c88315d9477940b210916ab93e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 32/51] fix: filtering, json and msgpack of data that contains
 itself; list helpers don't recurse along a list

---
 zygo/comment.go   | 83 +++++++++++++++++++++++++----------------------
 zygo/jsonmsgp.go  | 59 ++++++++++++++++++++++++++++-----
 zygo/listutils.go | 67 +++++++++++++-------------------------
 zygo/typeutils.go | 31 ++++++++----------
 4 files changed, 131 insertions(+), 109 deletions(-)

diff --git a/zygo/comment.go b/zygo/comment.go
index fc51d05..4ae4922 100644
--- a/zygo/comment.go
+++ b/zygo/comment.go
@@ -48,58 +48,63 @@ func RemoveCommasFilter(x Sexp) bool {
 }
 
 func (env *Zlisp) FilterAny(x Sexp, f Filter) (filtered Sexp, keep bool) {
+	return (&filtering{env: env, f: f, done: make(map[Sexp]Sexp)}).any(x)
+}
+
+func (env *Zlisp) FilterArray(x []Sexp, f Filter) []Sexp {
+	return (&filtering{env: env, f: f, done: make(map[Sexp]Sexp)}).elements(x)
+}
+
+// filtering is the state of one use of a filter on data that may have
+// parts in common, and may contain itself.
+type filtering struct {
+	env   *Zlisp
+	f     Filter
+	done  map[Sexp]Sexp
+	depth int
+}
+
+func (t *filtering) any(x Sexp) (filtered Sexp, keep bool) {
+	switch x.(type) {
+	case *SexpArray, *SexpPair:
+	default:
+		// hashes don't exist in parsed symbols: they are still lists.
+		if _, isHash := x.(*SexpHash); isHash || t.f(x) {
+			return x, true
+		}
+		return SexpNull, false
+	}
+	if res, ok := t.done[x]; ok {
+		return res, true
+	}
+	if t.depth >= maxDataDepth {
+		return x, true
+	}
+	t.depth++
+	defer func() { t.depth-- }()
+
 	switch ele := x.(type) {
 	case *SexpArray:
-		res := &SexpArray{Val: env.FilterArray(ele.Val, f), Typ: ele.Typ, IsFuncDeclTypeArray: ele.IsFuncDeclTypeArray, Env: env}
+		res := &SexpArray{Typ: ele.Typ, IsFuncDeclTypeArray: ele.IsFuncDeclTypeArray, Env: t.env}
+		t.done[x] = res
+		res.Val = t.elements(ele.Val)
 		return res, true
 	case *SexpPair:
-		return env.FilterList(ele, f), true
-	case *SexpHash:
-		return env.FilterHash(ele, f), true
-	default:
-		keep = f(x)
-		if keep {
-			return x, true
+		t.done[x] = x
+		if arr, err := ListToArray(ele); err == nil { // don't filter pairs
+			t.done[x] = MakeList(t.elements(arr))
 		}
-		return SexpNull, false
 	}
+	return t.done[x], true
 }
 
-func (env *Zlisp) FilterArray(x []Sexp, f Filter) []Sexp {
-	//P("FilterArray: before: %d in size", len(x))
-	//for i := range x {
-	//P("x[i=%d] = %v", i, x[i].SexpString())
-	//}
+func (t *filtering) elements(x []Sexp) []Sexp {
 	res := []Sexp{}
 	for i := range x {
-		filtered, keep := env.FilterAny(x[i], f)
+		filtered, keep := t.any(x[i])
 		if keep {
 			res = append(res, filtered)
 		}
 	}
-	//P("FilterArray: after: %d in size", len(res))
-	//for i := range res {
-	//P("x[i=%d] = %v", i, res[i].SexpString())
-	//}
 	return res
 }
-
-func (env *Zlisp) FilterHash(h *SexpHash, f Filter) *SexpHash {
-	// should not actually need this, since hashes
-	// don't yet exist in parsed symbols. (they are
-	// still lists).
-	//P("in FilterHash")
-	return h
-}
-
-func (env *Zlisp) FilterList(h *SexpPair, f Filter) Sexp {
-	//P("in FilterList")
-	arr, err := ListToArray(h)
-	res := []Sexp{}
-	if err == NotAList {
-		// don't filter pair lists
-		return h
-	}
-	res = env.FilterArray(arr, f)
-	return MakeList(res)
-}
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index c0e8484..4a26ec6 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -115,11 +115,34 @@ func SexpToJson(exp Sexp) string {
 }
 
 func sexpToJson(exp Sexp) (string, error) {
+	return make(encoding).json(exp)
+}
+
+// encoding holds the containers being encoded, each inside another.
+type encoding map[Sexp]bool
+
+// enter is to be matched by a leave, unless it fails.
+func (in encoding) enter(x Sexp) error {
+	if in[x] {
+		return fmt.Errorf("cannot encode data that contains itself")
+	}
+	if len(in) >= maxDataDepth {
+		return fmt.Errorf("cannot encode data nested more than %d deep", maxDataDepth)
+	}
+	in[x] = true
+	return nil
+}
+
+func (in encoding) leave(x Sexp) {
+	delete(in, x)
+}
+
+func (in encoding) json(exp Sexp) (string, error) {
 	switch e := exp.(type) {
 	case *SexpHash:
-		return e.jsonHashHelper()
+		return in.jsonHashHelper(e)
 	case *SexpArray:
-		return e.jsonArrayHelper()
+		return in.jsonArrayHelper(e)
 	case *SexpSymbol:
 		return jsonString(e.name), nil
 	case *SexpStr:
@@ -182,7 +205,11 @@ func (hash *SexpHash) encodedKeys() ([]string, error) {
 	return names, nil
 }
 
-func (hash *SexpHash) jsonHashHelper() (string, error) {
+func (in encoding) jsonHashHelper(hash *SexpHash) (string, error) {
+	if err := in.enter(hash); err != nil {
+		return "", err
+	}
+	defer in.leave(hash)
 	str := `{"Atype":` + jsonString(hash.TypeName)
 	names, err := hash.encodedKeys()
 	if err != nil {
@@ -198,7 +225,7 @@ func (hash *SexpHash) jsonHashHelper() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		js, err := sexpToJson(val)
+		js, err := in.json(val)
 		if err != nil {
 			return "", err
 		}
@@ -208,10 +235,14 @@ func (hash *SexpHash) jsonHashHelper() (string, error) {
 	return str + `, "zKeyOrder":[` + strings.Join(ko, ", ") + "]}", nil
 }
 
-func (arr *SexpArray) jsonArrayHelper() (string, error) {
+func (in encoding) jsonArrayHelper(arr *SexpArray) (string, error) {
+	if err := in.enter(arr); err != nil {
+		return "", err
+	}
+	defer in.leave(arr)
 	ele := make([]string, len(arr.Val))
 	for i, sexp := range arr.Val {
-		js, err := sexpToJson(sexp)
+		js, err := in.json(sexp)
 		if err != nil {
 			return "", err
 		}
@@ -275,8 +306,16 @@ func sexpToMsgpack(exp Sexp) ([]byte, interface{}, error) {
 
 // sexpToPlainGo returns what decoding the json for exp would.
 func sexpToPlainGo(exp Sexp) (interface{}, error) {
+	return make(encoding).plainGo(exp)
+}
+
+func (in encoding) plainGo(exp Sexp) (interface{}, error) {
 	switch e := exp.(type) {
 	case *SexpHash:
+		if err := in.enter(e); err != nil {
+			return nil, err
+		}
+		defer in.leave(e)
 		names, err := e.encodedKeys()
 		if err != nil {
 			return nil, err
@@ -288,7 +327,7 @@ func sexpToPlainGo(exp Sexp) (interface{}, error) {
 			if err != nil {
 				return nil, err
 			}
-			m[names[i]], err = sexpToPlainGo(val)
+			m[names[i]], err = in.plainGo(val)
 			if err != nil {
 				return nil, err
 			}
@@ -299,9 +338,13 @@ func sexpToPlainGo(exp Sexp) (interface{}, error) {
 		}
 		return m, nil
 	case *SexpArray:
+		if err := in.enter(e); err != nil {
+			return nil, err
+		}
+		defer in.leave(e)
 		ar := make([]interface{}, len(e.Val))
 		for i, ele := range e.Val {
-			val, err := sexpToPlainGo(ele)
+			val, err := in.plainGo(ele)
 			if err != nil {
 				return nil, err
 			}
diff --git a/zygo/listutils.go b/zygo/listutils.go
index b69efad..8293e43 100644
--- a/zygo/listutils.go
+++ b/zygo/listutils.go
@@ -23,42 +23,28 @@ func ListToArray(expr Sexp) ([]Sexp, error) {
 }
 
 func MakeList(expressions []Sexp) Sexp {
-	if len(expressions) == 0 {
-		return SexpNull
+	var list Sexp = SexpNull
+	for i := len(expressions) - 1; i >= 0; i-- {
+		list = Cons(expressions[i], list)
 	}
-
-	return Cons(expressions[0], MakeList(expressions[1:]))
+	return list
 }
 
 func MapList(env *Zlisp, fun *SexpFunction, expr Sexp) (Sexp, error) {
-	if expr == SexpNull {
-		return SexpNull, nil
-	}
-
-	var list = &SexpPair{}
-	switch e := expr.(type) {
-	case *SexpPair:
-		list.Head = e.Head
-		list.Tail = e.Tail
-	default:
-		return SexpNull, NotAList
-	}
-
-	var err error
-
-	list.Head, err = env.Apply(fun, []Sexp{list.Head})
-
-	if err != nil {
-		return SexpNull, err
-	}
-
-	list.Tail, err = MapList(env, fun, list.Tail)
-
-	if err != nil {
-		return SexpNull, err
+	var mapped []Sexp
+	for expr != SexpNull {
+		list, isPair := expr.(*SexpPair)
+		if !isPair {
+			return SexpNull, NotAList
+		}
+		val, err := env.Apply(fun, []Sexp{list.Head})
+		if err != nil {
+			return SexpNull, err
+		}
+		mapped = append(mapped, val)
+		expr = list.Tail
 	}
-
-	return list, nil
+	return MakeList(mapped), nil
 }
 
 // O(n^2) for n total nodes in all lists. So this is
@@ -86,21 +72,14 @@ func ConcatTwoLists(a *SexpPair, b Sexp) (Sexp, error) {
 	if !IsList(b) {
 		return SexpNull, NotAList
 	}
-
-	if a.Tail == SexpNull {
-		return Cons(a.Head, b), nil
+	heads, err := ListToArray(a)
+	if err != nil {
+		return SexpNull, err
 	}
-
-	switch t := a.Tail.(type) {
-	case *SexpPair:
-		newtail, err := ConcatTwoLists(t, b)
-		if err != nil {
-			return SexpNull, err
-		}
-		return Cons(a.Head, newtail), nil
+	for i := len(heads) - 1; i >= 0; i-- {
+		b = Cons(heads[i], b)
 	}
-
-	return SexpNull, NotAList
+	return b, nil
 }
 
 func ListLen(expr Sexp) (int, error) {
diff --git a/zygo/typeutils.go b/zygo/typeutils.go
index fdc24a1..3233692 100644
--- a/zygo/typeutils.go
+++ b/zygo/typeutils.go
@@ -14,32 +14,27 @@ func IsArray(expr Sexp) bool {
 }
 
 func IsList(expr Sexp) bool {
-	if expr == SexpNull {
-		return true
-	}
-	switch list := expr.(type) {
-	case *SexpPair:
-		return IsList(list.Tail)
+	for {
+		list, isPair := expr.(*SexpPair)
+		if !isPair {
+			return expr == SexpNull
+		}
+		expr = list.Tail
 	}
-	return false
 }
 
 func IsAssignmentList(expr Sexp, pos int) (bool, int) {
-	if expr == SexpNull {
-		return false, -1
-	}
-	switch list := expr.(type) {
-	case *SexpPair:
-		sym, isSym := list.Head.(*SexpSymbol)
-		if !isSym {
-			return IsAssignmentList(list.Tail, pos+1)
+	for ; ; pos++ {
+		list, isPair := expr.(*SexpPair)
+		if !isPair {
+			return false, -1
 		}
-		if sym.name == "=" || sym.name == ":=" {
+		sym, isSym := list.Head.(*SexpSymbol)
+		if isSym && (sym.name == "=" || sym.name == ":=") {
 			return true, pos
 		}
-		return IsAssignmentList(list.Tail, pos+1)
+		expr = list.Tail
 	}
-	return false, -1
 }
 
 func IsFloat(expr Sexp) bool {
-- 
2.43.0


From e32665644b1a1e8650fcd048fbe7c4b93d56d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 33/51] fix: slice and pointer types of records without a Go
 type

---
 zygo/builders.go  |  2 +-
 zygo/gotypereg.go | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index bbe910f..c416d6a 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -658,7 +658,7 @@ func ArrayOfFunction(env *Zlisp, name string,
 
 	//Q("arrayOf arg = '%s' with type %T", args[0].SexpString(nil), args[0])
 
-	derivedType := reflect.ArrayOf(sz, rt.TypeCache)
+	derivedType := reflect.ArrayOf(sz, rt.elemType())
 	arrayRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return reflect.New(derivedType), nil
 	})
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 1b9dec2..dc302af 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -522,7 +522,7 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 	defer derivedTypesMut.Unlock()
 	if pointedToType.pointerTo == nil {
 		ptrName := "*" + pointedToType.RegisteredName
-		derivedType := reflect.PtrTo(pointedToType.TypeCache)
+		derivedType := reflect.PtrTo(pointedToType.elemType())
 		ptrRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.New(derivedType), nil
 		})
@@ -533,13 +533,22 @@ func (gsr *GoStructRegistryType) GetOrCreatePointerType(pointedToType *Registere
 	return pointedToType.pointerTo
 }
 
+// elemType is the Go type of elements of type rt, which may have none
+// of its own.
+func (rt *RegisteredType) elemType() reflect.Type {
+	if rt.TypeCache == nil {
+		return reflect.TypeOf((*interface{})(nil)).Elem()
+	}
+	return rt.TypeCache
+}
+
 // GetOrCreateSliceType returns the one slice type that belongs to rt.
 func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *RegisteredType {
 	derivedTypesMut.Lock()
 	defer derivedTypesMut.Unlock()
 	if rt.sliceOf == nil {
 		sliceName := "[]" + rt.RegisteredName
-		derivedType := reflect.SliceOf(rt.TypeCache)
+		derivedType := reflect.SliceOf(rt.elemType())
 		sliceRt := NewRegisteredType(func(env *Zlisp, h *SexpHash) (interface{}, error) {
 			return reflect.MakeSlice(derivedType, 0, 0), nil
 		})
-- 
2.43.0


From 4e668075d8ebb4fd33dc22ff62510c9389947706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 34/51] fix: printing and encoding of parts shared
 exponentially often

---
 zygo/jsonmsgp.go   | 32 +++++++-----------------
 zygo/printstate.go | 62 ++++++++++++++++++++++++++++++++++++----------
 2 files changed, 58 insertions(+), 36 deletions(-)

diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 4a26ec6..43c068a 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -115,26 +115,12 @@ func SexpToJson(exp Sexp) string {
 }
 
 func sexpToJson(exp Sexp) (string, error) {
-	return make(encoding).json(exp)
+	return encoding{newContainers()}.json(exp)
 }
 
-// encoding holds the containers being encoded, each inside another.
-type encoding map[Sexp]bool
-
-// enter is to be matched by a leave, unless it fails.
-func (in encoding) enter(x Sexp) error {
-	if in[x] {
-		return fmt.Errorf("cannot encode data that contains itself")
-	}
-	if len(in) >= maxDataDepth {
-		return fmt.Errorf("cannot encode data nested more than %d deep", maxDataDepth)
-	}
-	in[x] = true
-	return nil
-}
-
-func (in encoding) leave(x Sexp) {
-	delete(in, x)
+// encoding is inside the containers being encoded.
+type encoding struct {
+	*containers
 }
 
 func (in encoding) json(exp Sexp) (string, error) {
@@ -207,7 +193,7 @@ func (hash *SexpHash) encodedKeys() ([]string, error) {
 
 func (in encoding) jsonHashHelper(hash *SexpHash) (string, error) {
 	if err := in.enter(hash); err != nil {
-		return "", err
+		return "", fmt.Errorf("cannot encode: %v", err)
 	}
 	defer in.leave(hash)
 	str := `{"Atype":` + jsonString(hash.TypeName)
@@ -237,7 +223,7 @@ func (in encoding) jsonHashHelper(hash *SexpHash) (string, error) {
 
 func (in encoding) jsonArrayHelper(arr *SexpArray) (string, error) {
 	if err := in.enter(arr); err != nil {
-		return "", err
+		return "", fmt.Errorf("cannot encode: %v", err)
 	}
 	defer in.leave(arr)
 	ele := make([]string, len(arr.Val))
@@ -306,14 +292,14 @@ func sexpToMsgpack(exp Sexp) ([]byte, interface{}, error) {
 
 // sexpToPlainGo returns what decoding the json for exp would.
 func sexpToPlainGo(exp Sexp) (interface{}, error) {
-	return make(encoding).plainGo(exp)
+	return encoding{newContainers()}.plainGo(exp)
 }
 
 func (in encoding) plainGo(exp Sexp) (interface{}, error) {
 	switch e := exp.(type) {
 	case *SexpHash:
 		if err := in.enter(e); err != nil {
-			return nil, err
+			return nil, fmt.Errorf("cannot encode: %v", err)
 		}
 		defer in.leave(e)
 		names, err := e.encodedKeys()
@@ -339,7 +325,7 @@ func (in encoding) plainGo(exp Sexp) (interface{}, error) {
 		return m, nil
 	case *SexpArray:
 		if err := in.enter(e); err != nil {
-			return nil, err
+			return nil, fmt.Errorf("cannot encode: %v", err)
 		}
 		defer in.leave(e)
 		ar := make([]interface{}, len(e.Val))
diff --git a/zygo/printstate.go b/zygo/printstate.go
index ddae148..b36fb48 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -14,15 +14,55 @@ type PrintState struct {
 	Seen      Seen
 	PrintJSON bool
 
-	// the values being printed, each inside another
-	inside map[Sexp]bool
+	inside *containers
 }
 
-// maxDataDepth is how deep values may be nested in each other for
-// operations on all of a value. Deeper ones are not printed.
-const maxDataDepth = 10000
+// containers keeps watch over an operation on all of a value, whose
+// parts may be inside themselves, or be shared by many others.
+type containers struct {
+	open map[Sexp]bool // what the operation is inside of
+	met  map[Sexp]bool
+	// how often something was met again
+	again int
+}
+
+const (
+	// maxDataDepth is how deep values may be nested in each other for
+	// operations on all of a value.
+	maxDataDepth = 10000
+
+	// maxShared limits how much time shared parts may take.
+	maxShared = 2000000
+)
 
-// notPrinted stands for values nested deeper, or inside themselves.
+func newContainers() *containers {
+	return &containers{open: make(map[Sexp]bool), met: make(map[Sexp]bool)}
+}
+
+// enter is to be matched by a leave, unless it fails.
+func (c *containers) enter(x Sexp) error {
+	if c.open[x] {
+		return fmt.Errorf("data contains itself")
+	}
+	if len(c.open) >= maxDataDepth {
+		return fmt.Errorf("data is nested more than %d deep", maxDataDepth)
+	}
+	if c.met[x] {
+		c.again++
+		if c.again > maxShared {
+			return fmt.Errorf("data shares its parts more than %d times", maxShared)
+		}
+	}
+	c.met[x] = true
+	c.open[x] = true
+	return nil
+}
+
+func (c *containers) leave(x Sexp) {
+	delete(c.open, x)
+}
+
+// notPrinted stands for values that containers don't let in.
 const notPrinted = "..."
 
 // enter says whether to print x, and with which state. If so, leave it.
@@ -31,17 +71,13 @@ func (ps *PrintState) enter(x Sexp) (*PrintState, bool) {
 		ps = NewPrintState()
 	}
 	if ps.inside == nil {
-		ps.inside = make(map[Sexp]bool)
-	}
-	if ps.inside[x] || len(ps.inside) >= maxDataDepth {
-		return ps, false
+		ps.inside = newContainers()
 	}
-	ps.inside[x] = true
-	return ps, true
+	return ps, ps.inside.enter(x) == nil
 }
 
 func (ps *PrintState) leave(x Sexp) {
-	delete(ps.inside, x)
+	ps.inside.leave(x)
 }
 
 func (ps *PrintState) SetSeen(x interface{}, name string) {
-- 
2.43.0


From 981a3941a5397f32514a857ca3e80112c7c8b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 35/51] fix: binding and generating don't render whole values
 for disabled debug output

---
 zygo/generator.go | 10 +++++-----
 zygo/gotypereg.go |  2 +-
 zygo/scopes.go    |  4 ++--
 zygo/vm.go        |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index c0dcee4..328d9a4 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -189,7 +189,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 	if len(args) != 2 {
 		return fmt.Errorf("Wrong number of arguments to %s", opname)
 	}
-	Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
+	//Q("GenerateDef call with args[0]=%v", args[0].SexpString(nil))
 	dup := true
 	var instr Instruction
 	switch args[0].(type) {
@@ -210,7 +210,7 @@ func (gen *Generator) GenerateDef(args []Sexp, opname string) error {
 		case "def":
 			instr = PopStackPutEnvInstr{lhs}
 		case "set":
-			Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
+			//Q("GenerateDef is doing set with UpdateInstr: lhs = '%s'", lhs.SexpString(nil))
 			instr = UpdateInstr{lhs}
 		default:
 			panic(fmt.Errorf("unknown opname '%s'", opname))
@@ -1064,7 +1064,7 @@ func (gen *Generator) GenerateForLoop(args []Sexp) error {
 }
 
 func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
-	Q("GetLHS (opname=%s) called with arg '%s'", opname, arg.SexpString(nil))
+	//Q("GetLHS (opname=%s) called with arg '%s'", opname, arg.SexpString(nil))
 	var lhs *SexpSymbol
 	switch expr := arg.(type) {
 	case *SexpSymbol:
@@ -1095,7 +1095,7 @@ func (gen *Generator) GetLHS(arg Sexp, opname string) (*SexpSymbol, error) {
 	}
 
 	if lhs.isDot {
-		Q("in GetLHS(), lhs.isDot == true, return lhs='%v'", lhs.SexpString(nil))
+		//Q("in GetLHS(), lhs.isDot == true, return lhs='%v'", lhs.SexpString(nil))
 		//return nil, fmt.Errorf("illegal to %s dot-symbol, attempted on '%s'", opname, lhs.name)
 	}
 
@@ -1591,7 +1591,7 @@ func (gen *Generator) GenerateReturn(xs []Sexp) error {
 		gen.AddInstruction(PushInstr{SexpMarker})
 	}
 	for i := range xs {
-		Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
+		//Q("return calling Generate on xs[i=%v]=%v", i, xs[i].SexpString(nil))
 		var err error
 		if n == 1 {
 			err = gen.Generate(xs[i])
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index dc302af..7c3f3d0 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -281,7 +281,7 @@ func (e *RegisteredType) setupUserdef(name string, hasShadowStruct bool) {
 }
 
 func (p *RegisteredType) TypeCheckRecord(hash *SexpHash) error {
-	Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
+	//Q("in RegisteredType.TypeCheckRecord(hash = '%v')", hash.SexpString(nil))
 	if hash.TypeName == "field" {
 		Q("in RegisteredType.TypeCheckRecord, TypeName == field, skipping.")
 		return nil
diff --git a/zygo/scopes.go b/zygo/scopes.go
index d256349..3ac8ea2 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -192,7 +192,7 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 	}
 	cur, already := stack.elements[stack.tos].(*Scope).Map[sym.number]
 	if already {
-		Q("BindSymbol already sees symbol %v, currently bound to '%v'", sym.name, cur.SexpString(nil))
+		//Q("BindSymbol already sees symbol %v, currently bound to '%v'", sym.name, cur.SexpString(nil))
 
 		lhsTy := cur.Type()
 		rhsTy := expr.Type()
@@ -212,7 +212,7 @@ func (stack *Stack) BindSymbol(sym *SexpSymbol, expr Sexp) error {
 		}
 
 		// both sides have type
-		Q("BindSymbol: both sides have type. rhs=%v, lhs=%v", rhsTy.SexpString(nil), lhsTy.SexpString(nil))
+		//Q("BindSymbol: both sides have type. rhs=%v, lhs=%v", rhsTy.SexpString(nil), lhsTy.SexpString(nil))
 
 		if lhsTy == rhsTy {
 			Q("BindSymbol: YES types match exactly. Good.")
diff --git a/zygo/vm.go b/zygo/vm.go
index 08355db..7ff0812 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -180,7 +180,7 @@ func (p UpdateInstr) Execute(env *Zlisp) error {
 	env.pc++
 
 	if p.sym.isSigil {
-		Q("UpdateInstr: ignoring sigil symbol '%s'", p.sym.SexpString(nil))
+		//Q("UpdateInstr: ignoring sigil symbol '%s'", p.sym.SexpString(nil))
 		return nil
 	}
 	if p.sym.isDot {
-- 
2.43.0


From eb157543280f72c20f26fd52ca7e97ea80992528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 36/51] fix: printing with deep indentation, and of parts
 shared deep inside

---
 zygo/expressions.go | 3 +++
 zygo/hashutils.go   | 3 +++
 zygo/printstate.go  | 9 ++++++---
 zygo/scopes.go      | 3 +++
 zygo/stack.go       | 3 +++
 5 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/zygo/expressions.go b/zygo/expressions.go
index aaf1809..45a69e8 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -317,6 +317,9 @@ func (arr *SexpArray) SexpString(ps *PrintState) string {
 	//prettyEnd := ""
 	pretty := false
 	if arr != nil && arr.Env != nil && arr.Env.Pretty {
+		if indent > maxIndent {
+			return notPrinted
+		}
 		pretty = true
 		//prettyEnd = "\n"
 		indInner = strings.Repeat(" ", inner)
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index a8cfe85..0967eb9 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -914,6 +914,9 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 	prettyEnd := ""
 	origIndInner := ""
 	if hash.Env.Pretty {
+		if indent > maxIndent {
+			return notPrinted
+		}
 		prettyEnd = "\n"
 		indInner = strings.Repeat(" ", inner)
 		origIndInner = strings.Repeat(" ", indent)
diff --git a/zygo/printstate.go b/zygo/printstate.go
index b36fb48..360b496 100644
--- a/zygo/printstate.go
+++ b/zygo/printstate.go
@@ -22,7 +22,7 @@ type PrintState struct {
 type containers struct {
 	open map[Sexp]bool // what the operation is inside of
 	met  map[Sexp]bool
-	// how often something was met again
+	// how often something was met again, deep inside counting more
 	again int
 }
 
@@ -33,6 +33,9 @@ const (
 
 	// maxShared limits how much time shared parts may take.
 	maxShared = 2000000
+
+	// maxIndent is the most that lines are indented.
+	maxIndent = 2000
 )
 
 func newContainers() *containers {
@@ -48,9 +51,9 @@ func (c *containers) enter(x Sexp) error {
 		return fmt.Errorf("data is nested more than %d deep", maxDataDepth)
 	}
 	if c.met[x] {
-		c.again++
+		c.again += 1 + len(c.open)
 		if c.again > maxShared {
-			return fmt.Errorf("data shares its parts more than %d times", maxShared)
+			return fmt.Errorf("data shares its parts too often")
 		}
 	}
 	c.met[x] = true
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 3ac8ea2..0fa26cd 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -304,6 +304,9 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	if ps == nil {
 		ps = NewPrintState()
 	}
+	if ps.GetIndent() > maxIndent {
+		return notPrinted, nil
+	}
 	if ps.GetSeen(scop) {
 		// This check is critical to prevent infinite looping in a cycle.
 		// Scopes like global are referenced by every package, and
diff --git a/zygo/stack.go b/zygo/stack.go
index e011b9a..55ac3e3 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -160,6 +160,9 @@ func (stack *Stack) IsStackElem() {}
 
 func (stack *Stack) Show(env *Zlisp, ps *PrintState, label string) (string, error) {
 	//P("debug: Stack.Show starting with stack = %p, ps = %p, Package: '%s', IsPkg: %v", stack, ps, stack.PackageName, stack.IsPackage)
+	if ps.GetIndent() > maxIndent {
+		return notPrinted, nil
+	}
 	if ps.GetSeen(stack) {
 		return fmt.Sprintf("already-saw Stack %p in Show", stack), nil
 	} else {
-- 
2.43.0


From 575520a377bdb8280d8d321c46f755d91650907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 37/51] fix: printing of nested struct definitions and fields
 with changed keys

---
 zygo/builders.go | 123 +++++++++++++++++++++++------------------------
 1 file changed, 59 insertions(+), 64 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index c416d6a..6f287f9 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -97,10 +97,13 @@ func (p *RecordDefn) SexpString(ps *PrintState) string {
 	}
 	s := fmt.Sprintf("(struct %s [\n", p.Name)
 
+	keys := make([][]string, len(p.Fields))
+	vals := make([][]string, len(p.Fields))
 	w := make([][]int, len(p.Fields))
 	maxnfield := 0
 	for i, f := range p.Fields {
-		w[i] = f.FieldWidths()
+		keys[i], vals[i] = f.texts(nil)
+		w[i] = fieldWidths(keys[i], vals[i])
 		//Q("w[i=%v] = %v", i, w[i])
 		maxnfield = maxi(maxnfield, len(w[i]))
 	}
@@ -131,8 +134,8 @@ func (p *RecordDefn) SexpString(ps *PrintState) string {
 	// xxxxxxx
 	// xxx     x  x x
 	//Q("pad = %#v", biggestCol)
-	for _, f := range p.Fields {
-		s += " " + f.AlignString(biggestCol) + "\n"
+	for i, f := range p.Fields {
+		s += " " + f.alignTexts(biggestCol, keys[i], vals[i]) + "\n"
 	}
 	s += " ])\n"
 	return s
@@ -151,64 +154,64 @@ func (r SexpField) Type() *RegisteredType {
 	return r.GoStructFactory
 }
 
-// compute key and value widths to assist alignment
-func (f *SexpField) FieldWidths() []int {
+// texts returns what the keys and values of a field are printed as.
+func (f *SexpField) texts(ps *PrintState) (keys, vals []string) {
 	hash := (*SexpHash)(f)
-	wide := []int{}
 	for _, key := range hash.KeyOrder {
 		val, err := hash.HashGet(nil, key)
-		str := ""
-		if err == nil {
-			switch s := key.(type) {
-			case *SexpStr:
-				str += s.S + ":"
-			case *SexpSymbol:
-				str += s.name + ":"
-			default:
-				str += key.SexpString(nil) + ":"
-			}
-			wide = append(wide, len(str))
-			wide = append(wide, len(val.SexpString(nil))+1)
-		} else {
-			panic(err)
+		if err != nil {
+			// an array was changed after it became a key
+			continue
+		}
+		switch s := key.(type) {
+		case *SexpStr:
+			keys = append(keys, s.S+":")
+		case *SexpSymbol:
+			keys = append(keys, s.name+":")
+		default:
+			keys = append(keys, key.SexpString(nil)+":")
 		}
+		vals = append(vals, val.SexpString(ps))
+	}
+	return keys, vals
+}
+
+// compute key and value widths to assist alignment
+func (f *SexpField) FieldWidths() []int {
+	return fieldWidths(f.texts(nil))
+}
+
+func fieldWidths(keys, vals []string) []int {
+	wide := []int{}
+	for i := range keys {
+		wide = append(wide, len(keys[i]), len(vals[i])+1)
 	}
 	return wide
 }
 
 func (f *SexpField) AlignString(pad []int) string {
+	keys, vals := f.texts(nil)
+	return f.alignTexts(pad, keys, vals)
+}
+
+func (f *SexpField) alignTexts(pad []int, keys, vals []string) string {
 	hash := (*SexpHash)(f)
 	str := " (" + hash.TypeName + " "
 	spc := " "
-	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
-		r := ""
-		if err == nil {
-			switch s := key.(type) {
-			case *SexpStr:
-				r += s.S + ":"
-			case *SexpSymbol:
-				r += s.name + ":"
-			default:
-				r += key.SexpString(nil) + ":"
-			}
-			xtra := pad[i*2] - len(r)
-			if xtra < 0 {
-				panic(fmt.Sprintf("xtra = %d, pad[i=%v]=%v, len(r)=%v (r=%v)", xtra, i, pad[i], len(r), r))
-			}
-			leftpad := strings.Repeat(" ", xtra)
-			vs := val.SexpString(nil)
-			rightpad := strings.Repeat(" ", pad[(i*2)+1]-len(vs))
-			if i == 0 {
-				spc = " "
-			} else {
-				spc = ""
-			}
-			r = leftpad + r + spc + vs + rightpad
+	for i, r := range keys {
+		xtra := pad[i*2] - len(r)
+		if xtra < 0 {
+			panic(fmt.Sprintf("xtra = %d, pad[i=%v]=%v, len(r)=%v (r=%v)", xtra, i, pad[i], len(r), r))
+		}
+		leftpad := strings.Repeat(" ", xtra)
+		vs := vals[i]
+		rightpad := strings.Repeat(" ", pad[(i*2)+1]-len(vs))
+		if i == 0 {
+			spc = " "
 		} else {
-			panic(err)
+			spc = ""
 		}
-		str += r
+		str += leftpad + r + spc + vs + rightpad
 	}
 	if len(hash.Map) > 0 {
 		return str[:len(str)-1] + ")"
@@ -220,24 +223,13 @@ func (f *SexpField) SexpString(ps *PrintState) string {
 	hash := (*SexpHash)(f)
 	str := " (" + hash.TypeName + " "
 
-	for i, key := range hash.KeyOrder {
-		val, err := hash.HashGet(nil, key)
-		if err == nil {
-			switch s := key.(type) {
-			case *SexpStr:
-				str += s.S + ":"
-			case *SexpSymbol:
-				str += s.name + ":"
-			default:
-				str += key.SexpString(nil) + ":"
-			}
-			if i > 0 {
-				str += val.SexpString(nil) + " "
-			} else {
-				str += val.SexpString(nil) + "    "
-			}
+	keys, vals := f.texts(nil)
+	for i := range keys {
+		str += keys[i]
+		if i > 0 {
+			str += vals[i] + " "
 		} else {
-			panic(err)
+			str += vals[i] + "    "
 		}
 	}
 	if len(hash.Map) > 0 {
@@ -703,6 +695,9 @@ func VarBuilder(env *Zlisp, name string,
 	ev, err := EvalFunction(env, "evalVar", args[1:2])
 	//Q("done with eval, ev=%v / type %T", ev.SexpString(nil), ev)
 	if err != nil {
+		if len(err.Error()) > maxErrorText {
+			return SexpNull, err
+		}
 		return SexpNull, fmt.Errorf("bad var declaration, problem with type '%v': %v", args[1].SexpString(nil), err)
 	}
 
-- 
2.43.0


From eb83a54a5c0175319ae83ca725d23ee39640bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 38/51] fix: deeply nested source and operands of an unknown
 kind are errors

---
 zygo/parser.go | 3 +++
 zygo/pratt.go  | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/zygo/parser.go b/zygo/parser.go
index 2f794c0..f303e1e 100644
--- a/zygo/parser.go
+++ b/zygo/parser.go
@@ -247,6 +247,9 @@ func (parser *Parser) peekPastComments(i int) (tok Token, next int, err error) {
 func (parser *Parser) ParseExpression(depth int) (res Sexp, err error) {
 	parser.recur++
 	defer func() { parser.recur-- }()
+	if depth > 2*maxNesting {
+		return SexpNull, fmt.Errorf("source is nested more than %d deep", maxNesting)
+	}
 
 	// defer func() {
 	// 	if res != nil {
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 4ac9d3f..b66b903 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -825,6 +825,9 @@ func InfixBuilder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	return ev, nil
 }
 
+// maxInfixNesting is how many operators may wait for their right operand.
+const maxInfixNesting = 10000
+
 type Pratt struct {
 	NextToken  Sexp
 	CnodeStack []Sexp
@@ -935,6 +938,9 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 		//Q("Expression sees IsEOF, returning cnode = %v", cnode.SexpString(nil))
 		return cnode, nil
 	}
+	if len(p.CnodeStack) >= maxInfixNesting {
+		return SexpNull, fmt.Errorf("infix expression is nested more than %d deep", maxInfixNesting)
+	}
 	p.CnodeStack = append([]Sexp{p.NextToken}, p.CnodeStack...)
 	//p.ShowCnodeStack()
 
@@ -1008,7 +1014,7 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 			//Q("Expression sees an SexpPair")
 			// leaving curOp nil seems to work just fine here.
 		default:
-			panic(fmt.Errorf("how to handle cnode type = %#v", cnode))
+			return SexpNull, fmt.Errorf("infix: unexpected %T after an operand", cnode)
 		}
 		//Q("curOp = %#v", curOp)
 
-- 
2.43.0


From 40639ae5bef1db89cc6965beb55091f81bc44667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 39/51] fix: dotted symbols and arrays of functions or NaNs as
 hash keys

---
 zygo/hashutils.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 0967eb9..b11ca36 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -58,6 +58,12 @@ func hashHelper(expr Sexp) (hashcode int, isList bool, err error) {
 	case *SexpPair:
 		return 0, true, nil
 	case *SexpArray:
+		// functions or a NaN inside can't be found again
+		if res, err := (*Zlisp)(nil).Compare(e, e); err != nil {
+			return 0, false, err
+		} else if res != 0 {
+			return 0, false, fmt.Errorf("array that does not equal itself cannot be a hash key")
+		}
 		return int(Blake2bUint64([]byte(e.SexpString(nil)))), false, nil
 	}
 	return 0, false, fmt.Errorf("cannot hash type %T", expr)
@@ -221,7 +227,8 @@ func (hash *SexpHash) HashGet(env *Zlisp, key Sexp) (res Sexp, err error) {
 			panic("cannot have nil symbol for key")
 		}
 		//P("HashGet, sym = '%v'. isDot=%v", sym.SexpString(nil), sym.isDot)
-		if sym.isDot {
+		// a nil env asks for the key itself, as found in KeyOrder
+		if sym.isDot && env != nil {
 			return hash.DotPathHashGet(env, sym)
 		}
 
-- 
2.43.0


From 36f4bc9ae844d5dc142ef5cd6bf999973a263794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 40/51] fix: the prompt does without line editing when stdin is
 no terminal

---
 zygo/liner.go | 6 ++++++
 zygo/repl.go  | 7 ++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/zygo/liner.go b/zygo/liner.go
index f495793..8ec42ec 100644
--- a/zygo/liner.go
+++ b/zygo/liner.go
@@ -81,6 +81,12 @@ outer:
 	return prefix, c, end
 }
 
+// canPrompt tells if stdin is a terminal, as NewPrompter needs.
+func canPrompt() bool {
+	_, err := liner.TerminalMode()
+	return err == nil
+}
+
 func NewPrompter(prompt string) *Prompter {
 	origMode, err := liner.TerminalMode()
 	if err != nil {
diff --git a/zygo/repl.go b/zygo/repl.go
index 652584a..3b8f633 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -151,7 +151,8 @@ func processDumpCommand(env *Zlisp, args []string) {
 func Repl(env *Zlisp, cfg *ZlispConfig) {
 
 	var reader *bufio.Reader
-	if cfg.NoLiner {
+	noLiner := cfg.NoLiner || !canPrompt()
+	if noLiner {
 		// reader is used if one wishes to drop the liner library.
 		// Useful for not full terminal env, like under test.
 		reader = bufio.NewReader(os.Stdin)
@@ -171,7 +172,7 @@ func Repl(env *Zlisp, cfg *ZlispConfig) {
 		fmt.Printf("press tab (repeatedly) to get completion suggestions. Shift-tab goes back. Ctrl-d to exit.\n")
 	}
 	var pr *Prompter // can be nil if noLiner
-	if !cfg.NoLiner {
+	if !noLiner {
 		pr = NewPrompter(cfg.Prompt)
 		defer pr.Close()
 	} else {
@@ -180,7 +181,7 @@ func Repl(env *Zlisp, cfg *ZlispConfig) {
 	infixSym := env.MakeSymbol("infix")
 
 	for {
-		line, exprsInput, err := pr.getExpressionWithLiner(env, reader, cfg.NoLiner)
+		line, exprsInput, err := pr.getExpressionWithLiner(env, reader, noLiner)
 		//Q("\n exprsInput(len=%d) = '%v'\n line = '%s'\n", len(exprsInput), (&SexpArray{Val: exprsInput}).SexpString(nil), line)
 		if err != nil {
 			fmt.Println(err)
-- 
2.43.0


From e1d4b318e108aa70eac08f3bb51769a8beefeb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 41/51] fix: infix: missing operands are errors, not and dotted
 names start a statement, blocks inside for headers

---
 zygo/pratt.go | 53 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/zygo/pratt.go b/zygo/pratt.go
index b66b903..319bba9 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -1,6 +1,7 @@
 package zygo
 
 import (
+	"errors"
 	"fmt"
 	"io"
 )
@@ -34,6 +35,7 @@ type InfixOp struct {
 	MunchLeft  LeftMuncher  // aka led
 	MunchStmt  StmtMuncher  // aka std. Used only at the beginning of a statement.
 	IsAssign   bool
+	postfix    bool // takes no operand on its right
 }
 
 // Infix creates a new infix operator
@@ -154,6 +156,7 @@ func (env *Zlisp) PostfixAssign(op string, bp int) *InfixOp {
 			//Q("postfix assignment returning list: '%v'", list.SexpString(nil))
 			return list, nil
 		},
+		postfix: true,
 	}
 	env.infixOps[op] = iop
 	return iop
@@ -570,7 +573,7 @@ func lowerGoFor(env *Zlisp, label *SexpSymbol, header []Sexp, bodyBlock Sexp) (S
 func forOpMunchRightWithLabel(env *Zlisp, pr *Pratt, label *SexpSymbol) (Sexp, error) {
 	bodyPos := -1
 	for i := pr.Pos; i < len(pr.Stream); i++ {
-		if isForBodyBlock(pr.Stream[i]) {
+		if isForBodyBlock(pr.Stream[i]) && !(i > pr.Pos && env.wantsOperand(pr.Stream[i-1])) {
 			bodyPos = i
 			break
 		}
@@ -586,6 +589,18 @@ func forOpMunchRightWithLabel(env *Zlisp, pr *Pratt, label *SexpSymbol) (Sexp, e
 	return lowerGoFor(env, label, header, body)
 }
 
+// wantsOperand says if a block after tok is an operand of it.
+func (env *Zlisp) wantsOperand(tok Sexp) bool {
+	switch t := tok.(type) {
+	case *SexpComma:
+		return true
+	case *SexpSymbol:
+		op, found := env.infixOps[t.name]
+		return t.name == "range" || found && (op.MunchLeft != nil && !op.postfix || t.name == "not")
+	}
+	return false
+}
+
 func forOpMunchRight(env *Zlisp, pr *Pratt) (Sexp, error) {
 	return forOpMunchRightWithLabel(env, pr, nil)
 }
@@ -761,6 +776,16 @@ func InfixExpandArray(env *Zlisp, arr *SexpArray) ([]Sexp, error) {
 	xs := []Sexp{}
 
 	for {
+		for !pr.IsEOF() {
+			if _, isSemi := pr.NextToken.(*SexpSemicolon); !isSemi {
+				break
+			}
+			pr.Advance()
+		}
+		if pr.IsEOF() {
+			break
+		}
+
 		x, ok, err := pr.LabeledFor(env)
 		if err != nil {
 			return nil, err
@@ -776,19 +801,8 @@ func InfixExpandArray(env *Zlisp, arr *SexpArray) ([]Sexp, error) {
 		//} else {
 		//	Q("x back is not nil and is of type %T/val = '%v', err = %v", x, x.SexpString(nil), err)
 		//}
-		_, isSemi := x.(*SexpSemicolon)
-		if !isSemi {
-			xs = append(xs, x)
-		}
+		xs = append(xs, x)
 		//Q("end of infix builder loop, pr.NextToken = '%v'", pr.NextToken.SexpString(nil))
-		if pr.IsEOF() {
-			break
-		}
-
-		_, nextIsSemi := pr.NextToken.(*SexpSemicolon)
-		if nextIsSemi {
-			pr.Advance() // skip over the semicolon
-		}
 	}
 	return xs, nil
 }
@@ -828,6 +842,8 @@ func InfixBuilder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 // maxInfixNesting is how many operators may wait for their right operand.
 const maxInfixNesting = 10000
 
+var errMissingOperand = errors.New("infix expression ends where an operand is expected")
+
 type Pratt struct {
 	NextToken  Sexp
 	CnodeStack []Sexp
@@ -936,7 +952,10 @@ func (p *Pratt) Expression(env *Zlisp, rbp int) (ret Sexp, err error) {
 	//}
 	if p.IsEOF() {
 		//Q("Expression sees IsEOF, returning cnode = %v", cnode.SexpString(nil))
-		return cnode, nil
+		return SexpNull, errMissingOperand
+	}
+	if _, isSemi := cnode.(*SexpSemicolon); isSemi {
+		return SexpNull, errMissingOperand
 	}
 	if len(p.CnodeStack) >= maxInfixNesting {
 		return SexpNull, fmt.Errorf("infix expression is nested more than %d deep", maxInfixNesting)
@@ -1092,9 +1111,13 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		}
 		if found {
 			//Q("LeftBindingPower: found op '%#v', returning op.Bp = %v", op, op.Bp)
+			if op.MunchLeft == nil {
+				// a prefix operator starts the next statement
+				return 0, nil
+			}
 			return op.Bp, nil
 		}
-		if x.isDot {
+		if x.isDot && x.name[0] == '.' {
 			//Q("LeftBindingPower: dot symbol '%v', "+
 			//	"giving it binding-power 80", x.name)
 			return 80, nil
-- 
2.43.0


From a42a528eac935088ad55f5c181530124acb45fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 42/51] fix: dot paths through a hash after the first package
 or hash hop

---
 zygo/hashutils.go | 2 +-
 zygo/stack.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index b11ca36..4d74148 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -884,7 +884,7 @@ func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp)
 			//P("\n found hash in h2 at i=%d, looping to next i\n", i)
 			askh = x
 		case *Stack:
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 			//		case *SexpReflect:
 			//			// at least allow reading, if we can.
 			//			P("hashutils DEBUG! SexpReflect value x is type: '%v', '%T'", x.Val.Type(), x.Val.Interface())
diff --git a/zygo/stack.go b/zygo/stack.go
index 55ac3e3..d5d15b0 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -275,7 +275,7 @@ func (s *Stack) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (S
 				return SexpNull, err
 			}
 			//P("\n found hash in x at i=%d, looping to next i\n", i)
-			return x.nestedPathGetSet(env, dotpaths[1:], setVal)
+			return x.nestedPathGetSet(env, dotpaths[i+1:], setVal)
 		case *Stack:
 			curStack = x
 		default:
-- 
2.43.0


From a65e777f0a5c65eb8c0102b6ec67e135f3a86155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 43/51] fix: dotted names, eval and source resolve names in the
 scope of the code that calls them

---
 zygo/environment.go | 34 +++++++++++++++++++++++++++++++---
 zygo/functions.go   |  2 ++
 zygo/source.go      |  5 ++++-
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/zygo/environment.go b/zygo/environment.go
index 8621035..8167820 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -477,6 +477,14 @@ func (env *Zlisp) PrepareCallExprArgs(function *SexpFunction, args []Sexp) error
 		if err != nil {
 			return err
 		}
+		if function != nil && !function.user && i < function.nargs {
+			// a parameter is bound to what a dotted name stands for
+			// where the call is written, not inside the callee.
+			val, err = env.RValue(val)
+			if err != nil {
+				return err
+			}
+		}
 		env.datastack.PushExpr(val)
 	}
 	return nil
@@ -1116,6 +1124,25 @@ func (env *Zlisp) ShowGlobalStack() error {
 	return err
 }
 
+// lexicalFunction is the function whose code is running. While a builtin
+// resolves its arguments that is the function that called it: builtins
+// capture no scopes of their own.
+func (env *Zlisp) lexicalFunction() *SexpFunction {
+	fun := env.curfunc
+	for n := 0; fun.user; n++ {
+		elem, err := env.addrstack.Get(n)
+		if err != nil {
+			return env.curfunc
+		}
+		addr, ok := elem.(Address)
+		if !ok || addr.function == nil {
+			return env.curfunc
+		}
+		fun = addr.function
+	}
+	return fun
+}
+
 func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, error, *Scope) {
 
 	// DotSymbols, named-argument labels, and question sigils evaluate to themselves.
@@ -1136,10 +1163,11 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 	}
 
 	// check the parent function lexical captured scopes, if parent available.
-	if env.curfunc.parent != nil {
+	curfunc := env.lexicalFunction()
+	if curfunc.parent != nil {
 		//P("checking non-nil parent...")
 		//exp, err, whichScope := env.curfunc.parent.ClosingLookupSymbol(sym, setVal)
-		exp, err, whichScope := env.curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
+		exp, err, whichScope := curfunc.LookupSymbolInParentChainOfClosures(sym, setVal, env)
 		switch err {
 		case nil:
 			//P("LookupSymbolUntilFunction('%s') found in curfunc.parent.ClosingLookupSymbol() scope '%s'\n", sym.name, whichScope.Name)
@@ -1152,7 +1180,7 @@ func (env *Zlisp) LexicalLookupSymbol(sym *SexpSymbol, setVal *Sexp) (Sexp, erro
 
 		//fmt.Printf(" *** env.curfunc has closure of: %s\n", ClosureToString(env.curfunc, env))
 		//exp, err, scope = env.curfunc.ClosingLookupSymbol(sym, setVal)
-		exp, err, scope = env.curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
+		exp, err, scope = curfunc.ClosingLookupSymbolUntilFunc(sym, setVal, 1, false)
 		switch err {
 		case nil:
 			//P("LexicalLookupSymbol('%s') found in env.curfunc.ClosingLookupSymbolUnfilFunc(1, false) in scope '%s'\n", sym.name, scope.Name)
diff --git a/zygo/functions.go b/zygo/functions.go
index 7eea075..0bcc447 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -713,6 +713,8 @@ func EvalFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	newfunc := ZlispFunction(gen.instructions)
 	orig := &SexpArray{Val: args}
 	sfun := env.MakeFunction("evalGeneratedFunction", 0, false, newfunc, orig)
+	// the code sees the bindings of whoever called eval
+	sfun.parent = env.lexicalFunction()
 
 	err = env.CallFunction(sfun, 0)
 	if err != nil {
diff --git a/zygo/source.go b/zygo/source.go
index 5f67a8b..0a4c9d3 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -62,8 +62,11 @@ func (env *Zlisp) SourceExpressions(expressions []Sexp) error {
 		env.curfunc = curfunc
 	}()
 
-	env.curfunc = env.MakeFunction("__source", 0, false,
+	sfun := env.MakeFunction("__source", 0, false,
 		gen.instructions, nil)
+	// the code sees the bindings of whoever sources it
+	sfun.parent = env.lexicalFunction()
+	env.curfunc = sfun
 	env.pc = 0
 
 	result, err := env.Run()
-- 
2.43.0


From 06fce661c1ad622372f7330fcde6a03083c2ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 44/51] fix: declared struct types are enforced for every key,
 on every element and through every pointer

Keys that are not symbols were not checked, arrays were checked by their
first element only, elements of an array held by a typed field could be
overwritten with anything, derefSet replaced arrays and pointers by ones of
another type, and records made before a declaration took on the later
definition.
---
 zygo/arrayutils.go  | 123 ++++++++++++++++++++++++++++++++++++++++--
 zygo/expressions.go |   3 ++
 zygo/functions.go   |  26 ++++++---
 zygo/gotypereg.go   |   4 ++
 zygo/hashutils.go   | 129 ++++++++++++++------------------------------
 5 files changed, 186 insertions(+), 99 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 01f94bf..2bae997 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -255,9 +255,10 @@ func (x *SexpArraySelector) RHS(env *Zlisp) (Sexp, error) {
 			return SexpNull, fmt.Errorf("SexpArraySelector: slice end %v is out-of-bounds; length is %v", end, n)
 		}
 		return &SexpArray{
-			Val: x.Container.Val[start:end],
-			Env: env,
-			Typ: x.Container.Typ,
+			Val:  x.Container.Val[start:end],
+			held: x.Container.holder(start < end),
+			Env:  env,
+			Typ:  x.Container.Typ,
 		}, nil
 	}
 
@@ -313,10 +314,124 @@ func (x *SexpArraySelector) AssignToSelection(env *Zlisp, rhs Sexp) error {
 	if err != nil {
 		return err
 	}
-	x.Container.Val[x.Select.Val[0].(*SexpInt).Val] = rhs
+	return x.Container.setElement(int(x.Select.Val[0].(*SexpInt).Val), rhs)
+}
+
+// heldAs says what the elements of an array have to be, once it has
+// been stored in a record field of a declared slice type.
+type heldAs struct {
+	elem *RegisteredType
+}
+
+// heldAsNothing is the element type of an empty array that fields of
+// different types hold.
+var heldAsNothing = &RegisteredType{DisplayAs: "nil"}
+
+// holder returns the heldAs of r, which a view of r has to share unless
+// it is empty.
+func (r *SexpArray) holder(share bool) *heldAs {
+	if !share {
+		return nil
+	}
+	if r.held == nil {
+		r.held = &heldAs{}
+	}
+	return r.held
+}
+
+// setElement stores val at position i of r.
+func (r *SexpArray) setElement(i int, val Sexp) error {
+	if r.held != nil && r.held.elem != nil {
+		if !isOfType(val, r.held.elem, nil) {
+			return fmt.Errorf("array holds elements of type %v, cannot assign '%v'",
+				r.held.elem.SexpString(nil), val.SexpString(nil))
+		}
+		holdAs(val, r.held.elem, nil)
+	}
+	r.Val[i] = val
+	return nil
+}
+
+// setElements replaces the elements of r by those of src.
+func (r *SexpArray) setElements(src *SexpArray) error {
+	if r.held != nil && r.held.elem != nil {
+		for _, val := range src.Val {
+			if !isOfType(val, r.held.elem, nil) {
+				return fmt.Errorf("array holds elements of type %v, cannot assign '%v'",
+					r.held.elem.SexpString(nil), val.SexpString(nil))
+			}
+		}
+		for _, val := range src.Val {
+			holdAs(val, r.held.elem, nil)
+		}
+	}
+	held := r.held
+	*r = *src
+	r.Val, r.held = joinVals(src.Val, nil), held
 	return nil
 }
 
+type arrayOfType struct {
+	arr *SexpArray
+	typ *RegisteredType
+}
+
+// isOfType says whether val, with all its elements if it is an array,
+// can be held by a field of the declared type typ. nil always can. The
+// caller may pass nil for seen.
+func isOfType(val Sexp, typ *RegisteredType, seen map[arrayOfType]bool) bool {
+	if val == SexpNull {
+		return true
+	}
+	arr, isArr := val.(*SexpArray)
+	if !isArr || typ.elem == nil {
+		obs := val.Type()
+		return obs != nil && obs == typ
+	}
+	if arr.held != nil && arr.held.elem != nil && len(arr.Val) > 0 && arr.held.elem != typ.elem {
+		return false
+	}
+	this := arrayOfType{arr, typ}
+	if seen[this] {
+		return true
+	}
+	if seen == nil {
+		seen = make(map[arrayOfType]bool)
+	}
+	seen[this] = true
+	for _, el := range arr.Val {
+		if !isOfType(el, typ.elem, seen) {
+			return false
+		}
+	}
+	return true
+}
+
+// holdAs has the arrays in val, for which isOfType(val, typ, nil)
+// holds, refuse elements of other types from now on.
+func holdAs(val Sexp, typ *RegisteredType, seen map[arrayOfType]bool) {
+	arr, isArr := val.(*SexpArray)
+	this := arrayOfType{arr, typ}
+	if !isArr || typ.elem == nil || seen[this] {
+		return
+	}
+	if seen == nil {
+		seen = make(map[arrayOfType]bool)
+	}
+	seen[this] = true
+	held := arr.holder(true)
+	switch held.elem {
+	case nil:
+		held.elem = typ.elem
+	case typ.elem:
+	default:
+		held.elem = heldAsNothing
+	}
+	for _, el := range arr.Val {
+		holdAs(el, typ.elem, seen)
+	}
+}
+
 func (env *Zlisp) NewSexpArray(arr []Sexp) *SexpArray {
 	return &SexpArray{Val: arr, Env: env}
 }
diff --git a/zygo/expressions.go b/zygo/expressions.go
index 45a69e8..24e95d1 100644
--- a/zygo/expressions.go
+++ b/zygo/expressions.go
@@ -266,6 +266,9 @@ type SexpArray struct {
 
 	Typ *RegisteredType
 
+	// shared with the arrays that are views of the same storage
+	held *heldAs
+
 	IsFuncDeclTypeArray bool
 	Infix               bool
 
diff --git a/zygo/functions.go b/zygo/functions.go
index 0bcc447..9370c36 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -208,7 +208,7 @@ func RestFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		if len(expr.Val) == 0 {
 			return expr, nil
 		}
-		return &SexpArray{Val: expr.Val[1:], Env: env, Typ: expr.Typ}, nil
+		return &SexpArray{Val: expr.Val[1:], Env: env, Typ: expr.Typ, held: expr.holder(len(expr.Val) > 1)}, nil
 	case *SexpSentinel:
 		if expr == SexpNull {
 			return SexpNull, nil
@@ -295,7 +295,7 @@ func ArrayAccessFunction(name string) ZlispUserFunction {
 			if i < 0 || i >= len(arr.Val) {
 				return SexpNull, fmt.Errorf("Array index out of bounds")
 			}
-			arr.Val[i] = args[2]
+			return SexpNull, arr.setElement(i, args[2])
 		}
 		return SexpNull, nil
 	}
@@ -447,7 +447,7 @@ func SliceFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	switch t := args[0].(type) {
 	case *SexpArray:
-		return &SexpArray{Val: t.Val[start:end], Env: env, Typ: t.Typ}, nil
+		return &SexpArray{Val: t.Val[start:end], Env: env, Typ: t.Typ, held: t.holder(start < end)}, nil
 	case *SexpStr:
 		return &SexpStr{S: t.S[start:end]}, nil
 	}
@@ -599,11 +599,11 @@ func AppendFunction(name string) ZlispUserFunction {
 		case *SexpArray:
 			switch name {
 			case "append":
-				return &SexpArray{Val: joinVals(t.Val, args[1:]), Env: env, Typ: t.Typ}, nil
+				return &SexpArray{Val: joinVals(t.Val, args[1:]), Env: env}, nil
 			case "appendslice":
 				switch sl := args[1].(type) {
 				case *SexpArray:
-					return &SexpArray{Val: joinVals(t.Val, sl.Val), Env: env, Typ: t.Typ}, nil
+					return &SexpArray{Val: joinVals(t.Val, sl.Val), Env: env}, nil
 				default:
 					return SexpNull, fmt.Errorf("Second argument of appendslice must be slice")
 				}
@@ -979,7 +979,7 @@ func ConstructorFunction(name string) ZlispUserFunction {
 	return func(env *Zlisp, _ string, args []Sexp) (Sexp, error) {
 		switch name {
 		case "array":
-			return env.NewSexpArray(args), nil
+			return env.NewSexpArray(joinVals(args, nil)), nil
 		case "list":
 			return MakeList(args), nil
 		case "hash":
@@ -1782,8 +1782,14 @@ func DerefFunction(name string) ZlispUserFunction {
 					// handle below
 				//case *SexpReflect:
 				// handle here or below?
+				case *SexpArray:
+					// handle below
 				default:
 					//P("we have a reflection capable type match!")
+					if args[1].Type() != ptr.PointedToType {
+						return SexpNull, fmt.Errorf("type mismatch: cannot assign '%v' to '%v'",
+							args[1].Type().SexpString(nil), ptr.PointedToType.SexpString(nil))
+					}
 					ptr.ReflectTarget.Elem().Set(rhs.Elem())
 					return
 				}
@@ -1835,6 +1841,14 @@ func DerefFunction(name string) ZlispUserFunction {
 						ptr.PointedToType.RegisteredName)
 				}
 
+			case *SexpArray:
+				target, isArr := ptr.Target.(*SexpArray)
+				if !isArr {
+					return SexpNull, fmt.Errorf("cannot assign an array to type '%v'",
+						ptr.PointedToType.RegisteredName)
+				}
+				return SexpNull, target.setElements(payload)
+
 			case *SexpReflect:
 				//Q("good, e2 is SexpReflect with Val='%#v'", payload.Val)
 
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 7c3f3d0..14ce3ad 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -212,6 +212,9 @@ type RegisteredType struct {
 	// the types derived from this one, made on first use
 	pointerTo *RegisteredType
 	sliceOf   *RegisteredType
+
+	// the element type, for a slice type
+	elem *RegisteredType
 }
 
 // typeTable holds the types that scripts declare at run time. Unlike
@@ -554,6 +557,7 @@ func (gsr *GoStructRegistryType) GetOrCreateSliceType(rt *RegisteredType) *Regis
 		})
 		sliceRt.DisplayAs = fmt.Sprintf("(%s)", sliceName)
 		sliceRt.setupUserdef(sliceName, false)
+		sliceRt.elem = rt
 		rt.sliceOf = sliceRt
 	}
 	return rt.sliceOf
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 4d74148..de0e52c 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -279,97 +279,49 @@ func (hash *SexpHash) HashGetDefault(env *Zlisp, key Sexp, defaultval Sexp) (Sex
 	return defaultval, nil
 }
 
-var KeyNotSymbol = fmt.Errorf("key is not a symbol")
-
+// TypeCheckField says whether a record may have val under key. Only
+// records of a declared struct type restrict that.
 func (h *SexpHash) TypeCheckField(key Sexp, val Sexp) error {
-	//Q("in TypeCheckField, key='%v' val='%v'", key.SexpString(nil), val.SexpString(nil))
-
-	var keySym *SexpSymbol
-	wasSym := false
-	switch ks := key.(type) {
-	case *SexpSymbol:
-		keySym = ks
-		wasSym = true
-	default:
-		return KeyNotSymbol
-	}
 	p := h.GoStructFactory
-	if p == nil {
-		//Q("SexpHash.TypeCheckField() sees nil GoStructFactory, bailing out.")
+	if p == nil || p.UserStructDefn == nil || h.TypeName == "hash" || h.TypeName == "field" {
 		return nil
-	} else {
-		//Q("SexpHash.TypeCheckField() sees h.GoStructFactory = '%#v'", h.GoStructFactory)
-	}
-
-	if p.UserStructDefn == nil {
-		//Q("SexpHash.TypeCheckField() sees nil has.GoStructFactory.UserStructDefn, bailing out.")
-
-		// check in the registry for this type!
-		rt := h.Env.LookupType(h.TypeName)
-
-		// was it found? If so, use it!
-		if rt != nil && rt.UserStructDefn != nil {
-			if rt.UserStructDefn.FieldType != nil {
-				//Q("")
-				//Q("we have a type for hash.TypeName = '%s', using it by "+
-				//	"replacing the hash.GoStructFactory with rt", h.TypeName)
-				//Q("")
-				//Q("old: h.GoStructFactory = '%#v'", h.GoStructFactory)
-				//Q("")
-				//Q("new: rt = '%#v'", rt)
-				//Q("new rt.UserStructDefn.FieldType = '%#v'", rt.UserStructDefn.FieldType)
-				//p.UserStructDefn = rt.UserStructDefn
-				h.GoStructFactory = rt
-				p = h.GoStructFactory
-			}
-		} else {
-			return nil
-		}
 	}
+	keySym, isSym := key.(*SexpSymbol)
+	if !isSym {
+		return fmt.Errorf("%s has no field '%s' [err 3]", p.UserStructDefn.Name, key.SexpString(nil))
+	}
+	k := keySym.name
+	declaredTyp, ok := p.UserStructDefn.FieldType[k]
+	if !ok {
+		return fmt.Errorf("%s has no field '%s' [err 2]", p.UserStructDefn.Name, k)
+	}
+	if isOfType(val, declaredTyp, nil) {
+		return nil
+	}
+	obsTyp := val.Type()
+	if obsTyp == nil {
+		return fmt.Errorf("%v has nil Type", val.SexpString(nil))
+	}
+	return fmt.Errorf("field %v.%v is %v, cannot assign %v '%v'",
+		p.UserStructDefn.Name,
+		k,
+		declaredTyp.SexpString(nil),
+		obsTyp.SexpString(nil),
+		val.SexpString(nil))
+}
 
-	// type-check record updates here, if we are a record with a
-	// registered type associated.
-	if wasSym && h.TypeName != "hash" && h.TypeName != "field" && p != nil {
-		k := keySym.name
-		//Q("is key '%s' defined?", k)
-		declaredTyp, ok := p.UserStructDefn.FieldType[k]
-		if !ok {
-			return fmt.Errorf("%s has no field '%s' [err 2]", p.UserStructDefn.Name, k)
-		}
-		obsTyp := val.Type()
-		if obsTyp == nil {
-			// allow certain types to be nil, e.g. [] and nil itself
-			switch a := val.(type) {
-			case *SexpArray:
-				if len(a.Val) == 0 {
-					return nil // okay
-				}
-			case *SexpSentinel:
-				return nil // okay
-			default:
-				return fmt.Errorf("%v has nil Type", val.SexpString(nil))
-			}
-		}
-
-		//Q("obsTyp is %T / val = %#v", obsTyp, obsTyp)
-		//Q("declaredTyp is %T / val = %#v", declaredTyp, declaredTyp)
-		if obsTyp != declaredTyp {
-			if obsTyp.RegisteredName == "[]" {
-				if strings.HasPrefix(declaredTyp.RegisteredName, "[]") {
-					// okay to assign empty slice to typed slice
-					goto done
-				}
-			}
-			return fmt.Errorf("field %v.%v is %v, cannot assign %v '%v'",
-				p.UserStructDefn.Name,
-				k,
-				declaredTyp.SexpString(nil),
-				obsTyp.SexpString(nil),
-				val.SexpString(nil))
+// holdField keeps the elements of val, an array in the declared field
+// key, of the type they have to be.
+func (h *SexpHash) holdField(key Sexp, val Sexp) {
+	p := h.GoStructFactory
+	if p == nil || p.UserStructDefn == nil {
+		return
+	}
+	if keySym, isSym := key.(*SexpSymbol); isSym {
+		if declaredTyp := p.UserStructDefn.FieldType[keySym.name]; declaredTyp != nil {
+			holdAs(val, declaredTyp, nil)
 		}
 	}
-done:
-	return nil
 }
 
 func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
@@ -385,15 +337,14 @@ func (hash *SexpHash) HashSet(key Sexp, val Sexp) error {
 
 	err := hash.TypeCheckField(key, val)
 	if err != nil {
-		if err != KeyNotSymbol {
-			return err
-		}
+		return err
 	}
 
 	hashval, err := HashExpression(nil, key)
 	if err != nil {
 		return err
 	}
+	hash.holdField(key, val)
 	arr, ok := hash.Map[hashval]
 
 	if !ok {
@@ -987,8 +938,8 @@ func (hash *SexpHash) SexpString(ps *PrintState) string {
 }
 
 func (r *SexpHash) Type() *RegisteredType {
-	if p := r.GoStructFactory; p != nil && p.UserStructDefn != nil {
-		return p
+	if r.GoStructFactory != nil {
+		return r.GoStructFactory
 	}
 	return r.Env.LookupType(r.TypeName)
 }
-- 
2.43.0


From 6b80107646dd4a24b9823636234987c95bed042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 45/51] fix: a struct may have fields of its own type, int32
 and rune are one type, types are no values of themselves

---
 zygo/arrayutils.go |  7 +++++++
 zygo/builders.go   |  5 +++++
 zygo/gotypereg.go  | 10 +++++-----
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/zygo/arrayutils.go b/zygo/arrayutils.go
index 2bae997..de3b4eb 100644
--- a/zygo/arrayutils.go
+++ b/zygo/arrayutils.go
@@ -385,6 +385,13 @@ func isOfType(val Sexp, typ *RegisteredType, seen map[arrayOfType]bool) bool {
 	}
 	arr, isArr := val.(*SexpArray)
 	if !isArr || typ.elem == nil {
+		target := val
+		for p, isPtr := target.(*SexpPointer); isPtr; p, isPtr = target.(*SexpPointer) {
+			target = p.Target
+		}
+		if _, isType := target.(*RegisteredType); isType {
+			return false // not a value of that type, but the type itself
+		}
 		obs := val.Type()
 		return obs != nil && obs == typ
 	}
diff --git a/zygo/builders.go b/zygo/builders.go
index 6f287f9..ca35af0 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -171,6 +171,11 @@ func (f *SexpField) texts(ps *PrintState) (keys, vals []string) {
 		default:
 			keys = append(keys, key.SexpString(nil)+":")
 		}
+		if rt, isType := val.(*RegisteredType); isType && rt != nil {
+			// by name, since a struct may have fields of its own type
+			vals = append(vals, rt.ShortName())
+			continue
+		}
 		vals = append(vals, val.SexpString(ps))
 	}
 	return keys, vals
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index 14ce3ad..e1eb4e8 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -406,12 +406,12 @@ func init() {
 	gsr.RegisterBuiltin("int16", &RegisteredType{GenDefMap: false, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return new(int16), nil
 	}})
-	gsr.RegisterBuiltin("int32", &RegisteredType{GenDefMap: false, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
+	// as in Go, int32 and rune are two names of one type
+	int32RT := &RegisteredType{GenDefMap: false, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return new(int32), nil
-	}})
-	gsr.RegisterBuiltin("rune", &RegisteredType{GenDefMap: false, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
-		return new(int32), nil
-	}})
+	}}
+	gsr.RegisterBuiltin("rune", int32RT)
+	gsr.RegisterBuiltin("int32", int32RT)
 	gsr.RegisterBuiltin("int64", &RegisteredType{GenDefMap: false, Factory: func(env *Zlisp, h *SexpHash) (interface{}, error) {
 		return new(int64), nil
 	}})
-- 
2.43.0


From 91160e0fefca7e460b8b1274e3bc4e4d5bf5ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 46/51] fix: both names of int32 are bound

---
 zygo/gotypereg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index e1eb4e8..e2d131c 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -491,7 +491,7 @@ func (env *Zlisp) ImportBaseTypes() {
 	// in a fixed order, so that symbol numbers are reproducible.
 	for _, name := range ListRegisteredTypes {
 		if e, found := GoStructRegistry.Builtin[name]; found {
-			env.AddGlobal(e.RegisteredName, e)
+			env.AddGlobal(name, e)
 		}
 	}
 	for _, name := range ListRegisteredTypes {
-- 
2.43.0


From 30de47bf86e1908686732d87ab8a52c8f94fb718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 47/51] fix: templates substitute in dotted pairs and in the
 order of a hash's keys, splices need a place; macros get a.b as written, and
 functions in a macro body see the globals

---
 zygo/generator.go | 80 ++++++++++++++++++++++++++++++++++++++++-------
 zygo/vm.go        | 51 ++++++++++++++++++++++++++++++
 2 files changed, 120 insertions(+), 11 deletions(-)

diff --git a/zygo/generator.go b/zygo/generator.go
index 328d9a4..700dd60 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -83,7 +83,8 @@ func buildSexpFun(
 	name string,
 	funcargs *SexpArray,
 	funcbody []Sexp,
-	orig Sexp) (*SexpFunction, error) {
+	orig Sexp,
+	isMacro bool) (*SexpFunction, error) {
 
 	//defer func() { //VPrintf("exiting buildSexpFun()\n") }()
 
@@ -135,7 +136,11 @@ func buildSexpFun(
 		DumpFunction(ZlispFunction(gen.instructions), -1)
 	}
 	for i := len(argsyms) - 1; i >= 0; i-- {
-		gen.AddInstruction(PopStackPutEnvInstr{argsyms[i]})
+		if isMacro {
+			gen.AddInstruction(BindFormInstr{argsyms[i]})
+		} else {
+			gen.AddInstruction(PopStackPutEnvInstr{argsyms[i]})
+		}
 	}
 	err := gen.GenerateBegin(funcbody)
 	if err != nil {
@@ -171,7 +176,7 @@ func (gen *Generator) GenerateFn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateFn() about to call buildSexpFun\n")
 	funcbody := args[1:]
-	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig)
+	sfun, err := buildSexpFun(gen.env, "", funcargs, funcbody, orig, false)
 	if err != nil {
 		return err
 	}
@@ -265,7 +270,7 @@ func (gen *Generator) GenerateDefn(args []Sexp, orig Sexp) error {
 
 	//VPrintf("GenerateDefn() about to call buildSexpFun\n")
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, false)
 	if err != nil {
 		return err
 	}
@@ -314,11 +319,17 @@ func (gen *Generator) GenerateDefmac(args []Sexp, orig Sexp) error {
 			sym.name, xpr.SexpString(nil))
 	}
 
-	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig)
+	sfun, err := buildSexpFun(gen.env, sym.name, funcargs, args[2:], orig, true)
 	if err != nil {
 		return err
 	}
 
+	// functions made while the body runs find the globals through it.
+	globals := NewEmptyClosing(sym.name, gen.env)
+	globals.Stack.Push(gen.env.linearstack.elements[0])
+	sfun.SetClosing(globals)
+	sfun.parent = gen.env.mainfunc
+
 	gen.env.macros[sym.number] = sfun
 	gen.AddInstruction(PushInstr{SexpNull})
 
@@ -633,6 +644,10 @@ func (gen *Generator) GenerateCallBySymbol(sym *SexpSymbol, args []Sexp, orig Se
 	case "macexpand":
 		return gen.GenerateMacexpand(args)
 	case "syntaxQuote":
+		if len(args) == 1 && isTemplateForm(args[0], "unquote-splicing") {
+			// one value is expected here, a splice leaves any number of them.
+			return fmt.Errorf("~@ outside of a list, array or hash: nothing to splice into")
+		}
 		return gen.GenerateSyntaxQuote(args)
 	case "include":
 		return gen.GenerateInclude(args)
@@ -1186,7 +1201,7 @@ func (gen *Generator) GenerateSyntaxQuote(args []Sexp) error {
 		return gen.generateSyntaxQuoteArray(aaa)
 	case *SexpPair:
 		if !IsList(arg) {
-			break
+			return gen.generateSyntaxQuoteDotted(aaa)
 		}
 		return gen.generateSyntaxQuoteList(arg)
 	case *SexpHash:
@@ -1240,6 +1255,13 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 		}
 	}
 
+	// the reader makes (a unquote b) of (a \ ~b)
+	for tail := arg.(*SexpPair).Tail; tail != SexpNull; tail = tail.(*SexpPair).Tail {
+		if isTemplateForm(tail, "unquote") {
+			return gen.generateSyntaxQuoteDotted(arg.(*SexpPair))
+		}
+	}
+
 	gen.AddInstruction(PushInstr{SexpMarker})
 
 	for _, expr := range quotebody {
@@ -1254,6 +1276,44 @@ func (gen *Generator) generateSyntaxQuoteList(arg Sexp) error {
 	return nil
 }
 
+// isTemplateForm tells whether arg is the list (name expr)
+// that the reader makes of ~expr and ~@expr.
+func isTemplateForm(arg Sexp, name string) bool {
+	pair, isPair := arg.(*SexpPair)
+	if !isPair {
+		return false
+	}
+	sym, isSym := pair.Head.(*SexpSymbol)
+	if !isSym || sym.name != name {
+		return false
+	}
+	last, isPair := pair.Tail.(*SexpPair)
+	return isPair && last.Tail == SexpNull
+}
+
+// generateSyntaxQuoteDotted compiles the template (a b \ c), with
+// a tail c that is no list; or is an unquoted expression.
+func (gen *Generator) generateSyntaxQuoteDotted(arg *SexpPair) error {
+	gen.AddInstruction(PushInstr{SexpMarker})
+	for {
+		err := gen.GenerateSyntaxQuote([]Sexp{arg.Head})
+		if err != nil {
+			return err
+		}
+		rest, isPair := arg.Tail.(*SexpPair)
+		if !isPair || isTemplateForm(rest, "unquote") {
+			break
+		}
+		arg = rest
+	}
+	err := gen.GenerateSyntaxQuote([]Sexp{arg.Tail})
+	if err != nil {
+		return err
+	}
+	gen.AddInstruction(SquashDottedInstr(0))
+	return nil
+}
+
 func (gen *Generator) generateSyntaxQuoteArray(arg Sexp) error {
 	//VPrintf("\n GenerateSyntaxQuoteArray() called with arg='%#v'\n", arg)
 
@@ -1294,15 +1354,13 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 	n := HashCountKeys(hash)
 	gen.AddInstruction(PushInstr{SexpMarker})
 	for i := 0; i < n; i++ {
-		// must reverse order here to preserve order on rebuild
-		key := hash.KeyOrder[(n-i)-1]
+		key := hash.KeyOrder[i]
 		val, err := hash.HashGet(nil, key)
 		if err != nil {
 			return err
 		}
-		// value first, since value comes second on rebuild
 		gen.AddInstruction(PushInstr{SexpMarker})
-		err = gen.GenerateSyntaxQuote([]Sexp{val})
+		err = gen.GenerateSyntaxQuote([]Sexp{key})
 		if err != nil {
 			return err
 		}
@@ -1310,7 +1368,7 @@ func (gen *Generator) generateSyntaxQuoteHash(arg Sexp) error {
 		gen.AddInstruction(ExplodeInstr(0))
 
 		gen.AddInstruction(PushInstr{SexpMarker})
-		err = gen.GenerateSyntaxQuote([]Sexp{key})
+		err = gen.GenerateSyntaxQuote([]Sexp{val})
 		if err != nil {
 			return err
 		}
diff --git a/zygo/vm.go b/zygo/vm.go
index 7ff0812..ac5aa5a 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -154,6 +154,25 @@ func (p PopStackPutEnvInstr) Execute(env *Zlisp) error {
 
 }
 
+// BindFormInstr binds a parameter of a macro to the form it is given,
+// as it is written: unlike PopStackPutEnvInstr, it evaluates no a.b
+type BindFormInstr struct {
+	sym *SexpSymbol
+}
+
+func (p BindFormInstr) InstrString() string {
+	return fmt.Sprintf("bindForm %s", p.sym.name)
+}
+
+func (p BindFormInstr) Execute(env *Zlisp) error {
+	expr, err := env.datastack.PopExpr()
+	if err != nil {
+		return err
+	}
+	env.pc++
+	return env.LexicalBindSymbol(p.sym, expr)
+}
+
 // Update takes top of datastack and
 // assigns it to sym when sym is found
 // already in the current scope or
@@ -531,6 +550,34 @@ func (s SquashInstr) Execute(env *Zlisp) error {
 	return nil
 }
 
+// SquashDottedInstr is SquashInstr with the tail
+// of the list on top of the stack.
+type SquashDottedInstr int
+
+func (s SquashDottedInstr) InstrString() string {
+	return "squash dotted"
+}
+
+func (s SquashDottedInstr) Execute(env *Zlisp) error {
+	list, err := env.datastack.PopExpr()
+	if err != nil {
+		return err
+	}
+	for {
+		expr, err := env.datastack.PopExpr()
+		if err != nil {
+			return err
+		}
+		if expr == SexpMarker {
+			break
+		}
+		list = Cons(expr, list)
+	}
+	env.datastack.PushExpr(list)
+	env.pc++
+	return nil
+}
+
 // bind these symbols to the SexpPair list found at
 // datastack top.
 type BindlistInstr struct {
@@ -620,6 +667,10 @@ func (s HashizeInstr) Execute(env *Zlisp) error {
 		}
 		a = append(a, expr)
 	}
+	// the last one is on top of the stack
+	for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
+		a[i], a[j] = a[j], a[i]
+	}
 	hash, err := MakeHash(a, s.TypeName, env)
 	if err != nil {
 		return err
-- 
2.43.0


From ed1381832b643fbd8d56a80be32ef8e5650957ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 48/51] fix: output and error texts show values, not their
 addresses

%#v and %p put addresses into messages, printed packages and togo's
result, so that two runs of one program never gave the same output.
---
 zygo/builders.go    |  2 +-
 zygo/environment.go |  6 ++--
 zygo/functions.go   | 14 +++++----
 zygo/hashutils.go   |  2 +-
 zygo/jsonmsgp.go    | 73 ++++++++++++++++++++++++++++++++++++++-------
 zygo/pratt.go       |  6 ++--
 zygo/repl.go        |  2 +-
 zygo/scopes.go      |  2 +-
 zygo/stack.go       |  2 +-
 zygo/system.go      |  6 ++--
 zygo/typeutils.go   |  2 +-
 zygo/vm.go          |  2 +-
 12 files changed, 87 insertions(+), 32 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index ca35af0..c43dcdf 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -611,7 +611,7 @@ func baseConstruct(env *Zlisp, f *RegisteredType, nargs int) (Sexp, error) {
 		}
 		return mybool, nil
 	default:
-		return SexpNull, fmt.Errorf("unhandled case in baseConstruct, arg = %#v/type=%T", arg, arg)
+		return SexpNull, fmt.Errorf("unhandled case in baseConstruct, arg = %s/type=%T", arg.SexpString(nil), arg)
 	}
 	//return SexpNull, fmt.Errorf("unhandled no-arg case in baseConstruct, v has type=%T", v)
 }
diff --git a/zygo/environment.go b/zygo/environment.go
index 8167820..128af70 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -574,7 +574,7 @@ func (env *Zlisp) CallResolved(funcobj Sexp, callName string, args []Sexp) error
 	if funcobj == nil {
 		return fmt.Errorf("not a function on top of datastack: <nil>")
 	}
-	return fmt.Errorf("not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
+	return fmt.Errorf("not a function on top of datastack: '%T/%s'", funcobj, funcobj.SexpString(nil))
 }
 
 // checkCall runs the pre-call hooks, checks the nargs arguments on the
@@ -797,7 +797,7 @@ func (env *Zlisp) ParseFile(file string) ([]Sexp, error) {
 	env.parser.NewInput(bufio.NewReader(in))
 	exp, err = env.parser.ParseTokens()
 	if err != nil {
-		return nil, fmt.Errorf("Error on line %d: %v (ParseFile err = '%#v')\n", env.parser.Linenum(), err, err)
+		return nil, fmt.Errorf("Error on line %d: %v\n", env.parser.Linenum(), err)
 	}
 
 	in.Close()
@@ -809,7 +809,7 @@ func (env *Zlisp) LoadStream(stream io.RuneScanner) error {
 	env.parser.ResetAddNewInput(stream)
 	expressions, err := env.parser.ParseTokens()
 	if err != nil {
-		return fmt.Errorf("Error on line %d: %v (LoadStream err='%#v')\n", env.parser.Linenum(), err, err)
+		return fmt.Errorf("Error on line %d: %v\n", env.parser.Linenum(), err)
 	}
 	return env.LoadExpressions(expressions)
 }
diff --git a/zygo/functions.go b/zygo/functions.go
index 9370c36..e422bff 100644
--- a/zygo/functions.go
+++ b/zygo/functions.go
@@ -272,7 +272,7 @@ func ArrayAccessFunction(name string) ZlispUserFunction {
 			case *SexpInt:
 				i = int(j.Val)
 			default:
-				return SexpNull, fmt.Errorf("Second argument of aget could not be evaluated to integer; got j = '%#v'/type = %T", j, j)
+				return SexpNull, fmt.Errorf("Second argument of aget could not be evaluated to integer; got j = '%s'/type = %T", j.SexpString(nil), j)
 			}
 		}
 
@@ -834,8 +834,10 @@ func PrintFunction(name string) ZlispUserFunction {
 						ar[i] = x.S
 					case *SexpTime:
 						ar[i] = x.Tm.In(NYC)
+					case *SexpUint64:
+						ar[i] = x.Val
 					default:
-						ar[i] = args[i+1]
+						ar[i] = x.SexpString(nil)
 					}
 				}
 				if name == "printf" {
@@ -927,7 +929,7 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	case *SexpFunction:
 		fun = e
 	default:
-		return SexpNull, fmt.Errorf("first argument must be function, but we had %T / val = '%#v'", e, e)
+		return SexpNull, fmt.Errorf("first argument must be function, but we had %T / val = '%s'", e, e.SexpString(nil))
 	}
 
 	switch e := args[1].(type) {
@@ -937,7 +939,7 @@ func MapFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		x, err := MapList(env, fun, e)
 		return x, err
 	default:
-		return SexpNull, fmt.Errorf("second argument must be array or list; we saw %T / val = %#v", e, e)
+		return SexpNull, fmt.Errorf("second argument must be array or list; we saw %T / val = %s", e, e.SexpString(nil))
 	}
 }
 
@@ -1302,8 +1304,8 @@ func threadingHelper(env *Zlisp, hash *SexpHash, args []Sexp) (Sexp, error) {
 		h, isHash := field.(*SexpHash)
 		if !isHash {
 			return SexpNull, fmt.Errorf("request for field '%s' was "+
-				"not on a hash or defmap; instead type %T with value '%#v'",
-				args[1].SexpString(nil), field, field)
+				"not on a hash or defmap; instead type %T with value '%s'",
+				args[1].SexpString(nil), field, field.SexpString(nil))
 		}
 		return threadingHelper(env, h, args[1:])
 	}
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index de0e52c..9010d4e 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -492,7 +492,7 @@ func GoMethodListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 	h, isHash := args[0].(*SexpHash)
 	if !isHash {
-		return SexpNull, fmt.Errorf("hash/record required, but saw type %T/val=%#v", args[0], args[0])
+		return SexpNull, fmt.Errorf("hash/record required, but saw type %T/val=%s", args[0], args[0].SexpString(nil))
 	}
 	if h.NumMethod != -1 {
 		// use cached results
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 43c068a..e0547fa 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -562,9 +562,9 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		nm := fmt.Sprintf("%T", val)
 		rt := env.LookupType(nm)
 		if rt == nil {
-			fmt.Printf("unknown type '%s' in type switch, val = %#v.  type = %T.\n", nm, val, val)
+			fmt.Printf("unknown type '%s' in type switch, val = %s.  type = %T.\n", nm, goText(reflect.ValueOf(val), map[uintptr]bool{}), val)
 		} else {
-			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %#v.  type = %T. TODO: make a record for it.\n", nm, val, val)
+			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %s.  type = %T. TODO: make a record for it.\n", nm, goText(reflect.ValueOf(val), map[uintptr]bool{}), val)
 		}
 		return SexpNull
 	}
@@ -572,6 +572,61 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 	return s
 }
 
+// goText is the text "%#v" prints, but shows what pointers
+// point to, where "%#v" shows the address.
+func goText(v reflect.Value, seen map[uintptr]bool) string {
+	if !v.IsValid() {
+		return "nil"
+	}
+	if v.CanInterface() {
+		if g, ok := v.Interface().(fmt.GoStringer); ok && !(v.Kind() == reflect.Ptr && v.IsNil()) {
+			return g.GoString()
+		}
+	}
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan:
+		if v.IsNil() {
+			if v.Kind() == reflect.Slice {
+				return fmt.Sprintf("%v(nil)", v.Type())
+			}
+			return fmt.Sprintf("(%v)(nil)", v.Type())
+		}
+	}
+	switch v.Kind() {
+	case reflect.Ptr:
+		if seen[v.Pointer()] {
+			return fmt.Sprintf("(%v)(...)", v.Type())
+		}
+		seen[v.Pointer()] = true
+		defer delete(seen, v.Pointer())
+		return "&" + goText(v.Elem(), seen)
+	case reflect.Interface:
+		return goText(v.Elem(), seen)
+	case reflect.Struct:
+		var parts []string
+		for i := 0; i < v.NumField(); i++ {
+			parts = append(parts, v.Type().Field(i).Name+":"+goText(v.Field(i), seen))
+		}
+		return v.Type().String() + "{" + strings.Join(parts, ", ") + "}"
+	case reflect.Slice, reflect.Array:
+		var parts []string
+		for i := 0; i < v.Len(); i++ {
+			parts = append(parts, goText(v.Index(i), seen))
+		}
+		return v.Type().String() + "{" + strings.Join(parts, ", ") + "}"
+	case reflect.Map:
+		var parts []string
+		for _, k := range v.MapKeys() {
+			parts = append(parts, goText(k, seen)+":"+goText(v.MapIndex(k), seen))
+		}
+		sort.Strings(parts)
+		return v.Type().String() + "{" + strings.Join(parts, ", ") + "}"
+	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
+		return fmt.Sprintf("(%v)(...)", v.Type())
+	}
+	return fmt.Sprintf("%#v", v)
+}
+
 //msgp:ignore mapsorter KiSlice
 
 type mapsorter struct {
@@ -703,7 +758,7 @@ func SexpToGo(sexp Sexp, env *Zlisp, dedup map[*SexpHash]interface{}) (result in
 	case *SexpBool:
 		return e.Val
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", e, e)
+		fmt.Printf("\n error: unknown type: %T in '%s'\n", e, e.SexpString(nil))
 	}
 	return nil
 }
@@ -763,7 +818,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		asHash.GoShadowStruct = newStruct
 		asHash.GoShadowStructVa = reflect.ValueOf(newStruct)
 		asHash.ShadowSet = true
-		return &SexpStr{S: fmt.Sprintf("%#v", newStruct)}, nil
+		return &SexpStr{S: goText(reflect.ValueOf(newStruct), map[uintptr]bool{})}, nil
 	}
 
 }
@@ -1070,7 +1125,7 @@ func SexpToGoStructs(
 				}
 				//vv("have reflect.Map: target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v' mapElemTyp='%v' mapElemKind='%v' mapKeyTyp='%v' mapKeyKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind, mapElemTyp, mapElemKind, mapKeyTyp, mapKeyKind)
 			}
-			panic(fmt.Sprintf("not done here yet, target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind))
+			panic(fmt.Sprintf("not done here yet, target has type = '%T'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, targTyp, targKind, targElemTyp, targElemKind))
 
 			// TODO: don't try to translate into a Go struct,
 			// but instead... what? just a map[string]interface{}
@@ -1171,8 +1226,7 @@ func SexpToGoStructs(
 				case *SexpSymbol:
 					recordKey = k.name
 				default:
-					fmt.Printf(" skipping field '%#v' which we don't know how to lookup.", pair.Head)
-					panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%#v'", pair.Head))
+					panic(fmt.Sprintf("unknown fields disallowed: we didn't recognize '%s'", pair.Head.SexpString(nil)))
 					continue
 				}
 				// We've got to match pair.Head to
@@ -1190,8 +1244,7 @@ func SexpToGoStructs(
 					det, found = src.JsonTagMap[upperKey]
 					//vv("upperKey = '%v' from recordKey = '%v'; found=%v; det='%#v'", upperKey, recordKey, found, det)
 					if !found {
-						fmt.Printf(" skipping field '%s' in this hash/which we could not find in the JsonTagMap", recordKey)
-						panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive. src.JstonTagMap: '%#v'", recordKey, src.JsonTagMap))
+						panic(fmt.Sprintf("unknown field '%s' not allowed; could not find in the JsonTagMap. Fieldnames are case sensitive.", recordKey))
 						continue
 					}
 				}
@@ -1248,7 +1301,7 @@ func SexpToGoStructs(
 	case *SexpBool:
 		targVa.Elem().Set(reflect.ValueOf(src.Val))
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", src, src)
+		fmt.Printf("\n error: unknown type: %T in '%s'\n", src, src.SexpString(nil))
 	}
 	return target, nil
 }
diff --git a/zygo/pratt.go b/zygo/pratt.go
index 319bba9..e4cb21e 100644
--- a/zygo/pratt.go
+++ b/zygo/pratt.go
@@ -757,12 +757,12 @@ func InfixArgsToArray(name string, args []Sexp) (*SexpArray, bool, error) {
 				return nil, false, fmt.Errorf("infixExpand expects (infix []) as its argument; instead we saw '%T'", v.Tail)
 			}
 		}
-		return nil, false, fmt.Errorf("InfixBuilder must receive an SexpArray. Saw: name='%v' / args[0]='%#v'", name, args[0])
+		return nil, false, fmt.Errorf("InfixBuilder must receive an SexpArray. Saw: name='%v' / args[0]='%s'", name, args[0].SexpString(nil))
 	case *SexpHash:
 		// an empty basic block {} that turned into an empty hash.
 		return nil, true, nil
 	default:
-		return nil, false, fmt.Errorf("InfixBuilder (default) must receive an SexpArray. Saw: name='%v' / args[0]='%#v'", name, args[0])
+		return nil, false, fmt.Errorf("InfixBuilder (default) must receive an SexpArray. Saw: name='%v' / args[0]='%s'", name, args[0].SexpString(nil))
 	}
 	return arr, false, nil
 }
@@ -1148,7 +1148,7 @@ func (env *Zlisp) LeftBindingPower(sx Sexp) (int, error) {
 		return 0, nil
 	}
 
-	return 0, fmt.Errorf("LeftBindingPower: unhandled sx :%#v", sx)
+	return 0, fmt.Errorf("LeftBindingPower: unhandled sx :%s", sx.SexpString(nil))
 }
 
 func (p *Pratt) ShowCnodeStack() {
diff --git a/zygo/repl.go b/zygo/repl.go
index 3b8f633..b53d37d 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -132,7 +132,7 @@ func (pr *Prompter) getExpressionWithLiner(env *Zlisp, reader *bufio.Reader, noL
 			env.parser.NewInput(bytes.NewBuffer([]byte(nextline + "\n")))
 			continue
 		}
-		return "", nil, fmt.Errorf("Error on line %d: %v (repl err: %#v)\n", env.parser.Linenum(), err, err)
+		return "", nil, fmt.Errorf("Error on line %d: %v\n", env.parser.Linenum(), err)
 	}
 	return strings.Join(lines, "\n"), xs, err
 }
diff --git a/zygo/scopes.go b/zygo/scopes.go
index 0fa26cd..6db8a6b 100644
--- a/zygo/scopes.go
+++ b/zygo/scopes.go
@@ -321,7 +321,7 @@ func (scop *Scope) Show(env *Zlisp, ps *PrintState, label string) (s string, err
 	indent := ps.GetIndent()
 	rep := strings.Repeat(" ", indent)
 	rep4 := strings.Repeat(" ", indent+4)
-	s += fmt.Sprintf("%s %s  %s (%p)\n", rep, label, scop.Name, scop)
+	s += fmt.Sprintf("%s %s  %s\n", rep, label, scop.Name)
 	if scop.IsGlobal && !env.showGlobalScope {
 		s += fmt.Sprintf("%s (global scope - omitting content for brevity)\n", rep4)
 		return
diff --git a/zygo/stack.go b/zygo/stack.go
index d5d15b0..7038bdc 100644
--- a/zygo/stack.go
+++ b/zygo/stack.go
@@ -164,7 +164,7 @@ func (stack *Stack) Show(env *Zlisp, ps *PrintState, label string) (string, erro
 		return notPrinted, nil
 	}
 	if ps.GetSeen(stack) {
-		return fmt.Sprintf("already-saw Stack %p in Show", stack), nil
+		return fmt.Sprintf("already-saw Stack '%s' in Show", stack.Name), nil
 	} else {
 		ps.SetSeen(stack, "Stack in Show")
 	}
diff --git a/zygo/system.go b/zygo/system.go
index d54c0f0..11bdb9f 100644
--- a/zygo/system.go
+++ b/zygo/system.go
@@ -45,7 +45,7 @@ func SystemFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 	flat, err := flattenToWordsHelper(args)
 	if err != nil {
-		return SexpNull, fmt.Errorf("flatten on '%#v' failed with error '%s'", args, err)
+		return SexpNull, fmt.Errorf("flatten on '%s' failed with error '%s'", (&SexpArray{Val: args}).SexpString(nil), err)
 	}
 	if len(flat) == 0 {
 		return SexpNull, WrongNargs
@@ -99,7 +99,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 		case *SexpPair:
 			carry, err := ListToArray(c)
 			if err != nil {
-				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%#v'", err, c, c)
+				return []string{}, fmt.Errorf("tried to convert list of strings to array but failed with error '%s'. Input was type %T / val = '%s'", err, c, c.SexpString(nil))
 			}
 			moreWords, err := flattenToWordsHelper(carry)
 			if err != nil {
@@ -107,7 +107,7 @@ func flattenToWordsHelper(args []Sexp) ([]string, error) {
 			}
 			stringArgs = append(stringArgs, moreWords...)
 		default:
-			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%#v'", c, c)
+			return []string{}, fmt.Errorf("arguments to system must be strings; instead we have %T / val = '%s'", c, c.SexpString(nil))
 		}
 	} // end i over args
 	// INVAR: stringArgs has our flattened list.
diff --git a/zygo/typeutils.go b/zygo/typeutils.go
index 3233692..b19cd57 100644
--- a/zygo/typeutils.go
+++ b/zygo/typeutils.go
@@ -198,7 +198,7 @@ func TypeOf(expr Sexp) *SexpStr {
 	case *SexpDur:
 		v = "time.Duration"
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%#v'\n", e, e)
+		fmt.Printf("\n error: unknown type: %T in '%s'\n", e, e.SexpString(nil))
 	}
 	return &SexpStr{S: v}
 }
diff --git a/zygo/vm.go b/zygo/vm.go
index ac5aa5a..3233a7a 100644
--- a/zygo/vm.go
+++ b/zygo/vm.go
@@ -431,7 +431,7 @@ func (d DispatchInstr) Execute(env *Zlisp) error {
 		_, err := env.CallUserFunction(sxArrayOf, funcobj.SexpString(nil), d.nargs+1)
 		return err
 	}
-	return fmt.Errorf("unbalanced parenthesis in the input? : not a function on top of datastack: '%T/%#v'", funcobj, funcobj)
+	return fmt.Errorf("unbalanced parenthesis in the input? : not a function on top of datastack: '%T/%s'", funcobj, funcobj.SexpString(nil))
 }
 
 type ReturnInstr struct {
-- 
2.43.0


From ea79a31498489c71f938a53910853651f4530538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 49/51] fix: error texts of raw, raw64, source, togo and others
 show values, not addresses or times

---
 zygo/bsave.go       | 4 ++--
 zygo/environment.go | 4 ++--
 zygo/generator.go   | 2 +-
 zygo/hashutils.go   | 2 +-
 zygo/jsonmsgp.go    | 2 +-
 zygo/rawutils.go    | 6 +++---
 zygo/slurp.go       | 4 ++--
 zygo/source.go      | 2 +-
 8 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/zygo/bsave.go b/zygo/bsave.go
index a50af2c..f46c65c 100644
--- a/zygo/bsave.go
+++ b/zygo/bsave.go
@@ -55,7 +55,7 @@ func WriteShadowGreenpackToFileFunction(name string) ZlispUserFunction {
 		case *SexpStr:
 			fn = fna.S
 		default:
-			return SexpNull, fmt.Errorf("error: %s requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", name, args[1], args[1])
+			return SexpNull, fmt.Errorf("error: %s requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %s", name, args[1], args[1].SexpString(nil))
 		}
 
 		// don't overwrite existing file
@@ -111,7 +111,7 @@ func ReadGreenpackFromFileFunction(env *Zlisp, name string, args []Sexp) (Sexp,
 	case *SexpStr:
 		fn = fna.S
 	default:
-		return SexpNull, fmt.Errorf("%s requires a string path to read. we got type %T / value = %v", name, args[0], args[0])
+		return SexpNull, fmt.Errorf("%s requires a string path to read. we got type %T / value = %s", name, args[0], args[0].SexpString(nil))
 	}
 
 	if !FileExists(string(fn)) {
diff --git a/zygo/environment.go b/zygo/environment.go
index 128af70..e9d4669 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -912,7 +912,7 @@ func (env *Zlisp) DumpEnvironment() {
 	if !env.curfunc.user {
 		DumpFunction(env.curfunc.fun, env.pc)
 	}
-	fmt.Printf("DataStack (%p): (length %d)\n", env.datastack, env.datastack.Size())
+	fmt.Printf("DataStack: (length %d)\n", env.datastack.Size())
 	env.datastack.PrintStack()
 	fmt.Printf("Linear stack: (length %d)\n", env.linearstack.Size())
 	//env.linearstack.PrintScopeStack()
@@ -1070,7 +1070,7 @@ func (env *Zlisp) showStackHelper(stack *Stack, name string) {
 	if n < 0 {
 		note = "(empty)"
 	}
-	fmt.Printf(" ========  env(%p).%s is %v deep: %s\n", env, name, n+1, note)
+	fmt.Printf(" ========  env.%s is %v deep: %s\n", name, n+1, note)
 	s := ""
 	for i := 0; i <= n; i++ {
 		ele, err := stack.Get(n - i)
diff --git a/zygo/generator.go b/zygo/generator.go
index 700dd60..ccb6353 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -597,7 +597,7 @@ func (gen *Generator) GenerateInclude(args []Sexp) error {
 			exps = append(exps, fileExps...)
 
 		default:
-			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %v", item, item)
+			return fmt.Errorf("include: Expected `string`, `list`, `array` given type %T val %s", item, item.SexpString(nil))
 		}
 
 		return nil
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 9010d4e..398b9f1 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -612,7 +612,7 @@ func GoFieldListFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	}
 	h, isHash := args[0].(*SexpHash)
 	if !isHash {
-		return SexpNull, fmt.Errorf("hash/record required, but saw %T/val=%v", args[0], args[0])
+		return SexpNull, fmt.Errorf("hash/record required, but saw %T/val=%s", args[0], args[0].SexpString(nil))
 	}
 
 	if !h.GoStructFactory.hasShadowStruct {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index e0547fa..5bf4d23 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -777,7 +777,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 	case *SexpReflect:
 		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see SexpReflect '%[1]T'", asHash.Val.Interface())
 	default:
-		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%[1]T'/val=%#[1]v", arg)
+		return SexpNull, fmt.Errorf("ToGoFunction (togo) error: value must be a hash or defmap; we see '%T'/val=%s", arg, arg.SexpString(nil))
 	case *SexpHash:
 		tn := asHash.TypeName
 		//vv("ToGo: SexpHash for tn='%s', shadowSet='%v'", tn, asHash.ShadowSet)
diff --git a/zygo/rawutils.go b/zygo/rawutils.go
index 9adc714..e6f21fb 100644
--- a/zygo/rawutils.go
+++ b/zygo/rawutils.go
@@ -180,11 +180,11 @@ func Raw64Builder(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 				case *SexpStr:
 					joined += extractRawHelper(tt.S)
 				default:
-					vv("don't know what to do with rhs of symbol %T/val=%v", rhs, rhs)
+					return SexpNull, fmt.Errorf("raw64 takes only strings. We see %T: '%s'", rhs, rhs.SexpString(nil))
 				}
 
 			default:
-				vv("don't know what to do with %T/val=%v", x, x)
+				return SexpNull, fmt.Errorf("raw64 takes only strings. We see %T: '%s'", x, x.SexpString(nil))
 			}
 		}
 	}
@@ -218,7 +218,7 @@ func MakeRaw(args []Sexp) (*SexpRaw, error) {
 			return e, nil
 		default:
 			return &SexpRaw{},
-				fmt.Errorf("raw takes only string arguments. We see %T: '%v'", e, e)
+				fmt.Errorf("raw takes only string arguments. We see %T: '%s'", e, e.SexpString(nil))
 		}
 	}
 	return &SexpRaw{Val: raw}, nil
diff --git a/zygo/slurp.go b/zygo/slurp.go
index 322af1c..cbb77ed 100644
--- a/zygo/slurp.go
+++ b/zygo/slurp.go
@@ -18,7 +18,7 @@ func SlurpfileFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	case *SexpStr:
 		fn = fna.S
 	default:
-		return SexpNull, fmt.Errorf("slurp requires a string path to read. we got type %T / value = %v", args[0], args[0])
+		return SexpNull, fmt.Errorf("slurp requires a string path to read. we got type %T / value = %s", args[0], args[0].SexpString(nil))
 	}
 
 	if !FileExists(string(fn)) {
@@ -75,7 +75,7 @@ func WriteToFileFunction(name string) ZlispUserFunction {
 		case *SexpStr:
 			fn = fna.S
 		default:
-			return SexpNull, fmt.Errorf("owrite requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %v", args[1], args[1])
+			return SexpNull, fmt.Errorf("owrite requires a string (SexpStr) path to write to as the second argument. we got type %T / value = %s", args[1], args[1].SexpString(nil))
 		}
 
 		if name == "write" || name == "writef" || name == "save" {
diff --git a/zygo/source.go b/zygo/source.go
index 0a4c9d3..775ebad 100644
--- a/zygo/source.go
+++ b/zygo/source.go
@@ -156,7 +156,7 @@ func (env *Zlisp) sourceItem(item Sexp) error {
 		}
 
 	default:
-		return fmt.Errorf("source: Expected `string`, `list`, `array`. Instead found type %T val %v", item, item)
+		return fmt.Errorf("source: Expected `string`, `list`, `array`. Instead found type %T val %s", item, item.SexpString(nil))
 	}
 
 	return nil
-- 
2.43.0


From a54595087d85fbe224cbbd2e63364a8211c25521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:36 +0000
Subject: [PATCH 50/51] fix: a sandboxed interpreter has no sys, import,
 include or req

They reached files and processes: sys and import were installed by the
standard setup, include is a special form that needs no binding.
---
 zygo/builders.go    | 8 ++++++--
 zygo/environment.go | 9 ++++++++-
 zygo/generator.go   | 3 +++
 zygo/repl.go        | 8 +++++---
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/zygo/builders.go b/zygo/builders.go
index c43dcdf..0568635 100644
--- a/zygo/builders.go
+++ b/zygo/builders.go
@@ -29,7 +29,9 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.ImportMinimalBuilder()
 	env.AddBuilder("infixExpand", InfixBuilder)
 	env.AddBuilder("infix", InfixBuilder)
-	env.AddBuilder("sys", SystemBuilder)
+	if !env.sandboxed {
+		env.AddBuilder("sys", SystemBuilder)
+	}
 	env.AddBuilder("struct", StructBuilder)
 	env.AddBuilder("func", FuncBuilder)
 	env.AddBuilder("method", FuncBuilder)
@@ -40,7 +42,9 @@ func (env *Zlisp) ImportPackageBuilder() {
 	env.AddBuilder("expectError", ExpectErrorBuilder)
 	//	env.AddBuilder("&", AddressOfBuilder)
 
-	env.AddBuilder("import", ImportPackageBuilder)
+	if !env.sandboxed {
+		env.AddBuilder("import", ImportPackageBuilder)
+	}
 
 	env.AddFunction("sliceOf", SliceOfFunction)
 	env.AddFunction("ptr", PointerToFunction)
diff --git a/zygo/environment.go b/zygo/environment.go
index e9d4669..207fea8 100644
--- a/zygo/environment.go
+++ b/zygo/environment.go
@@ -27,6 +27,9 @@ type Zlisp struct {
 	// loopstack: let break and continue find the nearest enclosing loop.
 	loopstack *Stack
 
+	// sandboxed interpreters offer nothing that reaches the outside world.
+	sandboxed bool
+
 	// types declared by the scripts of this interpreter family.
 	types *typeTable
 
@@ -121,7 +124,9 @@ func (env *Zlisp) Close() error {
 // NewZlispSandbox returns a new *Zlisp instance that does not allow the
 // user to get to the outside world
 func NewZlispSandbox() *Zlisp {
-	return NewZlispWithFuncs(SandboxSafeFunctions())
+	env := NewZlispWithFuncs(SandboxSafeFunctions())
+	env.sandboxed = true
+	return env
 }
 
 // NewZlispWithFuncs returns a new *Zlisp instance with access to only the given builtin functions
@@ -209,6 +214,7 @@ func (env *Zlisp) Clone() *Zlisp {
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
+	dupenv.sandboxed = env.sandboxed
 	dupenv.linearstack.Push(env.linearstack.elements[0])
 
 	dupenv.mainfunc = env.MakeFunction("__main", 0, false,
@@ -244,6 +250,7 @@ func (env *Zlisp) Duplicate() *Zlisp {
 	dupenv.before = env.before
 	dupenv.after = env.after
 	dupenv.infixOps = env.infixOps
+	dupenv.sandboxed = env.sandboxed
 
 	dupenv.linearstack.Push(env.linearstack.elements[0])
 
diff --git a/zygo/generator.go b/zygo/generator.go
index ccb6353..efbd308 100644
--- a/zygo/generator.go
+++ b/zygo/generator.go
@@ -561,6 +561,9 @@ func (gen *Generator) GenerateAssert(args []Sexp) error {
 }
 
 func (gen *Generator) GenerateInclude(args []Sexp) error {
+	if gen.env.sandboxed {
+		return fmt.Errorf("include is not available in a sandbox")
+	}
 	if len(args) < 1 {
 		return WrongNargs
 	}
diff --git a/zygo/repl.go b/zygo/repl.go
index b53d37d..f6038a2 100644
--- a/zygo/repl.go
+++ b/zygo/repl.go
@@ -411,9 +411,11 @@ func (env *Zlisp) StandardSetup() {
 	_, err = env.EvalString(rangeMacro)
 	panicOn(err)
 
-	reqMacro := `(defmac req [a] ^(source (sym2str (quote ~a))))`
-	_, err = env.EvalString(reqMacro)
-	panicOn(err)
+	if !env.sandboxed {
+		reqMacro := `(defmac req [a] ^(source (sym2str (quote ~a))))`
+		_, err = env.EvalString(reqMacro)
+		panicOn(err)
+	}
 
 	incrMacro := `(defmac ++ [a] ^(set ~a (+ ~a 1)))`
 	_, err = env.EvalString(incrMacro)
-- 
2.43.0


From 466636bc84bc8c6639a311cb4dc4dc0831d8752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 51/51] fix: records convert to Go structs and back without
 loss

Numbers that do not fit are errors, generic maps, arrays, pointers to
scalars and embedded structs convert, cycles and sharing survive in both
directions, arguments of one method call share their values, and a failed
conversion leaves no half-filled shadow behind.
---
 zygo/callgo.go    |  32 +---
 zygo/gotypereg.go |   8 +-
 zygo/hashutils.go | 296 ++++++++++++++++++++------------
 zygo/jsonmsgp.go  | 418 +++++++++++++++++++++++++++-------------------
 4 files changed, 446 insertions(+), 308 deletions(-)

diff --git a/zygo/callgo.go b/zygo/callgo.go
index 91cb608..6e5fdc1 100644
--- a/zygo/callgo.go
+++ b/zygo/callgo.go
@@ -92,33 +92,27 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 		}
 
 		var va reflect.Value
+		// a record in two arguments is one Go object.
+		dedup := make(map[*SexpHash]interface{})
 		for i := 2; i < narg; i++ {
 			typ := method.Type.In(i - 1)
 			pdepth := PointerDepth(typ)
 			// we only handle 0 and 1 for now
 			//Q("pdepth = %v\n", pdepth)
 			switch pdepth {
-			case 0:
+			case 0, 1:
 				va = reflect.New(typ)
-			case 1:
-				// handle the common single pointer to struct case
-				va = reflect.New(typ.Elem())
 			default:
 				return SexpNull, fmt.Errorf("error converting %d-th argument to "+
 					"Go: we don't handle double pointers", i-2)
 			}
 			//Q("converting to go '%#v' into -> %#v\n", args[i], va.Interface())
-			iface, err := SexpToGoStructs(args[i], va.Interface(), env, nil, 0, va.Interface())
+			iface, err := SexpToGoStructs(args[i], va.Interface(), env, dedup, 0, va.Interface())
 			if err != nil {
 				return SexpNull, fmt.Errorf("error converting %d-th "+
 					"argument to Go: '%s'", i-2, err)
 			}
-			switch pdepth {
-			case 0:
-				inputVa = append(inputVa, reflect.ValueOf(iface).Elem())
-			case 1:
-				inputVa = append(inputVa, reflect.ValueOf(iface))
-			}
+			inputVa = append(inputVa, reflect.ValueOf(iface).Elem())
 			//Q("\n allocated new %T/val=%#v /i=%#v\n", va, va, va.Interface())
 		}
 
@@ -135,6 +129,7 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 
 		nout := len(out)
 		r := make([]Sexp, 0)
+		back := &goReader{env: env}
 		for i := 0; i < nout; i++ {
 			f := out[i].Interface()
 			switch e := f.(type) {
@@ -155,22 +150,11 @@ func CallGoMethodFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 			case rune:
 				r = append(r, &SexpChar{Val: e})
 			default:
-				// consult the type registry
-				rt := GoStructRegistry.forGoType(out[i].Type())
-				if rt == nil {
-					r = append(r, &SexpReflect{Val: out[i]})
-					break
-				}
-				retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
-				if err != nil {
-					return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-						rt.RegisteredName, err)
-				}
-				err = retHash.FillHashFromShadow(env, f)
+				sx, err := back.sexp(reflect.ValueOf(f))
 				if err != nil {
 					return SexpNull, err
 				}
-				r = append(r, retHash)
+				r = append(r, sx)
 			}
 		}
 		return env.NewSexpArray(r), nil
diff --git a/zygo/gotypereg.go b/zygo/gotypereg.go
index e2d131c..1c761d9 100644
--- a/zygo/gotypereg.go
+++ b/zygo/gotypereg.go
@@ -139,11 +139,11 @@ func (r *GoStructRegistryType) Lookup(name string) *RegisteredType {
 	return r.Registry[name]
 }
 
-// forGoType returns the registered type for Go values of type t, or
-// nil. The earliest registration wins.
-func (r *GoStructRegistryType) forGoType(t reflect.Type) *RegisteredType {
+// forGoStruct returns the record type that is registered for Go structs
+// of type t, which is a pointer type, or nil. The earliest one wins.
+func (r *GoStructRegistryType) forGoStruct(t reflect.Type) *RegisteredType {
 	for _, name := range ListRegisteredTypes {
-		if e := r.Registry[name]; e != nil && e.TypeCache != nil && e.TypeCache == t {
+		if e := r.Registry[name]; e != nil && e.hasShadowStruct && e.TypeCache == t && t.Elem().Kind() == reflect.Struct {
 			return e
 		}
 	}
diff --git a/zygo/hashutils.go b/zygo/hashutils.go
index 398b9f1..915c0e2 100644
--- a/zygo/hashutils.go
+++ b/zygo/hashutils.go
@@ -4,8 +4,12 @@ import (
 	"errors"
 	"fmt"
 	"hash/fnv"
+	"math"
 	"reflect"
+	"sort"
 	"strings"
+	"time"
+	"unsafe"
 )
 
 var NoAttachedGoStruct = fmt.Errorf("hash has no attach Go struct")
@@ -584,12 +588,14 @@ func fillJsonMap(json2ptr *map[string]*HashFieldDet, fx *[]Sexp, fl *[]reflect.S
 			FieldName:    fld.Name,
 			FieldJsonTag: fld.Name, // fallback. changed below if json tag available.
 		}
-		jsonTag := fld.Tag.Get("json")
-		if jsonTag != "" {
+		jsonTag, _, _ := strings.Cut(fld.Tag.Get("json"), ",")
+		if jsonTag != "" && jsonTag != "-" {
 			det.FieldJsonTag = jsonTag
-			(*json2ptr)[jsonTag] = det
-		} else {
-			(*json2ptr)[fld.Name] = det
+		}
+		// as in Go, an embedded field gives way to the one that embeds it.
+		other, found := (*json2ptr)[det.FieldJsonTag]
+		if !found || len(other.EmbedPath) > len(embedPath) {
+			(*json2ptr)[det.FieldJsonTag] = det
 		}
 		*detOrder = append(*detOrder, det)
 
@@ -599,7 +605,7 @@ func fillJsonMap(json2ptr *map[string]*HashFieldDet, fx *[]Sexp, fl *[]reflect.S
 		epath[len(embedPath)] = EmbedPath{ChildName: fld.Name, ChildFieldNum: i}
 		det.EmbedPath = epath
 
-		if fld.Anonymous {
+		if fld.Anonymous && fld.Type.Kind() == reflect.Struct && fld.Type != goTimeType {
 			// track how to get at embedded struct fields
 			fillJsonMap(json2ptr, fx, fl, det.EmbedPath, fld.Type, detOrder)
 		}
@@ -659,23 +665,64 @@ func GenericHpairFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 }
 
 func (h *SexpHash) FillHashFromShadow(env *Zlisp, src interface{}) error {
+	va := reflect.ValueOf(src)
+	g := &goReader{env: env, seen: map[goObject]Sexp{{va.Pointer(), va.Type()}: h}}
+	return g.fillHash(h, va)
+}
+
+// goReader translates Go -> Sexp. A Go object that it meets
+// again becomes the Sexp that it became the first time.
+type goReader struct {
+	env   *Zlisp
+	seen  map[goObject]Sexp
+	depth int
+}
+
+type goObject struct {
+	ptr uintptr
+	typ reflect.Type
+}
+
+var goTimeType = reflect.TypeOf(time.Time{})
+
+// fillHash sets the fields of h to those of the struct that src points to.
+func (g *goReader) fillHash(h *SexpHash, src reflect.Value) error {
 	//Q("in FillHashFromShadow, with src = %#v", src)
-	h.GoShadowStruct = src
+	h.GoShadowStruct = src.Interface()
+	h.GoShadowStructVa = src
 	h.ShadowSet = true
-	vaSrc := reflect.ValueOf(src).Elem()
+	vaSrc := src.Elem()
 
 	for i, det := range h.DetOrder {
 		_ = i
 		//Q("\n looking at det for %s; %v-th entry in h.DetOrder\n", det.FieldJsonTag, i)
-		goField := vaSrc.Field(det.FieldNum)
-		val, err := fillHashHelper(goField.Interface(), 0, env, false)
+		if h.JsonTagMap[det.FieldJsonTag] != det {
+			continue // not reachable under that name
+		}
+		goField := vaSrc
+		for _, p := range det.EmbedPath {
+			goField = goField.Field(p.ChildFieldNum)
+		}
+		if det.StructField.Anonymous && goField.Kind() == reflect.Struct {
+			if goField.NumField() > 0 && goField.Type() != goTimeType {
+				continue // its fields follow
+			}
+		}
+		if !goField.CanInterface() {
+			goField = reflect.NewAt(goField.Type(), unsafe.Pointer(goField.UnsafeAddr())).Elem()
+		}
+		var val Sexp = SexpNull
+		var err error
+		if goField.Type() != goTimeType {
+			val, err = g.sexp(goField)
+		}
 		if err != nil {
 			//Q("got err='%s' back from fillHashhelper", err)
 			return fmt.Errorf("error on GoToSexp for field '%s': '%s'",
 				det.FieldJsonTag, err)
 		}
 		//Q("got err==nil back from fillHashhelper; key=%#v, val=%#v", det.FieldJsonTag, val)
-		key := env.MakeSymbol(det.FieldJsonTag)
+		key := g.env.MakeSymbol(det.FieldJsonTag)
 		err = h.HashSet(key, val)
 		if err != nil {
 			return fmt.Errorf("error on HashSet for key '%s': '%s'", key.SexpString(nil), err)
@@ -684,120 +731,161 @@ func (h *SexpHash) FillHashFromShadow(env *Zlisp, src interface{}) error {
 	return nil
 }
 
-// translate Go -> Sexp, assuming hard *T{} struct pointers
-// for all Go structs
-func fillHashHelper(r interface{}, depth int, env *Zlisp, preferSym bool) (Sexp, error) {
-	//Q("fillHashHelper() at depth %d, decoded type is %T\n", depth, r)
+// record makes a record of the struct that ptr points to, or
+// returns nil when no record type is registered for it.
+func (g *goReader) record(ptr reflect.Value) (Sexp, error) {
+	// consult the type registry upfront
+	rt := GoStructRegistry.forGoStruct(ptr.Type())
+	if rt == nil {
+		return nil, nil
+	}
+	retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, g.env)
+	if err != nil {
+		return nil, fmt.Errorf("MakeHash '%s' problem: %s",
+			rt.RegisteredName, err)
+	}
+	g.seen[goObject{ptr.Pointer(), ptr.Type()}] = retHash
+	return retHash, g.fillHash(retHash, ptr)
+}
 
-	// check for one of our registered structs
+func (g *goReader) sexp(v reflect.Value) (Sexp, error) {
+	if g.seen == nil {
+		g.seen = make(map[goObject]Sexp)
+	}
+	if g.depth++; g.depth > maxDataDepth {
+		return SexpNull, fmt.Errorf("Go value nested too deeply, the limit is %d", maxDataDepth)
+	}
+	defer func() { g.depth-- }()
 
-	// consult the type registry upfront
-	if rt := GoStructRegistry.forGoType(reflect.TypeOf(r)); rt != nil {
-		retHash, err := MakeHash([]Sexp{}, rt.RegisteredName, env)
-		if err != nil {
-			return SexpNull, fmt.Errorf("MakeHash '%s' problem: %s",
-				rt.RegisteredName, err)
+	if !v.IsValid() {
+		return SexpNull, nil
+	}
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Map, reflect.Interface, reflect.Slice, reflect.Chan, reflect.Func:
+		if v.IsNil() && v.Type() != reflect.TypeOf([]byte(nil)) {
+			return SexpNull, nil
 		}
-		err = retHash.FillHashFromShadow(env, r)
-		if err != nil {
-			return SexpNull, err
+	}
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Map:
+		if s, again := g.seen[goObject{v.Pointer(), v.Type()}]; again {
+			return s, nil
 		}
-		return retHash, nil
 	}
 
-	//Q("fillHashHelper: trying basic non-struct types for r=%T", r)
-
-	// now handle basic non struct types:
-	switch val := r.(type) {
-	case string:
-		//Q("depth %d found string case: val = %#v\n", depth, val)
-		if preferSym {
-			return env.MakeSymbol(val), nil
+	// check for one of our registered structs
+	if v.Kind() == reflect.Ptr {
+		if s, err := g.record(v); s != nil || err != nil {
+			return s, err
 		}
-		return &SexpStr{S: val}, nil
-
-	case int:
-		//Q("depth %d found int case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
-
-	case int32:
-		//Q("depth %d found int32 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
-
-	case int64:
-		//Q("depth %d found int64 case: val = %#v\n", depth, val)
-		return &SexpInt{Val: int64(val)}, nil
-
-	case float64:
-		//Q("depth %d found float64 case: val = %#v\n", depth, val)
-		return &SexpFloat{Val: val}, nil
+	}
 
-	case []interface{}:
-		//Q("depth %d found []interface{} case: val = %#v\n", depth, val)
+	// now handle basic non struct types:
+	switch val := v.Interface().(type) {
+	case Sexp:
+		return val, nil
+	case error:
+		return &SexpError{val}, nil
+	case time.Time:
+		return &SexpTime{Tm: val}, nil
+	case time.Duration:
+		return &SexpDur{Dur: val}, nil
+	case []byte:
+		return &SexpRaw{Val: val}, nil
+	case map[string]interface{}:
+		return decodeGoToSexpHelper(val, g.depth, g.env, false), nil
+	}
 
+	switch v.Kind() {
+	case reflect.String:
+		return &SexpStr{S: v.String()}, nil
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return &SexpInt{Val: v.Int()}, nil
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if u := v.Uint(); u > math.MaxInt64 {
+			return &SexpUint64{Val: u}, nil
+		}
+		return &SexpInt{Val: int64(v.Uint())}, nil
+	case reflect.Float32, reflect.Float64:
+		return &SexpFloat{Val: v.Float()}, nil
+	case reflect.Bool:
+		return &SexpBool{Val: v.Bool()}, nil
+	case reflect.Interface:
+		return g.sexp(v.Elem())
+
+	case reflect.Slice, reflect.Array:
 		slice := []Sexp{}
-		for i := range val {
-			sx2, err := fillHashHelper(val[i], depth+1, env, preferSym)
+		for i := 0; i < v.Len(); i++ {
+			sx2, err := g.sexp(v.Index(i))
 			if err != nil {
-				return SexpNull, fmt.Errorf("error in fillHashHelper() call: '%s'", err)
+				return SexpNull, err
 			}
 			slice = append(slice, sx2)
 		}
-		return &SexpArray{Val: slice, Env: env}, nil
+		return &SexpArray{Val: slice, Env: g.env}, nil
 
-	case map[string]interface{}:
+	case reflect.Map:
+		return g.hash(v)
 
-		//Q("depth %d found map[string]interface case: val = %#v\n", depth, val)
-		sortedMapKey, sortedMapVal := makeSortedSlicesFromMap(val)
-
-		pairs := make([]Sexp, 0)
-
-		typeName := "hash"
-		var keyOrd Sexp
-		foundzKeyOrder := false
-		for i := range sortedMapKey {
-			// special field storing the name of our record (defmap) type.
-			//Q("\n i=%d sortedMapVal type %T, value=%v\n", i, sortedMapVal[i], sortedMapVal[i])
-			//Q("\n i=%d sortedMapKey type %T, value=%v\n", i, sortedMapKey[i], sortedMapKey[i])
-			if sortedMapKey[i] == "zKeyOrder" {
-				keyOrd = decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, true)
-				foundzKeyOrder = true
-			} else if sortedMapKey[i] == "Atype" {
-				tn, isString := sortedMapVal[i].(string)
-				if isString {
-					typeName = string(tn)
-				}
-			} else {
-				sym := env.MakeSymbol(sortedMapKey[i])
-				pairs = append(pairs, sym)
-				ele := decodeGoToSexpHelper(sortedMapVal[i], depth+1, env, preferSym)
-				pairs = append(pairs, ele)
+	case reflect.Ptr:
+		if v.Elem().Kind() != reflect.Struct {
+			return g.sexp(v.Elem())
+		}
+
+	case reflect.Struct:
+		ptr := reflect.New(v.Type())
+		if v.CanAddr() {
+			ptr = v.Addr()
+			if s, again := g.seen[goObject{ptr.Pointer(), ptr.Type()}]; again {
+				return s, nil
 			}
+		} else {
+			ptr.Elem().Set(v)
 		}
-		hash, err := MakeHash(pairs, typeName, env)
-		if foundzKeyOrder {
-			err = SetHashKeyOrder(hash, keyOrd)
-			panicOn(err)
+		if s, err := g.record(ptr); s != nil || err != nil {
+			return s, err
 		}
-		panicOn(err)
-		return hash, nil
-
-	case []byte:
-		//Q("depth %d found []byte case: val = %#v\n", depth, val)
-
-		return &SexpRaw{Val: val}, nil
-
-	case nil:
-		return SexpNull, nil
-
-	case bool:
-		return &SexpBool{Val: val}, nil
-
-	default:
-		//Q("unknown type in type switch, val = %#v.  type = %T.\n", val, val)
 	}
+	// nothing that scripts have, but they can pass it on.
+	return &SexpReflect{Val: v}, nil
+}
 
-	return SexpNull, nil
+// hash makes a hash of a Go map, with the keys in order.
+func (g *goReader) hash(m reflect.Value) (Sexp, error) {
+	hash, err := MakeHash(nil, "hash", g.env)
+	if err != nil {
+		return SexpNull, err
+	}
+	g.seen[goObject{m.Pointer(), m.Type()}] = hash
+	keys := m.MapKeys()
+	sort.Slice(keys, func(i, j int) bool {
+		a, b := keys[i], keys[j]
+		switch {
+		case a.CanInt():
+			return a.Int() < b.Int()
+		case a.CanUint():
+			return a.Uint() < b.Uint()
+		case a.CanFloat():
+			return a.Float() < b.Float()
+		}
+		return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
+	})
+	for _, k := range keys {
+		var key Sexp
+		if k.Kind() == reflect.String {
+			key = g.env.MakeSymbol(k.String())
+		} else if key, err = g.sexp(k); err != nil {
+			return SexpNull, err
+		}
+		val, err := g.sexp(m.MapIndex(k))
+		if err != nil {
+			return SexpNull, err
+		}
+		if err = hash.HashSet(key, val); err != nil {
+			return SexpNull, err
+		}
+	}
+	return hash, nil
 }
 
 func (h *SexpHash) nestedPathGetSet(env *Zlisp, dotpaths []string, setVal *Sexp) (Sexp, error) {
diff --git a/zygo/jsonmsgp.go b/zygo/jsonmsgp.go
index 5bf4d23..80572a3 100644
--- a/zygo/jsonmsgp.go
+++ b/zygo/jsonmsgp.go
@@ -558,23 +558,18 @@ func decodeGoToSexpHelper(r interface{}, depth int, env *Zlisp, preferSym bool)
 		return &SexpTime{Tm: val}
 
 	default:
-		// do we have a struct for it?
-		nm := fmt.Sprintf("%T", val)
-		rt := env.LookupType(nm)
-		if rt == nil {
-			fmt.Printf("unknown type '%s' in type switch, val = %s.  type = %T.\n", nm, goText(reflect.ValueOf(val), map[uintptr]bool{}), val)
-		} else {
-			fmt.Printf("TODO: known struct '%s' in GoToSexp(), val = %s.  type = %T. TODO: make a record for it.\n", nm, goText(reflect.ValueOf(val), map[uintptr]bool{}), val)
-		}
-		return SexpNull
+		s, err := (&goReader{env: env}).sexp(reflect.ValueOf(val))
+		panicOn(err)
+		return s
 	}
 
 	return s
 }
 
 // goText is the text "%#v" prints, but shows what pointers
-// point to, where "%#v" shows the address.
-func goText(v reflect.Value, seen map[uintptr]bool) string {
+// point to, where "%#v" shows the address. What is shown already
+// is not shown again.
+func goText(v reflect.Value, seen map[goObject]bool) string {
 	if !v.IsValid() {
 		return "nil"
 	}
@@ -593,12 +588,17 @@ func goText(v reflect.Value, seen map[uintptr]bool) string {
 		}
 	}
 	switch v.Kind() {
-	case reflect.Ptr:
-		if seen[v.Pointer()] {
+	case reflect.Ptr, reflect.Map, reflect.Slice:
+		obj := goObject{v.Pointer(), v.Type()}
+		if seen[obj] {
 			return fmt.Sprintf("(%v)(...)", v.Type())
 		}
-		seen[v.Pointer()] = true
-		defer delete(seen, v.Pointer())
+		if v.Kind() != reflect.Slice || v.Len() > 0 {
+			seen[obj] = true
+		}
+	}
+	switch v.Kind() {
+	case reflect.Ptr:
 		return "&" + goText(v.Elem(), seen)
 	case reflect.Interface:
 		return goText(v.Elem(), seen)
@@ -818,7 +818,7 @@ func toGoHelper(env *Zlisp, name string, arg Sexp) (Sexp, error) {
 		asHash.GoShadowStruct = newStruct
 		asHash.GoShadowStructVa = reflect.ValueOf(newStruct)
 		asHash.ShadowSet = true
-		return &SexpStr{S: goText(reflect.ValueOf(newStruct), map[uintptr]bool{})}, nil
+		return &SexpStr{S: goText(reflect.ValueOf(newStruct), map[goObject]bool{})}, nil
 	}
 
 }
@@ -831,7 +831,6 @@ func FromGoFunction(env *Zlisp, name string, args []Sexp) (Sexp, error) {
 	switch x := args[0].(type) {
 	case *SexpReflect:
 		sr = x
-		return GoToSexp(x, env)
 	case *SexpArraySelector:
 		y, err := x.RHS(env)
 		if err != nil {
@@ -875,7 +874,6 @@ func SexpToGoStructs(
 	//defer func() {
 	//vv("returning from SexpToGoStructs, target='%p'/'%#v'", target, target)
 	//}()
-	cacheHit := false
 	if dedup == nil {
 		dedup = make(map[*SexpHash]interface{})
 	}
@@ -891,22 +889,10 @@ func SexpToGoStructs(
 	var recordKey string
 
 	defer func() {
-		_ = cacheHit
 		recov := recover()
-		if !cacheHit && err == nil && recov == nil {
-			asHash, ok := sexp.(*SexpHash)
-			if ok {
-				// cache it. we might be overwriting with
-				// ourselves, but faster to just write again
-				// than to read and compare then write.
-				dedup[asHash] = result
-				//vv("dedup caching in SexpToGoStructs '%v' for hash name='%s'", result, asHash.TypeName)
-				//vv("dedup caching in SexpToGoStructs '%T' for hash name='%s'", result, asHash.TypeName)
-			}
-		}
 		if recov != nil {
 			panic(fmt.Errorf("last recordKey field name was '%s'. Caught panic: '%v'", recordKey, recov))
-		} else {
+		} else if err == nil {
 			tc, ok := result.(TypeCheckable)
 			if ok {
 				err := tc.TypeCheck()
@@ -944,6 +930,22 @@ func SexpToGoStructs(
 		//		panic(fmt.Errorf("SexpToGoStructs got non-pointer type! was type %T/val=%#v.  targKind=%#v targTyp=%#v targVa=%#v", target, target, targKind, targTyp, targVa))
 	}
 
+	_, isHash := sexp.(*SexpHash)
+	_, isReflect := sexp.(*SexpReflect)
+	if !isHash && !isReflect && targElemKind == reflect.Ptr && sexp != SexpNull {
+		// a pointer to something that is not a record
+		pointee := reflect.New(targElemTyp.Elem())
+		if _, err := SexpToGoStructs(sexp, pointee.Interface(), env, dedup, calldepth+1, top); err != nil {
+			return nil, err
+		}
+		targVa.Elem().Set(pointee.Convert(targElemTyp))
+		return target, nil
+	}
+
+	if calldepth > maxDataDepth {
+		return nil, fmt.Errorf("record nested too deeply to convert, the limit is %d", maxDataDepth)
+	}
+
 	//vv("sexp = '%v'/Ty=%T", sexp, sexp)
 	switch src := sexp.(type) {
 	case *SexpRaw:
@@ -955,50 +957,49 @@ func SexpToGoStructs(
 		}
 		// allocate the slice
 		n := len(src.Val)
-		slc := reflect.MakeSlice(targElemTyp, 0, n)
+		var slc reflect.Value
+		if targElemKind == reflect.Array {
+			if targElemTyp.Len() != n {
+				return nil, fmt.Errorf("cannot convert an array of length %d to Go type '%v'", n, targElemTyp)
+			}
+			slc = targVa.Elem()
+		} else {
+			slc = reflect.MakeSlice(targElemTyp, n, n)
+		}
 		//P(" slc starts out as %v/type = %T", slc, slc.Interface())
 		// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-		eTyp := targElemTyp.Elem()
 		for i, ele := range src.Val {
-			_ = i
-			goElem := reflect.New(eTyp) // returns pointer to new value
+			// fill in place, so that records elsewhere can refer to the element
+			goElem := slc.Index(i).Addr()
 			//P(" goElem = %#v before filling i=%d", goElem, i)
 			if _, err := SexpToGoStructs(ele, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
 				return nil, err
 			}
 			//P(" goElem = %#v after filling i=%d", goElem, i)
 			//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
-			slc = reflect.Append(slc, goElem.Elem())
 			//P(" slc after i=%d is now %v", i, slc)
 		}
-		targVa.Elem().Set(slc)
+		if targElemKind == reflect.Slice {
+			targVa.Elem().Set(slc)
+		}
 		//P(" targVa is now %v", targVa)
 
 	case *SexpInt:
 		// ugorji msgpack will give us int64 not int,
 		// so match that to make the decodings comparable.
 		//vv("*SexpInt code src.Val='%#v'.. targVa.Elem()='%#v'/Type: %T", src.Val, targVa.Elem().Interface(), targVa.Elem().Interface())
-		switch targVa.Elem().Interface().(type) {
-		case float64:
-			targVa.Elem().SetFloat(float64(src.Val))
-		case int64:
-			targVa.Elem().SetInt(int64(src.Val))
-		default:
-			targVa.Elem().SetInt(int64(src.Val))
-		}
+		return target, setGoInt(targVa.Elem(), src.Val)
+	case *SexpUint64:
+		return target, setGoUint(targVa.Elem(), src.Val)
 	case *SexpStr:
 		targVa.Elem().SetString(src.S)
 	case *SexpChar:
-		targVa.Elem().Set(reflect.ValueOf(rune(src.Val)))
-	case *SexpFloat:
-		switch targVa.Elem().Interface().(type) {
-		case int64:
-			targVa.Elem().SetInt(int64(src.Val))
-		case float64:
-			targVa.Elem().SetFloat(float64(src.Val))
-		default:
-			targVa.Elem().SetFloat(float64(src.Val))
+		if targElemKind != reflect.Int32 {
+			return nil, wrongGoKind(src.SexpString(nil), targVa.Elem())
 		}
+		targVa.Elem().SetInt(int64(src.Val))
+	case *SexpFloat:
+		return target, setGoFloat(targVa.Elem(), src.Val)
 	case *SexpHash:
 		//P(" ==== found SexpHash")
 		// check dedup cache to see if we already generated a Go
@@ -1006,11 +1007,9 @@ func SexpToGoStructs(
 		if alreadyGoStruct, already := dedup[src]; already {
 			//P("SexpToGoStructs dedup cache HIT! woot! alreadyGoStruct = '%v' for src.TypeName='%v'", alreadyGoStruct, src.TypeName)
 			// already did it. Return alreadyGoStruct.
-			cacheHit = true
-			vo := reflect.ValueOf(alreadyGoStruct).Elem()
-			targVa.Elem().Set(vo)
-
-			return target, nil
+			if done, err := reuseGoValue(targVa.Elem(), alreadyGoStruct, src); done || err != nil {
+				return target, err
+			}
 		}
 
 		tn := src.TypeName
@@ -1018,112 +1017,40 @@ func SexpToGoStructs(
 		if tn == "hash" {
 			//  not done with 'hash' translation to Go, targTyp.Elem().Kind()='map', targTyp.Elem()='map[string]float64'
 			//P(fmt.Sprintf("not done with 'hash' translation to Go, targTyp.Elem().Kind()='%v', targTyp.Elem()='%v'", targTyp.Elem().Kind(), targTyp.Elem()))
-			switch target.(type) {
-			case *map[string]string:
-				m := make(map[string]string)
-				for _, arr := range src.buckets() {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keys, isstr := key.(string)
-						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-						}
-						vals, isstr := val.(string)
-						if !isstr {
-							panic(fmt.Errorf("val '%v' should have been an string, but was not.", val))
-						}
-						m[keys] = vals
-					}
+			if targElemKind == reflect.Map {
+				mapKeyTyp := targElemTyp.Key()
+				mapElemTyp := targElemTyp.Elem()
+				pmap := reflect.MakeMap(targElemTyp)
+				maps, _ := dedup[src].(goMaps)
+				if maps == nil {
+					maps = make(goMaps)
+					dedup[src] = maps
 				}
-				targVa.Elem().Set(reflect.ValueOf(m))
-				return target, nil
-
-			case *map[string]float64:
-				m := make(map[string]float64)
+				maps[targElemTyp] = pmap
 				for _, arr := range src.buckets() {
 					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keys, isstr := key.(string)
-						if !isstr {
-							panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
+						goKey := reflect.New(mapKeyTyp)
+						if _, err := SexpToGoStructs(pair.Head, goKey.Interface(), env, dedup, calldepth+1, top); err != nil {
+							return nil, err
 						}
-						switch x := val.(type) {
-						case float64:
-							m[keys] = x
-						case int64:
-							m[keys] = float64(x)
-						default:
-							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
+						if pmap.MapIndex(goKey.Elem()).IsValid() {
+							return nil, fmt.Errorf("two keys of a hash convert to the same Go key, the second is '%s'", pair.Head.SexpString(nil))
 						}
-					}
-				}
-				targVa.Elem().Set(reflect.ValueOf(m))
-				return target, nil
-
-			case *map[int64]float64:
-				//P("target is a map[int64]float64")
-
-				m := make(map[int64]float64)
-				for _, arr := range src.buckets() {
-					for _, pair := range arr {
-						key := SexpToGo(pair.Head, env, dedup)
-						val := SexpToGo(pair.Tail, env, dedup)
-						keyint64, isint64Key := key.(int64)
-						if !isint64Key {
-							panic(fmt.Errorf("key '%v' should have been an int64, but was not.", key))
+						goElem := reflect.New(mapElemTyp) // returns pointer to new value
+						if _, err := SexpToGoStructs(pair.Tail, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
+							return nil, err
 						}
-						switch x := val.(type) {
-						case float64:
-							m[keyint64] = x
-						case int64:
-							m[keyint64] = float64(x)
-						default:
-							panic(fmt.Errorf("val '%v' should have been an float64, but was not.", val))
-						}
-					}
-				}
-				targVa.Elem().Set(reflect.ValueOf(m))
-				return target, nil
-			}
-			if targKind == reflect.Ptr && targElemKind == reflect.Map {
-				mapKeyTyp := targElemTyp.Key()
-				mapKeyKind := mapKeyTyp.Kind()
-				mapElemTyp := targElemTyp.Elem()
-				mapElemKind := mapElemTyp.Kind()
-				if mapKeyKind == reflect.String && mapElemKind == reflect.Interface {
-					// we can try these, map[string]someInterface
-
-					pmap := reflect.MakeMap(targElemTyp)
-					//P(" pmap starts out as %v/type = %T", pmap, pmap.Interface())
-					// if targ is *[]int, then targElem is []int, targElem.Elem() is int.
-					for _, arr := range src.buckets() {
-						for _, pair := range arr {
-							key := SexpToGo(pair.Head, env, dedup)
-							//val := SexpToGo(pair.Tail, env, dedup)
-							keys, isstr := key.(string)
-							if !isstr {
-								panic(fmt.Errorf("key '%v' should have been an string, but was not.", key))
-							}
-							//vv("keys = '%v'", keys)
-
-							goElem := reflect.New(mapElemTyp) // returns pointer to new value
-							//vv(" goElem = %#v before filling keys='%v'", goElem, keys)
-							if _, err := SexpToGoStructs(pair.Tail, goElem.Interface(), env, dedup, calldepth+1, top); err != nil {
-								return nil, err
+						pmap.SetMapIndex(goKey.Elem(), goElem.Elem())
+						if rec, ok := pair.Tail.(*SexpHash); ok {
+							if b, ok := dedup[rec].(*goStruct); ok && !b.filled {
+								b.whenFilled = append(b.whenFilled, func() { pmap.SetMapIndex(goKey.Elem(), goElem.Elem()) })
 							}
-							//P(" goElem = %#v after filling i=%d", goElem, i)
-							//P(" goElem.Elem() = %#v after filling i=%d", goElem.Elem(), i)
-							pmap.SetMapIndex(reflect.ValueOf(keys), goElem.Elem())
-							//vv("pmap after set is now %#v", pmap)
 						}
 					}
-					targVa.Elem().Set(pmap)
-					//vv("target returning = '%#v'", target)
-					return target, nil
 				}
-				//vv("have reflect.Map: target has type = '%T', value='%#v'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v' mapElemTyp='%v' mapElemKind='%v' mapKeyTyp='%v' mapKeyKind='%v'", target, target, targTyp, targKind, targElemTyp, targElemKind, mapElemTyp, mapElemKind, mapKeyTyp, mapKeyKind)
+				targVa.Elem().Set(pmap)
+				//vv("target returning = '%#v'", target)
+				return target, nil
 			}
 			panic(fmt.Sprintf("not done here yet, target has type = '%T'; targTyp='%v' targKind='%v' targElemTyp='%v' targElemKind='%v'", target, targTyp, targKind, targElemTyp, targElemKind))
 
@@ -1162,18 +1089,12 @@ func SexpToGoStructs(
 		}
 		//P("factory = %#v  targTyp.Kind=%s", factory, targTyp.Kind())
 
-		// can we avoid making another top by a simple check that we are at depth 0?
-		var err error
-		var checkPtrStruct interface{}
-		if calldepth == 0 {
-			checkPtrStruct = top
-		} else {
-			checkPtrStruct, err = factory.Factory(env, src)
-			if err != nil {
-				return nil, err
-			}
+		checkPtrStruct, err := factory.Factory(env, src)
+		if err != nil {
+			return nil, err
 		}
 		factOutputVal := reflect.ValueOf(checkPtrStruct)
+		keepShadow := false
 		factType := factOutputVal.Type()
 		if targTyp.Kind() == reflect.Ptr && targTyp.Elem().Kind() == reflect.Interface && factType.Implements(targTyp.Elem()) {
 			//Q(" accepting type check: %v implements %v", factType, targTyp)
@@ -1189,9 +1110,7 @@ func SexpToGoStructs(
 			targVa = factOutputVal // tell the code below
 			targTyp = targVa.Type()
 			targKind = targVa.Kind()
-			src.ShadowSet = true
-			src.GoShadowStruct = checkPtrStruct
-			src.GoShadowStructVa = factOutputVal
+			keepShadow = true
 
 		} else if targTyp.Kind() == reflect.Ptr && targTyp.Elem() == factType {
 			//Q("we have a double pointer that matches the factory type! factType == targTyp.Elem(). factType=%v/%T  targTyp = %v/%T", factType, factType, targTyp, targTyp)
@@ -1203,9 +1122,7 @@ func SexpToGoStructs(
 			targVa = factOutputVal // tell the code below
 			targTyp = targVa.Type()
 			targKind = targVa.Kind()
-			src.ShadowSet = true
-			src.GoShadowStruct = checkPtrStruct
-			src.GoShadowStructVa = factOutputVal
+			keepShadow = true
 
 		} else if factType != targTyp {
 			// factType=*zygo.NestInner/*reflect.rtype  targTyp = **zygo.NestInner/*reflect.rtype
@@ -1216,8 +1133,19 @@ func SexpToGoStructs(
 
 			panic(fmt.Errorf("type checking failed compare the factor associated with SexpHash and the provided target *T: expected '%s' (associated with typename '%s' in the GoStructRegistry) but saw '%s' type in target", tn, factType, targTyp))
 		}
+		if targTyp.Kind() != reflect.Ptr || targTyp.Elem().Kind() != reflect.Struct {
+			return nil, fmt.Errorf("type '%s' has no Go struct", tn)
+		}
+		// known before it is filled, as the record may contain itself.
+		shared := &goStruct{ptr: targVa}
+		dedup[src] = shared
+		filledBy := make(map[*HashFieldDet]string)
+		if calldepth > 0 && !keepShadow {
+			// as new, when an earlier conversion filled it
+			targVa.Elem().Set(factOutputVal.Elem())
+		}
 		//maploop:
-		for _, arr := range src.buckets() {
+		for _, arr := range src.embeddedFirst() {
 			for _, pair := range arr {
 				recordKey = ""
 				switch k := pair.Head.(type) {
@@ -1238,6 +1166,9 @@ func SexpToGoStructs(
 				det, found := src.JsonTagMap[recordKey]
 				//vv("found = %v for recordKey = '%v'; det='%#v'", found, recordKey, det)
 				if !found {
+					if recordKey == "" {
+						return nil, fmt.Errorf("unknown field '' not allowed")
+					}
 					// try once more, with uppercased version
 					// of record key
 					upperKey := strings.ToUpper(recordKey[:1]) + recordKey[1:]
@@ -1248,6 +1179,10 @@ func SexpToGoStructs(
 						continue
 					}
 				}
+				if by, twice := filledBy[det]; twice {
+					return nil, fmt.Errorf("'%s' and '%s' are the same field of '%s'", by, recordKey, tn)
+				}
+				filledBy[det] = recordKey
 				//vv(" ****  recordKey = '%s'\n", recordKey)
 				//vv(" we found in pair.Tail: %T !", pair.Tail)
 
@@ -1276,11 +1211,24 @@ func SexpToGoStructs(
 				}
 				_, err := SexpToGoStructs(pair.Tail, ptrFld.Interface(), env, dedup, calldepth+1, top)
 				if err != nil {
-					panic(err)
-					//return nil, err
+					return nil, fmt.Errorf("field '%s': %w", recordKey, err)
 				}
 			}
 		}
+		shared.filled = true
+		for _, f := range shared.whenFilled {
+			f()
+		}
+		if keepShadow {
+			if tc, ok := checkPtrStruct.(TypeCheckable); ok {
+				if err := tc.TypeCheck(); err != nil {
+					return nil, fmt.Errorf("TypeCheck() error in zygo.SexpToGoStructs for '%T': '%v'", checkPtrStruct, err)
+				}
+			}
+			src.ShadowSet = true
+			src.GoShadowStruct = checkPtrStruct
+			src.GoShadowStructVa = factOutputVal
+		}
 	case *SexpPair:
 		panic("unimplemented")
 		// no conversion
@@ -1292,20 +1240,138 @@ func SexpToGoStructs(
 		// no conversion done
 		//return src
 	case *SexpSentinel:
+		if src != SexpNull {
+			return nil, fmt.Errorf("cannot convert '%s' to Go type '%v'", src.SexpString(nil), targElemTyp)
+		}
 		// set to nil
 		targVa.Elem().Set(reflect.Zero(targVa.Type().Elem()))
+	case *SexpReflect:
+		targVa.Elem().Set(src.Val)
 	case *SexpTime:
 		targVa.Elem().Set(reflect.ValueOf(src.Tm))
 	case *SexpDur:
 		targVa.Elem().Set(reflect.ValueOf(src.Dur))
 	case *SexpBool:
-		targVa.Elem().Set(reflect.ValueOf(src.Val))
+		targVa.Elem().SetBool(src.Val)
 	default:
-		fmt.Printf("\n error: unknown type: %T in '%s'\n", src, src.SexpString(nil))
+		return nil, fmt.Errorf("cannot convert a %T to Go type '%v'", src, targElemTyp)
 	}
 	return target, nil
 }
 
+// embeddedFirst lists the key/value pairs like buckets, but first those
+// that set an embedded struct, for others may set a field of that.
+func (h *SexpHash) embeddedFirst() (r [][]*SexpPair) {
+	var rest [][]*SexpPair
+	for _, arr := range h.buckets() {
+		name := ""
+		if sym, ok := arr[0].Head.(*SexpSymbol); ok {
+			name = sym.name
+		} else if str, ok := arr[0].Head.(*SexpStr); ok {
+			name = str.S
+		}
+		if det := h.JsonTagMap[name]; det != nil && det.StructField.Anonymous {
+			r = append(r, arr)
+		} else {
+			rest = append(rest, arr)
+		}
+	}
+	return append(r, rest...)
+}
+
+// goStruct is the Go struct that SexpToGoStructs makes of a record.
+type goStruct struct {
+	ptr        reflect.Value // a *T
+	filled     bool
+	whenFilled []func() // copies of the struct to make
+}
+
+// goMaps are the Go maps that SexpToGoStructs makes of a hash.
+type goMaps map[reflect.Type]reflect.Value
+
+// reuseGoValue sets dst to the Go value that src was converted to
+// before. It reports false if there is none that dst could hold.
+func reuseGoValue(dst reflect.Value, before interface{}, src *SexpHash) (bool, error) {
+	switch b := before.(type) {
+	case goMaps:
+		if m, ok := b[dst.Type()]; ok {
+			dst.Set(m)
+			return true, nil
+		}
+	case *goStruct:
+		if b.ptr.Type().AssignableTo(dst.Type()) {
+			dst.Set(b.ptr)
+			return true, nil
+		}
+		if dst.Type() == b.ptr.Type().Elem() {
+			if !b.filled {
+				b.whenFilled = append(b.whenFilled, func() { dst.Set(b.ptr.Elem()) })
+				return true, nil
+			}
+			dst.Set(b.ptr.Elem())
+			return true, nil
+		}
+		if dst.Kind() != reflect.String {
+			return false, fmt.Errorf("expected '%v' for the record '%s' but saw '%v'", b.ptr.Type(), src.TypeName, dst.Type())
+		}
+	}
+	return false, nil
+}
+
+func wrongGoKind(val interface{}, dst reflect.Value) error {
+	return fmt.Errorf("the value %v does not fit Go type '%v'", val, dst.Type())
+}
+
+// setGoInt, setGoUint and setGoFloat set dst to exactly val, or fail.
+func setGoInt(dst reflect.Value, val int64) error {
+	switch {
+	case dst.CanInt() && !dst.OverflowInt(val):
+		dst.SetInt(val)
+	case dst.CanUint() && val >= 0 && !dst.OverflowUint(uint64(val)):
+		dst.SetUint(uint64(val))
+	case dst.CanFloat():
+		dst.SetFloat(float64(val))
+		if back := dst.Float(); back >= 1<<63 || int64(back) != val {
+			return wrongGoKind(val, dst)
+		}
+	default:
+		return wrongGoKind(val, dst)
+	}
+	return nil
+}
+
+func setGoUint(dst reflect.Value, val uint64) error {
+	switch {
+	case val <= math.MaxInt64:
+		return setGoInt(dst, int64(val))
+	case dst.CanUint() && !dst.OverflowUint(val):
+		dst.SetUint(val)
+	case dst.CanFloat():
+		dst.SetFloat(float64(val))
+		if back := dst.Float(); back >= 1<<64 || uint64(back) != val {
+			return wrongGoKind(val, dst)
+		}
+	default:
+		return wrongGoKind(val, dst)
+	}
+	return nil
+}
+
+// setGoFloat rounds for a float32, the way float32(val) does.
+func setGoFloat(dst reflect.Value, val float64) error {
+	switch {
+	case dst.CanFloat() && !dst.OverflowFloat(val):
+		dst.SetFloat(val)
+	case dst.CanInt() && val == math.Trunc(val) && val >= -(1<<63) && val < 1<<63:
+		return setGoInt(dst, int64(val))
+	case dst.CanUint() && val == math.Trunc(val) && val >= 0 && val < 1<<64:
+		return setGoUint(dst, uint64(val))
+	default:
+		return wrongGoKind(val, dst)
+	}
+	return nil
+}
+
 /*
 if accessing unexported fields, we'll recover from
 
-- 
2.43.0

