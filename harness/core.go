package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

var coreFuncs map[string]zygo.ZlispUserFunction

// NewCore is an interpreter with the builtins the reference evaluator knows.
func NewCore() *zygo.Zlisp {
	if coreFuncs == nil {
		all := zygo.AllBuiltinFunctions()
		coreFuncs = map[string]zygo.ZlispUserFunction{}
		for _, n := range append(refBuiltinNames(), "eval", "read", "str", "=", ":=", ".", "arrayidx", "hashidx", ":", "gensym") {
			if f, ok := all[n]; ok {
				coreFuncs[n] = f
			}
		}
	}
	env := zygo.NewZlispWithFuncs(coreFuncs)
	env.AddBuilder("infix", zygo.InfixBuilder)
	env.AddBuilder("infixExpand", zygo.InfixBuilder)
	return env
}

func coreBench(args []string) {
	t0 := time.Now()
	var e *zygo.Zlisp
	for i := 0; i < 2000; i++ {
		e = NewCore()
	}
	fmt.Println("NewCore", time.Since(t0)/2000)
	t0 = time.Now()
	for i := 0; i < 200; i++ {
		e = NewBare()
	}
	fmt.Println("NewBare", time.Since(t0)/200)
	src := "(def f (fn [x] (+ x 1))) (for [(def i 0) (< i 3) (def i (+ i 1))] (f i)) (f 4)\n"
	t0 = time.Now()
	for i := 0; i < 2000; i++ {
		Eval(e, src)
	}
	fmt.Println("Eval", time.Since(t0)/2000)
	_ = strings.Join
}
