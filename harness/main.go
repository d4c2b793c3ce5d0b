package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vz check ID TIER | replay FILE | show ID TIER SPACE IDX | try FILE|-e SRC")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2], os.Args[3], os.Args[4])
	case "check":
		os.Exit(checkMain(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "show":
		for _, s := range props[os.Args[2]].Spaces(os.Args[3]) {
			if len(os.Args) < 6 {
				fmt.Println(s.Name, s.Size, s.Bound)
				continue
			}
			if s.Name == os.Args[4] && s.Desc != nil {
				var i uint64
				fmt.Sscan(os.Args[5], &i)
				fmt.Println(s.Desc(i))
			}
		}
	case "bench":
		coreBench(os.Args[2:])
	case "try":
		tryMain(os.Args[2:])
	default:
		if f := tools[os.Args[1]]; f != nil {
			f()
			return
		}
		os.Exit(2)
	}
}

// tools are development helpers run as "run.sh NAME".
var tools = map[string]func(){}
