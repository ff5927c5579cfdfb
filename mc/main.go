package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

func main() {
	if filepath.Base(os.Args[0]) == "fakesolver" {
		fakeSolverMain()
		return
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|child|replay|list|selftest ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(checkMain(os.Args[2], tier))
	case "child":
		childMain(os.Args[2:])
	case "replay": // replay ID TIER CASE
		ix, _ := strconv.ParseInt(os.Args[4], 10, 64)
		dir, _ := os.MkdirTemp("", "mc-replay-")
		defer os.RemoveAll(dir)
		s := runShard(os.Args[2], os.Args[3], 0, 1, ix, -1, time.Now().Add(10*time.Minute), dir)
		if v := s.asViolation(); v != nil {
			fmt.Printf("case %d: %s\n  %s\n", v.Idx, v.Key, v.Msg)
			os.RemoveAll(dir)
			os.Exit(1)
		}
		fmt.Println("case passes")
	case "list":
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k)
		}
	case "instrument": // instrument DIR OUT
		if err := instrument(os.Args[2], os.Args[3]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	case "cold":
		coldMain(os.Args[2:])
	case "race":
		cold := -1
		if len(os.Args) > 2 {
			cold, _ = strconv.Atoi(os.Args[2])
		}
		raceMain(cold)
	case "selftest":
		selftest()
	default:
		os.Exit(2)
	}
}
