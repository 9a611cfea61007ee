package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

var verbose = os.Getenv("SA_V") != ""

const repoDir = "/repo"

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sa check ...")
		os.Exit(2)
	}
	dir := repoDir
	if d := os.Getenv("SA_REPO"); d != "" {
		dir = d
	}
	P, err := load(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	setupDoc()
	setupKinds()
	if f := os.Getenv("SA_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		code := runCheck(P, os.Args[2], tier)
		pprof.StopCPUProfile()
		os.Exit(code)
	case "worker":
		worker(P, checks[os.Args[2]], os.Args[3] == "thorough")
	case "jobs":
		for i, j := range checks[os.Args[2]].Jobs(P, len(os.Args) > 3) {
			fmt.Println(i, j.Name)
		}
	case "job": // job ID substring: run the matching jobs here
		r := newResult()
		for _, j := range checks[os.Args[2]].Jobs(P, false) {
			if strings.Contains(j.Name, os.Args[3]) {
				mark := markTabs()
				t0 := time.Now()
				protect(r, j.Name, func() { j.Run(P, r) })
				fmt.Printf("%s %.2fs\n", j.Name, time.Since(t0).Seconds())
				resetTabs(mark)
			}
		}
		var ks []string
		for k := range dbgCount {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return dbgCount[ks[i]] > dbgCount[ks[j]] })
		for i, k := range ks {
			if i < 40 {
				fmt.Println("COUNT", dbgCount[k], k)
			}
		}
		for _, v := range r.Viols {
			fmt.Printf("%s: %s: %s [rule %s] %s\n", v.Pos, v.Fn, v.Text, v.Rule, v.Why)
		}
		fmt.Println(r.Count)
	case "tmpl":
		debugTmpl(P, os.Args[2])
	case "fn":
		debugFn(P, os.Args[2], os.Args[3])
	}
}
