package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

var repoDir = "/repo"
var verifDir = "/verif"

func load() *Prog {
	scratch, err := os.MkdirTemp("", "gocv")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	env, err := modEnv(scratch, repoDir, verifDir)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	p, err := loadProg(repoDir, env)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	p.ctrs = loadContracts(verifDir + "/contracts")
	p.ctrs.buildAxioms(p)
	return p
}

func runAll(p *Prog, names []string, tags map[string]bool, deadline time.Time) []*FnResult {
	rs := execAll(p, names, tags, deadline)
	discharge(rs, deadline)
	return rs
}

func execAll(p *Prog, names []string, tags map[string]bool, deadline time.Time) []*FnResult {
	rs := make([]*FnResult, len(names))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, n := range names {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, n string) {
			defer func() { <-sem; wg.Done() }()
			e := p.newFn(n, tags)
			if e == nil {
				rs[i] = &FnResult{Name: n, Unsup: "absent"}
				return
			}
			e.light.deadline = deadline
			rs[i] = e.run()
		}(i, n)
	}
	wg.Wait()
	return rs
}

func main() {
	if v := os.Getenv("GOCV_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("GOCV_VERIF"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: gocv fn NAME.. | list | check PROP TIER")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(runCheck(os.Args[2], tier))
	case "list":
		p := load()
		for _, n := range sortedKeys(p.fns) {
			fmt.Println(n)
		}
	case "fn":
		p := load()
		tags := map[string]bool{}
		var names []string
		for _, a := range os.Args[2:] {
			if strings.HasPrefix(a, "-t=") {
				for _, t := range strings.Split(a[3:], ",") {
					tags[t] = true
				}
				continue
			}
			names = append(names, a)
		}
		t0 := time.Now()
		rs := runAll(p, names, tags, time.Now().Add(10*time.Minute))
		for _, r := range rs {
			ok := 0
			for _, o := range r.Obls {
				if o.res.status == "unsat" {
					ok++
				}
			}
			fmt.Printf("%s: %d/%d obligations, %d paths, %d returns, %d light queries, %.1fs", r.Name, ok, len(r.Obls), r.Paths, r.Returns, r.LightN, r.Secs)
			if r.Unsup != "" {
				fmt.Printf(" UNSUPPORTED %s", r.Unsup)
			}
			if r.Vacuous != "" {
				fmt.Printf(" VACUOUS %s", r.Vacuous)
			}
			fmt.Println()
			for _, o := range r.Obls {
				if o.res.status != "unsat" {
					fmt.Printf("  FAIL %s [%s] %s :: %s  (%s) trace %s\n", o.Pos, o.Kind, o.Desc, o.res.status, strings.ReplaceAll(o.res.out, "\n", " | "), strings.Join(tail(o.trace, 6), " "))
					if os.Getenv("GOCV_DUMP") != "" && o.pc != nil {
						f := fmt.Sprintf("%s/%s_%d.smt2", os.Getenv("GOCV_DUMP"), sanitize(r.Name), time.Now().UnixNano()%1000000)
						os.WriteFile(f, []byte("; "+o.name()+"\n"+buildScript(o.pc, o.goal)), 0644)
						fmt.Println("    dumped", f)
					}
				}
			}
		}
		fmt.Printf("%.1fs, %d heavy\n", time.Since(t0).Seconds(), heavyCount)
	}
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
