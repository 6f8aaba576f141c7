package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type checkCfg struct {
	Entries []string `json:"entries"` // functions whose contracts carry the property
	Tags    []string `json:"tags"`
	Deps    []string `json:"deps"`    // properties whose contracts are relied on
	Bounded string   `json:"bounded"` // what the executable oracle stands in for
	Level   string   `json:"level"`
}

type harnessOut struct {
	ran     bool
	failed  bool
	note    string
	replay  map[string]interface{}
	stats   map[string]interface{}
	secs    float64
	command string
}

func loadCfg() map[string]*checkCfg {
	b, err := os.ReadFile(verifDir + "/contracts/checks.json")
	if err != nil {
		panic(err)
	}
	m := map[string]*checkCfg{}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return m
}

// runHarness compiles the executable oracle of a property against the working tree and runs it.
func runHarness(prop, tier string, seed, secs int, bin string, scratch string) *harnessOut {
	h := &harnessOut{}
	rp := filepath.Join(scratch, fmt.Sprintf("replay_%d.json", seed))
	sp := filepath.Join(scratch, fmt.Sprintf("stats_%d.json", seed))
	t0 := time.Now()
	lim := time.Duration(secs*2+120) * time.Second
	do := func(trace string) (string, error) {
		ctx, cancel := context.WithTimeout(context.Background(), lim)
		defer cancel()
		c := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif_"+prop+"$", "-test.count=1", "-test.timeout=0")
		c.Dir = scratch
		c.Env = append(os.Environ(), "VERIF_REPLAY="+rp, "VERIF_STATS="+sp, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SECS=%d", secs), "VERIF_TRACE="+trace, "GOMEMLIMIT=6GiB")
		var out bytes.Buffer
		c.Stdout = &out
		c.Stderr = &out
		err := c.Run()
		s := out.String()
		if len(s) > 200000 {
			s = s[:100000] + "\n...\n" + s[len(s)-100000:]
		}
		return s, err
	}
	out, err := do("")
	h.ran = true
	h.secs = time.Since(t0).Seconds()
	if b, e := os.ReadFile(rp); e == nil {
		h.failed = true
		json.Unmarshal(b, &h.replay)
		return h
	}
	if err == nil {
		if strings.Contains(out, "no tests to run") {
			h.ran = false
			h.note = "no oracle"
			return h
		}
		if b, e := os.ReadFile(sp); e == nil {
			json.Unmarshal(b, &h.stats)
		}
		return h
	}
	// the process died (stack exhaustion, runtime fatal error): run again with a trace of the current case
	tr := filepath.Join(scratch, "trace")
	out2, err2 := do(tr)
	if err2 == nil {
		h.note = "a first run died without naming an input, a second one passed: " + tailStr(out, 2000)
		h.ran = false
		return h
	}
	if b, e := os.ReadFile(rp); e == nil {
		h.failed = true
		json.Unmarshal(b, &h.replay)
		return h
	}
	cur, _ := os.ReadFile(tr)
	h.failed = true
	h.replay = map[string]interface{}{"property": prop, "what": "the process died: " + headStr(out2, 3000), "input": string(cur)}
	return h
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
func headStr(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// buildHarness compiles the test binary with the oracle files laid over the package.
func buildHarness(scratch string, env []string) (string, string) {
	rep := map[string]string{}
	fs, _ := filepath.Glob(verifDir + "/replay/*_test.go")
	for _, f := range fs {
		rep[filepath.Join(repoDir, "zz_verif_"+filepath.Base(f))] = f
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ov, b, 0644)
	bin := filepath.Join(scratch, "oracle.test")
	c := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, ".")
	c.Dir = repoDir
	c.Env = env
	out, err := c.CombinedOutput()
	if err != nil {
		return "", string(out)
	}
	return bin, ""
}

type closureOut struct {
	rs      []*FnResult
	trusted map[string]string
	missing []string
}

// closure verifies the entries and every function under contract they rely on, transitively.
func closure(p *Prog, entries []string, tags map[string]bool, deadline time.Time) *closureOut {
	co := &closureOut{trusted: map[string]string{}}
	seen := map[string]bool{}
	cur := []string{}
	for _, e := range entries {
		if p.fns[bodyName(e)] == nil {
			co.missing = append(co.missing, e)
			continue
		}
		if !seen[e] {
			seen[e] = true
			cur = append(cur, e)
		}
	}
	for len(cur) > 0 {
		rs := execAll(p, cur, tags, deadline)
		co.rs = append(co.rs, rs...)
		cur = nil
		for _, r := range rs {
			for _, n := range sortedSet(r.Called) {
				c := p.ctrs.byFn[n]
				if c == nil || seen[n] || !tagOK(c.tags, tags) {
					continue
				}
				seen[n] = true
				if c.trusted != "" {
					co.trusted[n] = c.trusted
					continue
				}
				if p.fns[n] == nil {
					continue
				}
				cur = append(cur, n)
			}
		}
	}
	discharge(co.rs, deadline)
	return co
}

func runCheck(prop, tier string) int {
	t0 := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	cfg := loadCfg()[prop]
	if cfg == nil {
		fmt.Println("no such check:", prop)
		return 3
	}
	scratch, err := os.MkdirTemp("", "gocv")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(scratch)
	env, err := modEnv(scratch, repoDir, verifDir)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	os.MkdirAll(verifDir+"/evidence", 0755)
	secs := 14
	limit := 500 * time.Second
	if tier == "thorough" {
		secs = 150
		limit = 3000 * time.Second
	}
	bin, berr := buildHarness(scratch, env)
	hch := make(chan *harnessOut, 1)
	go func() {
		if bin == "" {
			hch <- &harnessOut{note: "the oracle does not compile against this tree: " + headStr(berr, 2000)}
			return
		}
		hch <- runHarness(prop, tier, seed, secs, bin, scratch)
	}()
	tags := map[string]bool{prop: true}
	for _, t := range cfg.Tags {
		tags[t] = true
	}
	var co *closureOut
	var fails []*Obl
	var undecided []string
	p, lerr := loadProg(repoDir, env)
	if lerr != nil {
		undecided = append(undecided, "the package does not load: "+lerr.Error())
		co = &closureOut{trusted: map[string]string{}}
	} else {
		p.ctrs = loadContracts(verifDir + "/contracts")
		p.ctrs.buildAxioms(p)
		co = closure(p, cfg.Entries, tags, t0.Add(limit))
	}
	obls, disch := 0, 0
	by := map[string]int{}
	assumed := map[string]bool{}
	inl := map[string]bool{}
	var fns []string
	var fnDetail []map[string]interface{}
	for _, r := range co.rs {
		ok := 0
		for _, o := range r.Obls {
			obls++
			if o.res.status == "unsat" {
				disch++
				ok++
				by[o.res.by]++
			}
		}
		for a := range r.Assumed {
			assumed[a] = true
		}
		for a := range r.Inlined {
			inl[a] = true
		}
		if r.Unsup != "" {
			undecided = append(undecided, r.Name+": outside the verifier's reach: "+r.Unsup)
		} else if r.Vacuous != "" {
			undecided = append(undecided, r.Name+": vacuous: "+r.Vacuous)
		}
		fns = append(fns, r.Name)
		fnDetail = append(fnDetail, map[string]interface{}{"function": r.Name, "obligations": len(r.Obls), "discharged": ok, "paths": r.Paths, "exec_s": float64(int(r.Secs*10)) / 10, "reach": r.Unsup})
	}
	fails = failed(co.rs)
	for _, m := range co.missing {
		undecided = append(undecided, m+": not in the tree any more")
	}
	h := <-hch
	if !h.failed && len(fails) > 0 && bin != "" {
		// look harder for an input that fails
		h2 := runHarness(prop, tier, seed+1000, 45, bin, scratch)
		if h2.failed {
			h = h2
		}
	}
	// findings already recorded
	known := loadKnown(prop)
	violations := 0
	rdir := verifDir + "/evidence/replay"
	os.MkdirAll(rdir, 0755)
	rpath := rdir + "/" + prop + ".json"
	os.Remove(rpath)
	code := 0
	var oblOut []map[string]interface{}
	for i, o := range fails {
		if i < 40 {
			oblOut = append(oblOut, map[string]interface{}{"obligation": o.name(), "at": o.Pos, "verifier": o.res.out, "status": o.res.status, "path": tail(o.trace, 12)})
		}
	}
	if h.failed || len(fails) > 0 {
		violations = 1
		code = 1
		rep := map[string]interface{}{"property": prop, "failed_obligations": oblOut, "failed_count": len(fails), "failing_input": h.replay}
		if h.failed {
			rep["how_to_replay"] = fmt.Sprintf("VERIF_SEED=%d ./check %s %s", seed, prop, tier)
		} else {
			rep["failing_input"] = "none found"
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(rpath, b, 0644)
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	if code == 1 {
		for i, o := range fails {
			if i < 12 {
				fmt.Printf("failed obligation: %s (%s) %s\n", o.name(), o.Pos, o.res.status)
			}
		}
		if h.failed {
			fmt.Printf("failing input: %v\n%v\n", h.replay["input"], h.replay["what"])
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rpath)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rpath)
		}
	}
	// evidence
	tb := []string{"the condition generator /verif/engine (go/ssa to verification conditions) and its model of Go's memory", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2", "golang.org/x/tools/go/ssa"}
	var tn []string
	for n, r := range co.trusted {
		tn = append(tn, n+": "+r)
	}
	sort.Strings(tn)
	as := sortedSet(assumed)
	for _, t := range tn {
		as = append(as, "trusted contract, body not verified: "+t)
	}
	as = append(as, "stack and memory suffice; no data races (the library is not concurrent)")
	level := cfg.Level
	if level == "" {
		level = "proof"
	}
	cov := map[string]interface{}{
		"obligations": obls, "discharged": disch,
		"checker_cmd":              fmt.Sprintf("./check %s %s", prop, tier),
		"trusted_base":             tb,
		"functions_under_contract": fns,
		"functions":                fnDetail,
		"inlined_functions":        sortedSet(inl),
		"discharged_by":            by,
		"solver_ms":                atomic.LoadInt64(&solverMs),
		"solver_runs":              atomic.LoadInt64(&heavyCount),
		"undecided":                undecided,
		"relies_on_properties":     cfg.Deps,
	}
	bd := map[string]interface{}{"label": "bounded: executable oracle on generated inputs, never counted as proved", "stands_in_for": cfg.Bounded, "ran": h.ran, "seconds": h.secs, "note": h.note}
	if h.stats != nil {
		bd["evaluations"] = h.stats["evaluations"]
		bd["distinct_inputs_sampled"] = h.stats["distinct"]
		bd["samples"] = h.stats["samples"]
	}
	cov["bounded_stand_in"] = bd
	if level == "other" {
		cov["explanation"] = "Contracts discharged for the functions listed (obligations/discharged); the rest of the property is only covered by the bounded stand-in: " + cfg.Bounded
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(verifDir+"/evidence/"+prop+".json", b, 0644)
	fmt.Printf("%s %s: %d functions under contract, %d/%d obligations discharged, %d undecided; oracle ran=%v %s; %.1f s\n", prop, tier, len(fns), disch, obls, len(undecided), h.ran, h.note, time.Since(t0).Seconds())
	for _, u := range undecided {
		fmt.Println("  undecided:", headStr(u, 300))
	}
	return code
}

// loadKnown: the recorded findings of a property that are not repaired.
func loadKnown(prop string) []string {
	b, err := os.ReadFile(verifDir + "/known-findings.txt")
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "known: property="+prop+" "))
		}
	}
	return out
}
