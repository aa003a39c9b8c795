// The check of one property: every unit it rests on is verified from the
// current source, and the replay harness searches the real code for a failing
// input.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type PropSpec struct {
	Units   []string `json:"units"`
	Replay  []Replay `json:"replay"`
	Bounded string   `json:"bounded"` // what the always-run search stands in for
	Notes   []string `json:"assumptions"`
}

type Replay struct {
	Pkg   string   `json:"pkg"`   // package directory below the repository
	Files []string `json:"files"` // below /verif/replay
	Run   string   `json:"run"`
	Race  bool     `json:"race"`
}

type ReplayResult struct {
	Pkg      string
	Ran      bool
	Failed   bool
	Evals    int
	Distinct int
	Rule     string
	Samples  []string
	Input    string
	Key      string
	Output   string
	Cmd      string
	Secs     float64
}

func verifRoot() string {
	x, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(x))
	}
	return "/verif"
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func runReplay(root, repo, prop string, r Replay, tier string, seed int) *ReplayResult {
	t0 := time.Now()
	res := &ReplayResult{Pkg: r.Pkg}
	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		res.Output = err.Error()
		return res
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	for i, f := range r.Files {
		rep[filepath.Join(repo, r.Pkg, fmt.Sprintf("zz_verif_%s_%d_test.go", strings.ToLower(prop), i))] = filepath.Join(root, "replay", f)
	}
	rep[filepath.Join(repo, "internal/verifkit/kit.go")] = filepath.Join(root, "replay/kit/kit.go")
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	limit := 280 * time.Second
	if tier == "thorough" {
		limit = 780 * time.Second
	}
	bin := filepath.Join(tmp, "t.test")
	args := []string{"test", "-overlay", ovf, "-vet=off", "-c", "-o", bin}
	if r.Race {
		args = append(args, "-race")
	}
	args = append(args, "./"+r.Pkg)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, "go", args...)
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOWORK=off")
	out, err := c.CombinedOutput()
	res.Cmd = "go test -overlay <overlay of " + strings.Join(r.Files, " ") + "> -run " + r.Run + " ./" + r.Pkg
	if err != nil {
		res.Output = "the harness does not build: " + tail(string(out), 2000)
		return res
	}
	work := filepath.Join(tmp, "work")
	os.MkdirAll(work, 0o777)
	os.Chmod(tmp, 0o755)
	os.Chmod(work, 0o777)
	st := filepath.Join(tmp, "stats.json")
	c = exec.CommandContext(ctx, bin, "-test.run", r.Run, "-test.count=1", "-test.timeout", fmt.Sprint(limit-10*time.Second))
	c.Dir = filepath.Join(repo, r.Pkg)
	c.Env = append(os.Environ(), "VERIF_STATS="+st, "VERIF_TIER="+tier, "VERIF_SEED="+strconv.Itoa(seed), "TMPDIR="+work, "VERIF_WORK="+work)
	c.WaitDelay = 5 * time.Second
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	err = c.Run()
	res.Ran = true
	res.Secs = time.Since(t0).Seconds()
	var s struct {
		Evals, Distinct int
		Rule            string
		Samples         []string
		Fail, Key       string
	}
	if d, e := os.ReadFile(st); e == nil {
		json.Unmarshal(d, &s)
	}
	res.Evals, res.Distinct, res.Rule, res.Samples = s.Evals, s.Distinct, s.Rule, s.Samples
	if err != nil {
		res.Failed = true
		res.Input, res.Key = s.Fail, s.Key
		res.Output = tail(buf.String(), 6000)
		if res.Input == "" {
			res.Input = "the harness stopped: " + tail(buf.String(), 3000)
		}
	}
	return res
}

func allOK(r *UnitResult) bool {
	for _, o := range r.Obls {
		if !o.OK {
			return false
		}
	}
	return true
}

func runCheck(prop string) int {
	t0 := time.Now()
	root := verifRoot()
	repo := *flagRepo
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0o755)
	var props map[string]*PropSpec
	d, err := os.ReadFile(filepath.Join(root, "props.json"))
	if err == nil {
		err = json.Unmarshal(d, &props)
	}
	if err != nil || props[prop] == nil {
		fmt.Println("no such property", prop, err)
		return 2
	}
	ps := props[prop]
	sp, err := LoadSpecs(*flagSpecs)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	// replay harnesses run beside the proofs
	var found int32
	replayFailed := func() bool { return atomic.LoadInt32(&found) != 0 }
	var reps []*ReplayResult
	var rwg sync.WaitGroup
	for _, r := range ps.Replay {
		rr := &ReplayResult{}
		reps = append(reps, rr)
		rwg.Add(1)
		go func() {
			defer rwg.Done()
			*rr = *runReplay(root, repo, prop, r, tier, seed)
			if rr.Failed {
				atomic.StoreInt32(&found, 1)
			}
		}()
	}
	self, _ := os.Executable()
	var mu sync.Mutex
	done := map[string]bool{}
	var results []*UnitResult
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	var enqueue func(u string)
	enqueue = func(u string) {
		mu.Lock()
		defer mu.Unlock()
		if done[u] {
			return
		}
		done[u] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			run := func(limit time.Duration, env ...string) *UnitResult {
				ctx, cancel := context.WithTimeout(context.Background(), limit)
				defer cancel()
				c := exec.CommandContext(ctx, self, "-repo", repo, "-contracts", *flagSpecs, "unit", u)
				c.Env = append(append(os.Environ(), "GOVC_JSON=1"), env...)
				c.WaitDelay = time.Second
				var o, se bytes.Buffer
				c.Stdout, c.Stderr = &o, &se
				err := c.Run()
				r := &UnitResult{}
				if e := json.Unmarshal(o.Bytes(), r); e != nil || err != nil {
					r = &UnitResult{Unit: u, Kind: "function", Obls: []*Obligation{{Unit: u, Name: "undecided: the verifier stopped on " + u, Kind: "undecided", Detail: tail(fmt.Sprint(err, " ", se.String()), 1500)}}}
				}
				return r
			}
			t1 := time.Now()
			r := run(700 * time.Second)
			// once more, with larger limits, if there is time and no failing input is known
			if !allOK(r) && !replayFailed() && time.Since(t1) < 200*time.Second && time.Since(t0) < 330*time.Second {
				if r2 := run(400*time.Second, "GOVC_SLOWLY=1"); len(r2.Obls) > 1 || allOK(r2) {
					r = r2
				}
			}
			<-sem
			mu.Lock()
			results = append(results, r)
			mu.Unlock()
			for _, k := range r.Used {
				if strings.HasPrefix(k, "lemma ") {
					enqueue(k)
					continue
				}
				if cc := sp.Contracts[k]; cc != nil && !cc.Trusted {
					enqueue(k)
				}
			}
		}()
	}
	for _, u := range ps.Units {
		enqueue(u)
	}
	wg.Wait()
	rwg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Unit < results[j].Unit })

	obl, ok := 0, 0
	var failed []*Obligation
	back := map[string]int{}
	trusted := map[string]bool{}
	var solver int64
	var unitRows []map[string]any
	var fns, lemmas, inl []string
	inlSeen := map[string]bool{}
	for _, r := range results {
		good := 0
		for _, o := range r.Obls {
			obl++
			if o.OK {
				ok++
				good++
				back[o.Backend]++
			} else {
				failed = append(failed, o)
			}
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, k := range r.Used {
			if cc := sp.Contracts[k]; cc != nil && cc.Trusted {
				trusted["contract "+k+": "+cc.Why] = true
			}
		}
		for _, k := range r.Inlined {
			if !inlSeen[k] {
				inlSeen[k] = true
				inl = append(inl, k)
			}
		}
		solver += r.SolverMs
		if r.Kind == "lemma" {
			lemmas = append(lemmas, strings.TrimPrefix(r.Unit, "lemma "))
		} else {
			fns = append(fns, r.Unit)
		}
		unitRows = append(unitRows, map[string]any{"unit": r.Unit, "kind": r.Kind, "arithmetic": r.Mode, "obligations": len(r.Obls), "discharged": good, "paths": r.Paths, "loop_invariants": r.Invs, "solver_ms": r.SolverMs, "wall_ms": r.WallMs, "smt_errors": r.SmtErrors})
	}
	sort.Strings(inl)
	var rrows []map[string]any
	var rfail *ReplayResult
	for _, r := range reps {
		rrows = append(rrows, map[string]any{"package": r.Pkg, "ran": r.Ran, "failed": r.Failed, "evaluations": r.Evals, "distinct_nontrivial": r.Distinct, "rule": r.Rule, "samples": r.Samples, "seconds": r.Secs, "note": tail(r.Output, 600), "cmd": r.Cmd})
		if r.Failed && rfail == nil {
			rfail = r
		}
	}
	// known findings
	known := knownFindings(filepath.Join(root, "known-findings.txt"), prop)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
		if rfail != nil && rfail.Key != "" && rfail.Key == k.key {
			rfail = nil
		}
	}
	viol := 0
	if len(failed) > 0 || rfail != nil {
		viol = 1
	}
	tb := []string{
		"govc (this verifier: Go SSA to verification conditions) and golang.org/x/tools/go/ssa",
		"the SMT solvers z3 5.3.2, z3 4.8.12 and cvc5 1.1.2",
		"sequential execution: other goroutines do not touch the memory a function under contract uses",
		"memory model: allocation never fails; slices, strings and files are shorter than 2^61 bytes",
	}
	tb = append(tb, keysOf(trusted)...)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": obl, "discharged": ok,
			"checker_cmd":              fmt.Sprintf("%s unit <name> for each unit below (all run by: check %s)", self, prop),
			"trusted_base":             tb,
			"functions_under_contract": fns, "lemmas": lemmas, "inlined_callees": inl,
			"back_ends": back, "solver_ms": solver, "units": unitRows,
			"bounded_search": rrows,
			"bounded_scope":  "bounded, not proved: " + ps.Bounded,
		},
		"assumptions": append(append([]string{}, ps.Notes...), keysOf(trusted)...),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  viol,
	}
	if js, err := json.MarshalIndent(ev, "", " "); err == nil {
		os.WriteFile(filepath.Join(evdir, prop+".json"), append(js, '\n'), 0o644)
	}
	fmt.Printf("%s: %d of %d obligations discharged over %d functions and %d lemmas", prop, ok, obl, len(fns), len(lemmas))
	for _, r := range reps {
		if r.Ran {
			fmt.Printf("; bounded search in %s: %d cases", r.Pkg, r.Evals)
		} else {
			fmt.Printf("; bounded search in %s did not run: %s", r.Pkg, tail(r.Output, 300))
		}
	}
	fmt.Printf(" (%.1fs)\n", time.Since(t0).Seconds())
	if viol == 0 {
		return 0
	}
	for _, o := range failed {
		fmt.Printf("  not discharged: %s: %s\n", o.Unit, o.Name)
	}
	rp := filepath.Join(evdir, prop+".replay.json")
	rec := map[string]any{"property": prop}
	var fo []map[string]any
	for _, o := range failed {
		fo = append(fo, map[string]any{"unit": o.Unit, "obligation": o.Name, "kind": o.Kind, "verifier": o.Detail, "back_end": o.Backend, "model": o.Model})
	}
	rec["failed_obligations"] = fo
	line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp)
	if rfail != nil {
		rec["failing_input"] = rfail.Input
		rec["harness"] = rfail.Cmd
		rec["harness_output"] = rfail.Output
		fmt.Println("  failing input:", tail(rfail.Input, 1500))
	} else {
		rec["failing_input"] = nil
		line += " no-failing-input-found"
	}
	if js, err := json.MarshalIndent(rec, "", " "); err == nil {
		os.WriteFile(rp, append(js, '\n'), 0o644)
	}
	fmt.Println(line)
	return 1
}

type finding struct{ key, what string }

// knownFindings: lines "known: property=<id> key=<key> <what fails>".
func knownFindings(file, prop string) []finding {
	d, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(d), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		out = append(out, finding{strings.TrimPrefix(f[2], "key="), strings.Join(f[3:], " ")})
	}
	return out
}
