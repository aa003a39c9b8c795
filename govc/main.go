// govc: contract-based deductive verification of Go code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type UnitResult struct {
	Unit      string        `json:"unit"`
	Kind      string        `json:"kind"`
	Mode      string        `json:"mode"`
	Obls      []*Obligation `json:"obligations"`
	Used      []string      `json:"used"`
	Inlined   []string      `json:"inlined"`
	Trusted   []string      `json:"trusted"`
	Paths     int           `json:"paths"`
	Returns   int           `json:"returns"`
	Invs      int           `json:"invariants"`
	SolverMs  int64         `json:"solver_ms"`
	WallMs    int64         `json:"wall_ms"`
	SmtErrors []string      `json:"smt_errors,omitempty"`
}

func (r *UnitResult) failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.Obls {
		if !o.OK {
			out = append(out, o)
		}
	}
	return out
}

var flagDebug = flag.Bool("v", false, "verbose")
var flagRepo = flag.String("repo", "/repo", "repository")
var flagSpecs = flag.String("contracts", "/verif/contracts", "contracts")

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// runUnit verifies one function or lemma.
func runUnit(sp *Specs, unit string) *UnitResult {
	t0 := time.Now()
	res := &UnitResult{Unit: unit, Kind: "function"}
	var e *Engine
	func() {
		defer func() {
			if r := recover(); r != nil {
				res.Obls = append(res.Obls, &Obligation{Unit: unit, Name: fmt.Sprintf("engine: %v", r), Kind: "undecided", Detail: string(debug.Stack())})
				if *flagDebug {
					fmt.Println(r, string(debug.Stack()))
				}
			}
		}()
		if n, ok := strings.CutPrefix(unit, "lemma "); ok {
			res.Kind = "lemma"
			for _, l := range sp.Lemmas {
				if l.Name != n {
					continue
				}
				ms := l.Modes
				if len(ms) == 0 {
					ms = []Mode{l.Mode}
				}
				for _, m := range ms {
					e = newEngine(sp, m, unit)
					e.debug = *flagDebug
					res.Mode = m.String()
					e.guard(unit, func() { e.verifyLemma(l) })
					e.finish()
					res.Obls = append(res.Obls, e.obls...)
					res.Trusted = append(res.Trusted, keysOf(e.trusted)...)
					res.SolverMs += e.sol.Time.Milliseconds()
					e.sol.Close()
				}
				return
			}
			panic("no such lemma")
		}
		c := sp.Contracts[unit]
		if c == nil {
			res.Obls = append(res.Obls, &Obligation{Unit: unit, Name: "undecided: no contract for " + unit, Kind: "undecided"})
			return
		}
		f := P.funcs[unit]
		if f == nil {
			if !c.Optional {
				res.Obls = append(res.Obls, &Obligation{Unit: unit, Name: "undecided: function " + unit + " not found", Kind: "undecided"})
			}
			return
		}
		opaqueMod = c.OpaqueMod
		e = newEngine(sp, c.Mode, unit)
		e.debug = *flagDebug
		res.Mode = c.Mode.String()
		e.guard(unit, func() { e.verifyFunc(c, f) })
		e.finish()
		res.Obls = e.obls
		res.Used, res.Inlined, res.Trusted = keysOf(e.used), keysOf(e.inlined), keysOf(e.trusted)
		res.Paths, res.Returns, res.Invs = e.paths, e.returns, e.nInv
		res.SolverMs = e.sol.Time.Milliseconds()
		e.sol.Close()
	}()
	res.WallMs = time.Since(t0).Milliseconds()
	res.SmtErrors = smtErrors.l
	if len(res.Obls) == 0 {
		res.Obls = append(res.Obls, &Obligation{Unit: unit, Name: "undecided: no obligations generated", Kind: "undecided"})
	}
	return res
}

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: govc [flags] unit NAME | check PROPERTY")
		os.Exit(2)
	}
	switch args[0] {
	case "unit":
		var err error
		P, err = loadProgram(*flagRepo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		sp, err := LoadSpecs(*flagSpecs)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r := runUnit(sp, strings.Join(args[1:], " "))
		if os.Getenv("GOVC_JSON") != "" {
			json.NewEncoder(os.Stdout).Encode(r)
			return
		}
		printUnit(r)
	case "check":
		os.Exit(runCheck(args[1]))
	}
}

func printUnit(r *UnitResult) {
	ok := 0
	for _, o := range r.Obls {
		if o.OK {
			ok++
		} else {
			fmt.Printf("FAIL %s [%s] %s %v\n", o.Name, o.Kind, o.Detail, o.Model)
		}
	}
	fmt.Printf("%s: %d/%d obligations, %d paths, %d returns, %d invariants, solver %d ms, wall %d ms\n", r.Unit, ok, len(r.Obls), r.Paths, r.Returns, r.Invs, r.SolverMs, r.WallMs)
	for _, e := range r.SmtErrors {
		fmt.Println("  smt error:", e)
	}
}
