// Solver processes. The incremental one (z3) mirrors a path's assumption list;
// one-shot runs re-check what it leaves open with a portfolio.
package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Mode int

const (
	ModeInt Mode = iota
	ModeBV
)

func (m Mode) String() string {
	if m == ModeBV {
		return "bv"
	}
	return "int"
}

// Decls: uninterpreted functions declared by the prelude and the contracts.
type FunDecl struct {
	Name string
	Args []*Sort
	Res  *Sort
}

func prelude(mode Mode) string {
	ix := "Int"
	if mode == ModeBV {
		ix = "(_ BitVec 64)"
	}
	om := ""
	if opaqueMod {
		om = "(declare-fun imod (Int Int) Int)\n(assert (forall ((a Int) (b Int)) (! (=> (< 0 b) (and (<= 0 (imod a b)) (< (imod a b) b))) :pattern ((imod a b)))))\n"
	}
	return `(declare-datatypes ((Ref 0)) (((obj (oid Int)) (fld (fbase Ref) (fidx Int)) (elm (ebase Ref) (eidx ` + ix + `)))))
(declare-datatypes ((Slice 0)) (((mk-slice (sl-base Ref) (sl-off ` + ix + `) (sl-len ` + ix + `) (sl-cap ` + ix + `)))))
(declare-sort Str 0)
(declare-sort Func 0)
(declare-datatypes ((Iface 0)) (((mk-iface (if-tag Int) (if-ref Ref)))))
(declare-fun rootid (Ref) Int)
(assert (forall ((i Int)) (! (= (rootid (obj i)) i) :pattern ((obj i)))))
(assert (forall ((r Ref) (i Int)) (! (= (rootid (fld r i)) (rootid r)) :pattern ((fld r i)))))
(assert (forall ((r Ref) (i ` + ix + `)) (! (= (rootid (elm r i)) (rootid r)) :pattern ((elm r i)))))
` + om
}

type Printer struct {
	declared map[string]bool
	named    map[int]string
	out      *bytes.Buffer
}

func newPrinter() *Printer {
	return &Printer{declared: map[string]bool{}, named: map[int]string{}, out: &bytes.Buffer{}}
}

var funDecls = map[string]*FunDecl{}

func declFun(name string, res *Sort, args ...*Sort) {
	if d := funDecls[name]; d != nil {
		return
	}
	funDecls[name] = &FunDecl{smtName(name), args, res}
}

var builtinOps = map[string]bool{}

// prep declares everything t needs and names its large closed subterms.
func (p *Printer) prep(t *Term) {
	p.prepRec(t, map[int]bool{})
}

func (p *Printer) prepRec(t *Term, seen map[int]bool) bool { // returns: has bound var
	type res struct{ open bool }
	memo := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if o, ok := memo[t.ID]; ok {
			return o
		}
		if _, ok := p.named[t.ID]; ok {
			memo[t.ID] = false
			return false
		}
		open := false
		if t.isSym {
			if !p.declared[t.Op] {
				p.declared[t.Op] = true
				fmt.Fprintf(p.out, "(declare-fun %s () %s)\n", t.Op, t.Sort)
			}
		} else if strings.Contains(t.Op, "?") && len(t.Args) == 0 {
			open = true
		} else if d := funDecls[t.Op]; d != nil && t.Bound == nil {
			if !p.declared[t.Op] {
				p.declared[t.Op] = true
				var as []string
				for _, a := range d.Args {
					as = append(as, a.Name)
				}
				fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", d.Name, strings.Join(as, " "), d.Res)
			}
		}
		for _, a := range t.Args {
			if rec(a) {
				open = true
			}
		}
		for _, pt := range t.Pats {
			for _, x := range pt {
				if rec(x) {
					open = true
				}
			}
		}
		// quantifiers are treated as open unless free of outer bound variables
		if t.Bound != nil {
			open = freeBound(t)
		}
		memo[t.ID] = open
		if !open && t.size > 24 && len(t.Args) > 0 && t.Bound == nil {
			n := fmt.Sprintf("d!%d", t.ID)
			var b strings.Builder
			printTerm(&b, t, p.named)
			fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, t.Sort, b.String())
			p.named[t.ID] = n
		}
		return open
	}
	return rec(t)
}

var fbMemo = map[int]map[int]bool{}

func freeVars(t *Term) map[int]bool {
	if m, ok := fbMemo[t.ID]; ok {
		return m
	}
	m := map[int]bool{}
	if !t.isSym && strings.Contains(t.Op, "?") && len(t.Args) == 0 {
		m[t.ID] = true
	}
	for _, a := range t.Args {
		for k := range freeVars(a) {
			m[k] = true
		}
	}
	for _, b := range t.Bound {
		delete(m, b.ID)
	}
	if len(m) == 0 {
		m = nil
	}
	fbMemo[t.ID] = m
	return m
}

func freeBound(t *Term) bool { return len(freeVars(t)) > 0 }

func (p *Printer) str(t *Term) string {
	var b strings.Builder
	printTerm(&b, t, p.named)
	return b.String()
}

type Solver struct {
	mode   Mode
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	pr     *Printer
	stack  []*Term
	axioms []*Term
	nAx    int
	dead   bool
	Checks int
	Time   time.Duration
	tmo    int
}

var slowDir = os.Getenv("GOVC_SLOW")
var slowN int

func z3Opts(mbqi bool) string {
	s := "(set-option :global-declarations true)\n(set-option :auto_config false)\n(set-option :smt.random_seed 0)\n(set-option :type_check true)\n(set-option :smt.case_split 3)\n(set-option :smt.delay_units true)\n(set-option :smt.qi.eager_threshold 100)\n"
	if !mbqi {
		s += "(set-option :smt.mbqi false)\n"
	} else {
		s += "(set-option :smt.mbqi true)\n"
	}
	return s
}

// other heuristics, for the second try
const z3Auto = "(set-option :global-declarations true)\n(set-option :smt.mbqi false)\n"

func newSolver(mode Mode, axioms []*Term) *Solver {
	s := &Solver{mode: mode, axioms: axioms}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-memory:6000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReader(out)
	s.pr = newPrinter()
	s.stack = nil
	s.nAx = 0
	s.dead = false
	s.tmo = 0
	s.send(z3Opts(false))
	s.send(prelude(s.mode))
	s.flushAxioms()
}

func (s *Solver) flushAxioms() {
	if s.nAx == len(s.axioms) {
		return
	}
	s.popTo(0)
	for ; s.nAx < len(s.axioms); s.nAx++ {
		s.assert(s.axioms[s.nAx])
	}
}

func (s *Solver) send(txt string) {
	if s.dead {
		return
	}
	if _, err := io.WriteString(s.in, txt); err != nil {
		s.dead = true
	}
}

func (s *Solver) assert(t *Term) {
	s.pr.prep(t)
	txt := s.pr.out.String()
	s.pr.out.Reset()
	s.send(txt)
	s.send("(assert " + s.pr.str(t) + ")\n")
}

func (s *Solver) popTo(n int) {
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
}

func (s *Solver) sync(pc []*Term) {
	s.flushAxioms()
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	s.popTo(n)
	for ; n < len(pc); n++ {
		s.send("(push 1)\n")
		s.assert(pc[n])
		s.stack = append(s.stack, pc[n])
	}
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// Check: is pc + extra satisfiable?
func (s *Solver) Check(pc []*Term, extra []*Term, ms int) Result {
	for try := 0; ; try++ {
		r, ok := s.check1(pc, extra, ms)
		if ok {
			return r
		}
		s.Close()
		s.start()
		if try == 1 {
			return Unknown
		}
	}
}

func (s *Solver) check1(pc, extra []*Term, ms int) (Result, bool) {
	t0 := time.Now()
	defer func() {
		s.Time += time.Since(t0)
		s.Checks++
		if slowDir != "" && time.Since(t0) > 250*time.Millisecond {
			slowN++
			os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", slowDir, slowN), []byte(z3Opts(false)+script(s.mode, s.axioms, pc, extra, false)), 0o644)
			x := extra
			d := ""
			for _, t := range x {
				d = t.Str()
			}
			if len(d) > 200 {
				d = d[:200]
			}
			fmt.Println("  slow", slowN, time.Since(t0).Milliseconds(), ms, d)
		}
	}()
	// one process, but no incremental state: z3 is much better at fresh problems
	var b bytes.Buffer
	b.WriteString("(reset)\n" + z3Opts(false))
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", ms)
	b.WriteString(script(s.mode, s.axioms, pc, extra, false))
	s.send(b.String())
	if s.dead {
		return Unknown, false
	}
	ch := make(chan string, 1)
	go func() {
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- "DEAD"
				return
			}
			l = strings.TrimSpace(l)
			if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
				ch <- l
				return
			}
			if strings.HasPrefix(l, "(error") {
				if strings.Contains(l, "out of memory") || strings.Contains(l, "canceled") || strings.Contains(l, "timeout") {
					continue
				}
				smtErrors.add(l)
			}
		}
	}()
	select {
	case l := <-ch:
		switch l {
		case "sat":
			return Sat, true
		case "unsat":
			return Unsat, true
		case "DEAD":
			s.dead = true
			return Unknown, false
		}
		return Unknown, true
	case <-time.After(time.Duration(ms)*time.Millisecond*3 + 5*time.Second):
		s.dead = true
		return Unknown, false
	}
}

type errLog struct {
	mu sync.Mutex
	l  []string
}

func (e *errLog) add(s string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.l) < 20 {
		e.l = append(e.l, s)
	}
}

var smtErrors errLog

// script is the full problem as text (no incremental state).
func script(mode Mode, axioms, pc, extra []*Term, forModel bool) string {
	p := newPrinter()
	var b bytes.Buffer
	b.WriteString(prelude(mode))
	for _, l := range [][]*Term{axioms, pc, extra} {
		for _, t := range l {
			p.prep(t)
			b.Write(p.out.Bytes())
			p.out.Reset()
			b.WriteString("(assert " + p.str(t) + ")\n")
		}
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

type backend struct {
	name string
	pre  string
	cmd  []string
}

func portfolio(ms int) []backend {
	sec := fmt.Sprint((ms + 999) / 1000)
	return []backend{
		{"z3-5.3.2/auto", z3Auto, []string{"z3-new", "-in", "-memory:4000", "-T:" + sec}},
		{"z3-5.3.2", z3Opts(false), []string{"z3-new", "-in", "-memory:4000", "-T:" + sec}},
		{"z3-5.3.2+mbqi", "(set-option :smt.mbqi true)\n", []string{"z3-new", "-in", "-memory:4000", "-T:" + sec}},
		{"z3-5.3.2/seed7", strings.ReplaceAll(z3Opts(false), "random_seed 0", "random_seed 7") + "(set-option :smt.arith.solver 2)\n", []string{"z3-new", "-in", "-memory:4000", "-T:" + sec}},
		{"z3-4.8.12", z3Opts(false), []string{"z3", "-in", "-memory:4000", "-T:" + sec}},
		{"cvc5-1.1.2", "(set-logic ALL)\n", []string{"cvc5", "--lang=smt2", "--tlimit=" + fmt.Sprint(ms), "--arrays-exp", "--full-saturate-quant"}},
		{"cvc5-1.1.2/nl", "(set-logic ALL)\n", []string{"cvc5", "--lang=smt2", "--tlimit=" + fmt.Sprint(ms), "--arrays-exp"}},
	}
}

// OneShot runs the portfolio in parallel; the first unsat (or sat) answer wins.
func OneShot(mode Mode, axioms, pc, extra []*Term, ms int) (Result, string) {
	return OneShotText(script(mode, axioms, pc, extra, false), ms)
}

func OneShotText(txt string, ms int) (Result, string) {
	return race(portfolio(ms), txt, ms)
}

func race(bs []backend, txt string, ms int) (Result, string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+3*time.Second)
	defer cancel()
	type ans struct {
		r Result
		n string
	}
	ch := make(chan ans, len(bs))
	for _, b := range bs {
		go func(b backend) {
			ch <- ans{runBackend(ctx, b, txt), b.name}
		}(b)
	}
	for range bs {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.n
		}
	}
	return Unknown, ""
}

// slowly multiplies the limits: a unit that failed is tried once more with
// twice the time, as a busy machine can make the difference.
var slowly = func() int {
	if os.Getenv("GOVC_SLOWLY") != "" {
		return 2
	}
	return 1
}()

// a short portfolio for a second try within a path; the limit is one of
// processor time, so that it means the same on a busy machine
func fresh(ms int) []backend {
	bs := fresh0(3 * ms)
	for i := range bs {
		bs[i].cmd = append([]string{"prlimit", fmt.Sprintf("--cpu=%d", (ms+999)/1000)}, bs[i].cmd...)
	}
	return bs
}

func fresh0(ms int) []backend {
	t := fmt.Sprintf("-t:%d", ms)
	return []backend{
		{"z3-5.3.2/auto", z3Auto, []string{"z3-new", "-in", "-memory:4000", t}},
		{"z3-5.3.2", z3Opts(false), []string{"z3-new", "-in", "-memory:4000", t}},
		{"z3-4.8.12/auto", z3Auto, []string{"z3", "-in", "-memory:4000", t}},
		{"cvc5-1.1.2", "(set-logic ALL)\n", []string{"cvc5", "--lang=smt2", "--tlimit=" + fmt.Sprint(ms), "--arrays-exp"}},
	}
}

func runBackend(ctx context.Context, b backend, txt string) Result {
	c := exec.CommandContext(ctx, b.cmd[0], b.cmd[1:]...)
	c.Stdin = strings.NewReader(b.pre + txt)
	out, _ := c.Output()
	r := Unknown
	for _, l := range strings.Split(string(out), "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			r = Unsat
		case "sat":
			r = Sat
		}
		if r == Unknown && strings.HasPrefix(l, "(error") && !strings.Contains(l, "memory") {
			smtErrors.add(b.name + ": " + l)
		}
	}
	return r
}

// Model asks for values of the given terms in a model of the quantifier-free
// part of pc + extra (quantified facts are dropped: the values are a hint for
// the replay, which decides on the real code).
func Model(mode Mode, pc, extra, want []*Term, ms int) map[string]string {
	var qf []*Term
	var keep func(t *Term) bool
	memo := map[int]bool{}
	keep = func(t *Term) bool {
		if v, ok := memo[t.ID]; ok {
			return v
		}
		r := t.Bound == nil
		for _, a := range t.Args {
			r = r && keep(a)
		}
		memo[t.ID] = r
		return r
	}
	for _, l := range [][]*Term{pc, extra} {
		for _, t := range l {
			if keep(t) {
				qf = append(qf, t)
			}
		}
	}
	p := newPrinter()
	var b bytes.Buffer
	pre := prelude(mode)
	if i := strings.Index(pre, "(assert"); i >= 0 {
		pre = pre[:i]
	}
	b.WriteString("(set-option :produce-models true)\n" + pre)
	for _, t := range qf {
		p.prep(t)
		b.Write(p.out.Bytes())
		p.out.Reset()
		b.WriteString("(assert " + p.str(t) + ")\n")
	}
	for _, w := range want {
		p.prep(w)
		b.Write(p.out.Bytes())
		p.out.Reset()
	}
	b.WriteString("(check-sat)\n")
	for _, w := range want {
		b.WriteString("(get-value (" + p.str(w) + "))\n")
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+2*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "z3-new", "-in", "-memory:4000", fmt.Sprintf("-T:%d", (ms+999)/1000))
	c.Stdin = strings.NewReader(b.String())
	out, _ := c.Output()
	lines := strings.SplitN(string(out), "\n", 2)
	if len(lines) < 2 || strings.TrimSpace(lines[0]) == "unsat" {
		return nil
	}
	vals := splitSexps(lines[1])
	m := map[string]string{}
	for i, w := range want {
		if i < len(vals) {
			v := strings.TrimSpace(vals[i])
			v = strings.TrimPrefix(v, "((")
			v = strings.TrimSuffix(v, "))")
			name := w.Op
			if j := strings.LastIndex(v, " "); j >= 0 && len(w.Args) == 0 {
				v = strings.TrimSpace(strings.TrimPrefix(v, name))
			}
			m[name] = v
		}
	}
	return m
}

func splitSexps(s string) []string {
	var out []string
	d, st := 0, -1
	for i, c := range s {
		switch c {
		case '(':
			if d == 0 {
				st = i
			}
			d++
		case ')':
			d--
			if d == 0 && st >= 0 {
				out = append(out, s[st:i+1])
				st = -1
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return false })
	return out
}
