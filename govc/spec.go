// Contract language: lexer, parser, file format.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Expr struct {
	Op    string // ident, int, str, unary:-, unary:!, binary op, call, field, index, upd, quant, old, ite
	S     string
	Args  []*Expr
	Vars  []VarDecl
	Trigs [][]*Expr
	Pos   string
}

type VarDecl struct {
	Name string
	Type string
}

type Clause struct {
	Label string
	E     *Expr
	Src   string
	Vars  []VarDecl // invariants: placeholders
	Props []string
	Where string
}

type GhostSet struct {
	LHS *Expr
	RHS *Expr
}

type Contract struct {
	Key        string
	Params     []string
	Results    []string
	Mode       Mode
	Trusted    bool // extern or assumed
	Pure       bool
	Inline     bool // never used at call sites: callers inline the body
	Requires   []*Clause
	Ensures    []*Clause
	Modifies   []*Expr
	ModAny     bool
	Invs       []*Clause
	Asserts    []*Clause
	Decr       []*Clause
	Unroll     int
	GhostExit  []GhostSet
	GhostEntry []GhostSet // assigned before the body
	File       string
	MayPanic   bool // no run-time safety obligations
	Why        string
	Notes      []string
	Covers     []*Clause
	Daemon     bool // a goroutine that runs on its own
	NoAlloc    bool
	Split      bool
	Timeout    int
	OpaqueMod  bool
	AlwaysInl  map[string]bool
	UsesLemma  []string
	Optional   bool
	Reads      []*Expr
}

type SFunc struct {
	Name string
	Args []VarDecl
	Res  string
}

type Define struct {
	Name string
	Args []VarDecl
	Res  string
	Body *Expr
}

type GhostField struct {
	Type string // pkg.Type
	Name string
	Sort string
}

type Lemma struct {
	Name   string
	Mode   Mode
	Modes  []Mode
	Vars   []VarDecl
	Induct string
	Req    []*Expr
	Ens    []*Expr
	Trigs  [][]*Expr
	Axiom  bool // definition or trusted: not proved
	Why    string
	Src    string
	Strong bool
	Uses   []string
	Bridge bool    // proved over bit vectors, used over integers as well
	Hide   bool    // not globally available: only where named in `uses`
	Hints  []*Expr // "apply" hints have Op "apply"
	Base   string
	Fix    bool // induction with the other variables fixed
	File   string
}

type Specs struct {
	Contracts map[string]*Contract
	SFuncs    map[string]*SFunc
	Defines   map[string]*Define
	Ghosts    []*GhostField
	Lemmas    []*Lemma
}

type lexer struct {
	toks []string
	p    int
	src  string
}

func lex(s string) []string {
	var out []string
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '$' || c >= 0x80
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case isId(c):
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			for _, op := range []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "&^"} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, op)
					i += len(op)
					goto next
				}
			}
			out = append(out, string(c))
			i++
		next:
		}
	}
	return out
}

type parseErr struct{ msg string }

func (l *lexer) peek() string {
	if l.p < len(l.toks) {
		return l.toks[l.p]
	}
	return ""
}
func (l *lexer) next() string { t := l.peek(); l.p++; return t }
func (l *lexer) expect(s string) {
	if t := l.next(); t != s {
		panic(parseErr{fmt.Sprintf("expected %q, got %q in: %s (at token %d: ...%s)", s, t, l.src, l.p, strings.Join(l.toks[max(0, l.p-6):min(len(l.toks), l.p+4)], " "))})
	}
}
func (l *lexer) accept(s string) bool {
	if l.peek() == s {
		l.p++
		return true
	}
	return false
}

func parseExpr(src string) *Expr {
	l := &lexer{toks: lex(src), src: src}
	e := l.expr()
	if l.p != len(l.toks) {
		panic(parseErr{fmt.Sprintf("trailing %q in: %s", l.peek(), src)})
	}
	return e
}

func (l *lexer) expr() *Expr { return l.iff() }

func (l *lexer) iff() *Expr {
	e := l.imp()
	for l.accept("<==>") {
		e = &Expr{Op: "<==>", Args: []*Expr{e, l.imp()}}
	}
	return e
}
func (l *lexer) imp() *Expr {
	e := l.ite()
	if l.accept("==>") {
		return &Expr{Op: "==>", Args: []*Expr{e, l.imp()}}
	}
	return e
}
func (l *lexer) ite() *Expr {
	c := l.or()
	if l.accept("?") {
		a := l.expr()
		l.expect(":")
		b := l.expr()
		return &Expr{Op: "ite", Args: []*Expr{c, a, b}}
	}
	return c
}
func (l *lexer) or() *Expr {
	e := l.and()
	for l.accept("||") {
		e = &Expr{Op: "||", Args: []*Expr{e, l.and()}}
	}
	return e
}
func (l *lexer) and() *Expr {
	e := l.cmp()
	for l.accept("&&") {
		e = &Expr{Op: "&&", Args: []*Expr{e, l.cmp()}}
	}
	return e
}
func (l *lexer) cmp() *Expr {
	e := l.bitor()
	var res *Expr
	for {
		switch l.peek() {
		case "==", "!=", "<", "<=", ">", ">=":
			op := l.next()
			b := l.bitor()
			c := &Expr{Op: op, Args: []*Expr{e, b}}
			if res == nil {
				res = c
			} else {
				res = &Expr{Op: "&&", Args: []*Expr{res, c}}
			}
			e = b
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return e
}
func (l *lexer) bitor() *Expr {
	e := l.add()
	for {
		switch l.peek() {
		case "|", "^":
			op := l.next()
			e = &Expr{Op: op, Args: []*Expr{e, l.add()}}
			continue
		}
		return e
	}
}
func (l *lexer) add() *Expr {
	e := l.mul()
	for {
		switch l.peek() {
		case "+", "-":
			op := l.next()
			e = &Expr{Op: op, Args: []*Expr{e, l.mul()}}
			continue
		}
		return e
	}
}
func (l *lexer) mul() *Expr {
	e := l.unary()
	for {
		switch l.peek() {
		case "*", "/", "%", "<<", ">>", "&", "&^":
			op := l.next()
			e = &Expr{Op: op, Args: []*Expr{e, l.unary()}}
			continue
		}
		return e
	}
}
func (l *lexer) unary() *Expr {
	switch l.peek() {
	case "-":
		l.next()
		return &Expr{Op: "neg", Args: []*Expr{l.unary()}}
	case "!":
		l.next()
		return &Expr{Op: "not", Args: []*Expr{l.unary()}}
	case "^":
		l.next()
		return &Expr{Op: "compl", Args: []*Expr{l.unary()}}
	case "forall", "exists":
		q := l.next()
		e := &Expr{Op: q}
		e.Vars = l.varDecls("::", "{")
		for l.accept("{") {
			var ts []*Expr
			for {
				ts = append(ts, l.expr())
				if !l.accept(",") {
					break
				}
			}
			l.expect("}")
			e.Trigs = append(e.Trigs, ts)
		}
		l.expect("::")
		e.Args = []*Expr{l.expr()}
		return e
	case "let":
		l.next()
		name := l.next()
		l.expect("=")
		v := l.expr()
		l.expect("::")
		b := l.expr()
		return &Expr{Op: "let", S: name, Args: []*Expr{v, b}}
	}
	return l.postfix()
}

func (l *lexer) typeStr(stops ...string) string {
	var b strings.Builder
	depth := 0
	for l.p < len(l.toks) {
		t := l.peek()
		if depth == 0 {
			for _, s := range stops {
				if t == s {
					return b.String()
				}
			}
			if t == "," || t == ")" {
				return b.String()
			}
		}
		if t == "[" || t == "(" {
			depth++
		}
		if t == "]" || t == ")" {
			depth--
		}
		b.WriteString(t)
		l.p++
	}
	return b.String()
}

func (l *lexer) varDecls(stops ...string) []VarDecl {
	var out []VarDecl
	for {
		n := l.next()
		l.expect(":")
		t := l.typeStr(stops...)
		out = append(out, VarDecl{n, t})
		if !l.accept(",") {
			break
		}
	}
	return out
}

func (l *lexer) postfix() *Expr {
	e := l.primary()
	for {
		switch l.peek() {
		case ".":
			l.next()
			e = &Expr{Op: "field", S: l.next(), Args: []*Expr{e}}
		case "[":
			l.next()
			i := l.expr()
			if l.accept(":=") {
				v := l.expr()
				l.expect("]")
				e = &Expr{Op: "upd", Args: []*Expr{e, i, v}}
			} else if l.accept(":") {
				hi := l.expr()
				l.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, i, hi}}
			} else {
				l.expect("]")
				e = &Expr{Op: "index", Args: []*Expr{e, i}}
			}
		case "(":
			l.next()
			var as []*Expr
			if l.peek() != ")" {
				for {
					as = append(as, l.expr())
					if !l.accept(",") {
						break
					}
				}
			}
			l.expect(")")
			name := ""
			switch e.Op {
			case "ident":
				name = e.S
			case "field":
				if e.Args[0].Op == "ident" {
					name = e.Args[0].S + "." + e.S
				}
			}
			if name == "" {
				panic(parseErr{"bad call in: " + l.src})
			}
			e = &Expr{Op: "call", S: name, Args: as}
		default:
			return e
		}
	}
}

func (l *lexer) primary() *Expr {
	t := l.next()
	switch {
	case t == "(":
		e := l.expr()
		l.expect(")")
		return e
	case t == "*":
		return &Expr{Op: "ident", S: "*"}
	case t == "":
		panic(parseErr{"unexpected end in: " + l.src})
	case t[0] >= '0' && t[0] <= '9':
		return &Expr{Op: "int", S: t}
	case t[0] == '"':
		return &Expr{Op: "str", S: t[1 : len(t)-1]}
	case t[0] == '_' || t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z':
		return &Expr{Op: "ident", S: t}
	}
	panic(parseErr{fmt.Sprintf("unexpected %q in: %s", t, l.src)})
}

// ---- files

func LoadSpecs(dir string) (*Specs, error) {
	sp := &Specs{Contracts: map[string]*Contract{}, SFuncs: map[string]*SFunc{}, Defines: map[string]*Define{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	// common.vc first: lemmas rest on earlier ones only
	sort.Slice(files, func(i, j int) bool {
		a, b := filepath.Base(files[i]) == "common.vc", filepath.Base(files[j]) == "common.vc"
		if a != b {
			return a
		}
		return files[i] < files[j]
	})
	for _, f := range files {
		d, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.load(f, string(d)); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
	}
	return sp, nil
}

func (sp *Specs) load(file, txt string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	var cur *Contract
	var curLemma *Lemma
	// join continuation lines: a clause ends where the next line starts a clause
	var clauses []string
	kw := map[string]bool{}
	for _, k := range strings.Fields("contract sfunc define axiom lemma ghost requires ensures modifies inv unroll ghost_exit ghost_entry trusted pure inline mode maypanic why note cover uses vars induct strong decr noalloc hyp concl trig timeout always_inline daemon opaque_mod optional definition hide assert hint apply fix bridge") {
		kw[k] = true
	}
	for _, ln := range strings.Split(txt, "\n") {
		if i := strings.Index(ln, "//"); i >= 0 {
			ln = ln[:i]
		}
		tr := strings.TrimSpace(ln)
		if tr == "" {
			continue
		}
		w := tr
		if i := strings.IndexAny(w, " [(\t"); i > 0 {
			w = w[:i]
		}
		if kw[w] {
			clauses = append(clauses, tr)
		} else if len(clauses) > 0 {
			clauses[len(clauses)-1] += " " + tr
		} else {
			return fmt.Errorf("stray line %q", tr)
		}
	}
	var defMode = ModeInt
	for _, c := range clauses {
		word := c
		if i := strings.IndexAny(c, " [(\t"); i > 0 {
			word = c[:i]
		}
		rest := strings.TrimSpace(c[len(word):])
		label := ""
		if strings.HasPrefix(rest, "[") && word != "modifies" {
			j := strings.Index(rest, "]")
			label = rest[1:j]
			rest = strings.TrimSpace(rest[j+1:])
		}
		mkClause := func(src string) *Clause {
			return &Clause{Label: label, Src: src, E: parseExpr(src), Where: filepath.Base(file)}
		}
		switch word {
		case "contract":
			cur = &Contract{File: filepath.Base(file), Mode: defMode, Key: "", AlwaysInl: map[string]bool{}}
			curLemma = nil
			// key is up to the parameter list: the last two () groups are params and results
			key, params, results := splitHeader(rest)
			cur.Key, cur.Params, cur.Results = key, params, results
			if sp.Contracts[key] != nil {
				return fmt.Errorf("duplicate contract %s", key)
			}
			sp.Contracts[key] = cur
		case "mode":
			m := ModeInt
			if strings.HasPrefix(rest, "bv") {
				m = ModeBV
			}
			if curLemma != nil {
				curLemma.Mode = m
				curLemma.Modes = nil
				for _, f := range strings.Fields(rest) {
					if f == "bv" {
						curLemma.Modes = append(curLemma.Modes, ModeBV)
					} else {
						curLemma.Modes = append(curLemma.Modes, ModeInt)
					}
				}
			} else {
				cur.Mode = m
			}
		case "trusted":
			cur.Trusted = true
		case "optional":
			cur.Optional = true
		case "daemon":
			cur.Daemon = true
		case "noalloc":
			cur.NoAlloc = true
		case "opaque_mod":
			cur.OpaqueMod = true
		case "timeout":
			fmt.Sscan(rest, &cur.Timeout)
		case "pure":
			cur.Pure = true
		case "inline":
			cur.Inline = true
		case "always_inline":
			for _, f := range strings.Split(rest, ",") {
				cur.AlwaysInl[strings.TrimSpace(f)] = true
			}
		case "maypanic":
			cur.MayPanic = true
		case "why":
			if curLemma != nil {
				curLemma.Why = rest
			} else {
				cur.Why = rest
			}
		case "note":
			cur.Notes = append(cur.Notes, rest)
		case "uses":
			if curLemma != nil {
				curLemma.Uses = append(curLemma.Uses, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
			} else {
				cur.UsesLemma = append(cur.UsesLemma, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
			}
		case "requires":
			cur.Requires = append(cur.Requires, mkClause(rest))
		case "ensures":
			cur.Ensures = append(cur.Ensures, mkClause(rest))
		case "cover":
			cur.Covers = append(cur.Covers, mkClause(rest))
		case "assert":
			cur.Asserts = append(cur.Asserts, mkClause(rest))
		case "apply":
			x := parseExpr(rest)
			if x.Op != "call" {
				return fmt.Errorf("apply needs lemma(args): %s", rest)
			}
			x.Op = "apply"
			if curLemma != nil {
				curLemma.Hints = append(curLemma.Hints, x)
			} else {
				cl := mkClause(rest)
				cl.E = x
				cur.Asserts = append(cur.Asserts, cl)
			}
		case "hint":
			if curLemma != nil {
				curLemma.Hints = append(curLemma.Hints, parseExpr(rest))
			}
		case "modifies":
			if rest == "nothing" {
				break
			}
			if rest == "*" {
				cur.ModAny = true
				break
			}
			l := &lexer{toks: lex(rest), src: rest}
			for {
				cur.Modifies = append(cur.Modifies, l.expr())
				if !l.accept(",") {
					break
				}
			}
		case "inv", "decr":
			cl := &Clause{Label: label, Src: rest, Where: filepath.Base(file)}
			body := rest
			if i := strings.Index(rest, ":::"); i >= 0 {
				vs := strings.TrimSpace(rest[:i])
				body = rest[i+3:]
				l := &lexer{toks: lex(vs), src: vs}
				cl.Vars = l.varDecls()
			}
			cl.E = parseExpr(body)
			if word == "inv" {
				cur.Invs = append(cur.Invs, cl)
			} else {
				cur.Decr = append(cur.Decr, cl)
			}
		case "unroll":
			fmt.Sscan(rest, &cur.Unroll)
		case "ghost_entry":
			parts := strings.SplitN(rest, ":=", 2)
			cur.GhostEntry = append(cur.GhostEntry, GhostSet{parseExpr(parts[0]), parseExpr(parts[1])})
		case "ghost_exit":
			parts := strings.SplitN(rest, ":=", 2)
			cur.GhostExit = append(cur.GhostExit, GhostSet{parseExpr(parts[0]), parseExpr(parts[1])})
		case "ghost":
			// ghost pkg.Type.name : sort
			i := strings.Index(rest, ":")
			n := strings.TrimSpace(rest[:i])
			j := strings.LastIndex(n, ".")
			sp.Ghosts = append(sp.Ghosts, &GhostField{n[:j], n[j+1:], strings.TrimSpace(rest[i+1:])})
		case "sfunc":
			l := &lexer{toks: lex(rest), src: rest}
			n := l.next()
			l.expect("(")
			var vs []VarDecl
			if l.peek() != ")" {
				vs = l.varDecls()
			}
			l.expect(")")
			l.expect(":")
			sp.SFuncs[n] = &SFunc{n, vs, l.typeStr()}
		case "define":
			l := &lexer{toks: lex(rest), src: rest}
			n := l.next()
			l.expect("(")
			var vs []VarDecl
			if l.peek() != ")" {
				vs = l.varDecls()
			}
			l.expect(")")
			res := ""
			if l.accept(":") {
				res = l.typeStr("=")
			}
			l.expect("=")
			e := l.expr()
			if l.p != len(l.toks) {
				panic(parseErr{fmt.Sprintf("trailing %q in define %s", l.peek(), n)})
			}
			if sp.Defines[n] != nil {
				panic(parseErr{fmt.Sprintf("%s defined twice", n)})
			}
			sp.Defines[n] = &Define{n, vs, res, e}
		case "axiom", "lemma", "definition":
			curLemma = &Lemma{Name: label, Axiom: word != "lemma", Src: rest, File: filepath.Base(file)}
			if word == "definition" {
				curLemma.Why = "definition"
			}
			cur = nil
			if rest != "" {
				curLemma.Ens = append(curLemma.Ens, parseExpr(rest))
			}
			sp.Lemmas = append(sp.Lemmas, curLemma)
		case "vars":
			l := &lexer{toks: lex(rest), src: rest}
			curLemma.Vars = l.varDecls()
		case "induct":
			curLemma.Induct = rest
			if f := strings.Fields(rest); len(f) == 3 && f[1] == "from" {
				curLemma.Induct, curLemma.Base = f[0], f[2]
			}
		case "fix":
			curLemma.Fix = true
		case "bridge":
			curLemma.Bridge = true
		case "hide":
			curLemma.Hide = true
		case "strong":
			curLemma.Strong = true
			curLemma.Induct = rest
		case "hyp":
			curLemma.Req = append(curLemma.Req, parseExpr(rest))
		case "concl":
			curLemma.Ens = append(curLemma.Ens, parseExpr(rest))
		case "trig":
			l := &lexer{toks: lex(rest), src: rest}
			var ts []*Expr
			for {
				ts = append(ts, l.expr())
				if !l.accept(",") {
					break
				}
			}
			curLemma.Trigs = append(curLemma.Trigs, ts)
		default:
			return fmt.Errorf("unknown clause %q", word)
		}
	}
	return nil
}

func splitHeader(s string) (key string, params, results []string) {
	s = strings.TrimSpace(s)
	// last group: results, if two groups at the end
	groups := []string{}
	rest := s
	for len(groups) < 2 && strings.HasSuffix(rest, ")") {
		i := strings.LastIndex(rest, "(")
		g := rest[i+1 : len(rest)-1]
		before := strings.TrimSpace(rest[:i])
		groups = append([]string{g}, groups...)
		rest = before
	}
	if len(groups) != 2 {
		panic(parseErr{"contract header needs (params) (results): " + s})
	}
	sp := func(g string) []string {
		var out []string
		for _, x := range strings.Split(g, ",") {
			if x = strings.TrimSpace(x); x != "" {
				out = append(out, x)
			}
		}
		return out
	}
	return rest, sp(groups[0]), sp(groups[1])
}
