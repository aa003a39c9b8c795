// Loading /repo and indexing its functions.
package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog   *ssa.Program
	pkgs   []*packages.Package
	byName map[string][]*types.Package // package name -> packages
	funcs  map[string]*ssa.Function    // key -> function
	inRepo map[*ssa.Package]bool
}

var P *Program

func goEnv() []string {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv()}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("loading %s: %v", p.PkgPath, e)
		}
	}
	prog, roots := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr := &Program{prog: prog, pkgs: pkgs, byName: map[string][]*types.Package{}, funcs: map[string]*ssa.Function{}, inRepo: map[*ssa.Package]bool{}}
	for _, r := range roots {
		if r == nil {
			continue
		}
		r.Build()
		pr.inRepo[r] = true
	}
	for _, want := range []string{"encoding/binary", "io", "sort", "unicode/utf8", "hash/fnv"} {
		if p := prog.ImportedPackage(want); p != nil {
			p.Build()
		}
	}
	for _, p := range prog.AllPackages() {
		pr.byName[p.Pkg.Name()] = append(pr.byName[p.Pkg.Name()], p.Pkg)
	}
	for n := range pr.byName {
		l := pr.byName[n]
		sort.SliceStable(l, func(i, j int) bool {
			a, b := strings.Contains(l[i].Path(), "dupi"), strings.Contains(l[j].Path(), "dupi")
			if a != b {
				return a
			}
			return len(l[i].Path()) < len(l[j].Path())
		})
	}
	for _, p := range prog.AllPackages() {
		if !pr.inRepo[p] && p.Pkg.Path() != "encoding/binary" && p.Pkg.Path() != "io" && p.Pkg.Path() != "hash/fnv" {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				pr.addFunc(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if len(ms.At(i).Index()) > 1 {
							continue
						}
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							pr.addFunc(f)
						}
					}
				}
			}
		}
	}
	return pr, nil
}

func (pr *Program) addFunc(f *ssa.Function) {
	k := funcKey(f)
	if pr.funcs[k] == nil {
		pr.funcs[k] = f
	}
	for _, a := range f.AnonFuncs {
		pr.addFunc(a)
	}
}

func qual(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Name() == "main" {
		i := strings.LastIndex(p.Path(), "/")
		return "cmd" + p.Path()[i+1:]
	}
	return p.Name()
}

var reAlias = regexp.MustCompile(`\b(byte|rune|any)\b`)
var typeStrMemo = map[types.Type]string{}

func typeStr(t types.Type) string {
	if s, ok := typeStrMemo[t]; ok {
		return s
	}
	s := reAlias.ReplaceAllStringFunc(types.TypeString(t, qual), func(w string) string {
		switch w {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return "interface{}"
	})
	s = strings.ReplaceAll(s, "interface {}", "interface{}")
	typeStrMemo[t] = s
	return s
}

// funcKey: token.Tokenize, (*shard.poster).flushTo, shatter.send$1
func funcKey(f *ssa.Function) string {
	if f.Parent() != nil {
		n := f.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return funcKey(f.Parent()) + n
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + typeStr(r.Type()) + ")." + f.Name()
	}
	if f.Pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return qual(o.Pkg()) + "." + f.Name()
		}
		return f.String()
	}
	return qual(f.Pkg.Pkg) + "." + f.Name()
}

func methKey(recv types.Type, m string) string { return "(" + typeStr(recv) + ")." + m }

func (pr *Program) lookupType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "[]"):
		if t := pr.lookupType(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(s, "*"):
		if t := pr.lookupType(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, v := pr.lookupType(s[4:i]), pr.lookupType(s[i+1:])
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
	case strings.HasPrefix(s, "["):
		i := strings.Index(s, "]")
		var n int64
		if _, err := fmt.Sscan(s[1:i], &n); err == nil {
			if t := pr.lookupType(s[i+1:]); t != nil {
				return types.NewArray(t, n)
			}
		}
		return nil
	}
	switch s {
	case "iface", "any":
		return types.NewInterfaceType(nil, nil)
	case "float":
		return types.Typ[types.Float64]
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.LastIndex(s, "."); i > 0 {
		pn := s[:i]
		for _, p := range pr.byName[strings.TrimPrefix(pn, "cmd")] {
			if o := p.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
		for _, p := range pr.byName[pn] {
			if o := p.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
		if strings.HasPrefix(pn, "cmd") {
			for _, p := range pr.byName["main"] {
				if qual(p) == pn {
					if o := p.Scope().Lookup(s[i+1:]); o != nil {
						return o.Type()
					}
				}
			}
		}
	}
	return nil
}
