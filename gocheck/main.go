// gocheck: static rules over the type-checked SSA of the font generator
// (/repo/codegen).  Nothing of the generator is executed.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Finding struct {
	Prop  string `json:"prop"`
	Key   string `json:"key"`
	Where string `json:"where"`
	Msg   string `json:"msg"`
}

type Block struct {
	Low, High uint64
	Name      string
}

type Report struct {
	Findings  []Finding                 `json:"findings"`
	Stats     map[string]map[string]int `json:"stats"`
	Samples   map[string][]string       `json:"samples"`
	Functions []string                  `json:"functions"`
	Blocks    []Block                   `json:"blocks"`
}

type A struct {
	prog    *ssa.Program
	pkgs    []*packages.Package
	modPkgs map[*ssa.Package]bool
	funcs   []*ssa.Function // all functions of the module, closures included
	isMod   map[*ssa.Function]bool
	callers map[*ssa.Function][]ssa.Instruction
	main    *ssa.Function
	rep     Report
	repo    string
	// path provenance query: the field name wanted, "" = any input file field
	want       string
	inputs     map[string]bool
	inProgress map[string]bool
}

func (a *A) pos(i interface{}) string {
	var p = a.prog.Fset.Position(0)
	switch v := i.(type) {
	case ssa.Instruction:
		p = a.prog.Fset.Position(v.Pos())
	case *ssa.Function:
		p = a.prog.Fset.Position(v.Pos())
	}
	f := p.Filename
	if len(f) > len(a.repo) && f[:len(a.repo)] == a.repo {
		f = f[len(a.repo)+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (a *A) find(prop, key, where, msg string) {
	a.rep.Findings = append(a.rep.Findings, Finding{prop, key, where, msg})
}
func (a *A) stat(prop, k string, n int) {
	if a.rep.Stats[prop] == nil {
		a.rep.Stats[prop] = map[string]int{}
	}
	a.rep.Stats[prop][k] += n
}
func (a *A) sample(prop, s string) {
	if len(a.rep.Samples[prop]) < 60 {
		a.rep.Samples[prop] = append(a.rep.Samples[prop], s)
	}
}

func main() {
	repo := os.Args[1]
	a := &A{repo: repo, modPkgs: map[*ssa.Package]bool{}, isMod: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]ssa.Instruction{}}
	a.inProgress = map[string]bool{}
	a.inputs = map[string]bool{"Sprites": true, "Legal": true, "Index": true, "Aliases": true}
	a.rep.Stats = map[string]map[string]int{}
	a.rep.Samples = map[string][]string{}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo + "/codegen", Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fail("load: " + err.Error())
	}
	bad := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad++
		}
	})
	if bad > 0 {
		fail("the generator does not type-check")
	}
	a.pkgs = pkgs
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	a.prog = prog
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		a.modPkgs[sp] = true
		if p.Name == "main" {
			a.main = sp.Func("main")
		}
	}
	if a.main == nil {
		fail("no main function")
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && a.modPkgs[f.Pkg] && f.Blocks != nil && f.Synthetic == "" {
			a.funcs = append(a.funcs, f)
			a.isMod[f] = true
		}
	}
	sort.Slice(a.funcs, func(i, j int) bool { return a.funcs[i].RelString(nil) < a.funcs[j].RelString(nil) })
	for _, f := range a.funcs {
		a.rep.Functions = append(a.rep.Functions, f.RelString(nil))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				// A mention of a function as an operand counts as a call at
				// that place: it covers closures, method values, callbacks.
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						a.callers[a.origin(g)] = append(a.callers[a.origin(g)], in)
					}
				}
			}
		}
	}
	a.writes()
	a.determinism()
	a.errors()
	a.blocks()
	a.hash()
	sort.Slice(a.rep.Findings, func(i, j int) bool {
		x, y := a.rep.Findings[i], a.rep.Findings[j]
		return x.Prop+x.Key+x.Where < y.Prop+y.Key+y.Where
	})
	out, _ := json.MarshalIndent(a.rep, "", " ")
	fmt.Println(string(out))
}

func fail(s string) {
	fmt.Fprintln(os.Stderr, "gocheck:", s)
	os.Exit(3)
}

// origin maps a synthetic wrapper (method value, thunk) to the method itself.
func (a *A) origin(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" {
		return f
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && a.modPkgs[g.Pkg] {
					return g
				}
			}
		}
	}
	return f
}
