package main

// C21: files are written only behind "exactly one argument, --write", and
// only at the path the configuration names as Rust output.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library calls that create, change or remove something outside the process
// (console output excepted), and the index of the path argument.
var mutators = map[string]int{
	"io/ioutil.WriteFile": 0, "os.WriteFile": 0, "os.Create": 0, "os.OpenFile": 0,
}

var mutatorsNever = []string{
	"os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.Remove", "os.RemoveAll", "os.Rename", "os.Chmod",
	"os.Chown", "os.Lchown", "os.Chtimes", "os.Truncate", "os.Symlink", "os.Link", "os.CreateTemp", "os.Chdir",
	"os.Setenv", "os.StartProcess", "os.CopyFS", "os.NewFile", "os.OpenRoot", "os.OpenInRoot",
	"io/ioutil.TempFile", "io/ioutil.TempDir", "(*os.File).Chmod", "(*os.File).Chown", "(*os.File).Truncate",
}

var mutatorPkgs = []string{"os/exec", "syscall", "net", "net/http", "plugin", "unsafe", "golang.org/x/sys/unix", "log/syslog"}

func pkgOf(f *ssa.Function) string {
	if f.Pkg != nil && f.Pkg.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// readOnlyOpen: os.OpenFile with constant flags O_RDONLY creates nothing.
func readOnlyOpen(c *ssa.CallCommon) bool {
	if len(c.Args) < 2 {
		return false
	}
	k, ok := c.Args[1].(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	v, ok := constant.Int64Val(k.Value)
	return ok && v == 0
}

func (a *A) writes() {
	const P = "C21"
	sites := 0
	for _, f := range a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				g := cc.StaticCallee()
				if g == nil || (g.Pkg != nil && a.modPkgs[g.Pkg]) {
					continue
				}
				a.stat(P, "external_call_sites", 1)
				name := g.RelString(nil)
				never := false
				for _, n := range mutatorsNever {
					if n == name {
						never = true
					}
				}
				pk := pkgOf(g)
				for _, n := range mutatorPkgs {
					if pk == n || strings.HasPrefix(pk, n+"/") {
						never = true
					}
				}
				if never {
					a.find(P, "never:"+name+"@"+f.RelString(nil), a.pos(in), fmt.Sprintf("%s calls %s, which changes something other than a configured output file", f.RelString(nil), name))
					continue
				}
				pi, isMut := mutators[name]
				if !isMut || (name == "os.OpenFile" && readOnlyOpen(cc)) {
					continue
				}
				sites++
				a.sample(P, fmt.Sprintf("write site %s in %s at %s", name, f.RelString(nil), a.pos(in)))
				a.want = "RustOut"
				if why := a.isRustOut(cc.Args[pi], 0); why != "" {
					a.find(P, "path:"+name+"@"+f.RelString(nil), a.pos(in), fmt.Sprintf("%s in %s writes to a path that is not the configured Rust output (%s)", name, f.RelString(nil), why))
				}
				if trace := a.unguarded(in, map[string]bool{}, map[*ssa.Function]bool{}); trace != nil {
					a.find(P, "guard:"+name+"@"+f.RelString(nil), a.pos(in), fmt.Sprintf("%s in %s is reachable without exactly one argument \"--write\": %s", name, f.RelString(nil), strings.Join(trace, " <- ")))
				}
			}
		}
	}
	// references to mutators other than by a direct call
	for _, f := range a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && c.Common().StaticCallee() == g {
						continue
					}
					if _, m := mutators[g.RelString(nil)]; m {
						a.find(P, "ref:"+g.RelString(nil)+"@"+f.RelString(nil), a.pos(in), "a file-writing function is passed around as a value: "+g.RelString(nil))
					}
				}
			}
		}
	}
	a.stat(P, "write_sites", sites)
	if sites == 0 {
		a.find(P, "anchor:no-write-site", "codegen", "no call that writes an output file was found: the generator can no longer write the fonts")
	}
}

// isRustOut: "" if the value is the RustOut string of the configuration,
// otherwise what it is instead.
func (a *A) isRustOut(v ssa.Value, depth int) string {
	if depth > 12 {
		return "too deep to resolve"
	}
	switch x := v.(type) {
	case *ssa.Field:
		return a.fieldIsRustOut(x.X.Type(), x.Field, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return a.fieldIsRustOut(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field, depth)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				n := 0
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						n++
						if w := a.isRustOut(st.Val, depth+1); w != "" {
							return w
						}
					}
				}
				if n > 0 {
					return ""
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := a.isRustOut(e, depth+1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		n := 0
		for _, s := range a.callers[f] {
			c, ok := s.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() != f {
				return "parameter of a function used as a value"
			}
			n++
			if w := a.isRustOut(c.Common().Args[idx], depth+1); w != "" {
				return w
			}
		}
		if n > 0 {
			return ""
		}
		return "parameter without callers"
	case *ssa.Call:
		if g := x.Common().StaticCallee(); g != nil {
			switch g.RelString(nil) {
			case "path/filepath.Clean", "path/filepath.FromSlash", "path.Clean":
				return a.isRustOut(x.Common().Args[0], depth+1)
			}
			if a.isMod[g] {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						if len(r.Results) != 1 {
							return "result of " + g.RelString(nil)
						}
						if w := a.isRustOut(r.Results[0], depth+1); w != "" {
							return w
						}
					}
				}
				return ""
			}
			return "result of " + g.RelString(nil)
		}
	case *ssa.Const:
		if a.want == "" && x.Value != nil && x.Value.Kind() == constant.String && constant.StringVal(x.Value) == "config.json" {
			return ""
		}
		return "constant " + x.Value.String()
	case *ssa.BinOp:
		return "computed by " + x.Op.String()
	}
	return fmt.Sprintf("%T", v)
}

// A field named RustOut of a module struct; every store into such a field
// in turn holds a RustOut (the configuration object itself is filled by the
// JSON decoder only).
func (a *A) fieldIsRustOut(t types.Type, idx int, depth int) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "field of non-struct"
	}
	name := st.Field(idx).Name()
	if name != a.want && !(a.want == "" && a.inputs[name]) {
		return "field " + types.TypeString(t, nil) + "." + name
	}
	want := name
	if a.want == "" && want != "Sprites" {
		return "" // read straight from the configuration object
	}
	if a.inProgress[want] {
		return ""
	}
	a.inProgress[want] = true
	defer delete(a.inProgress, want)
	for _, f := range a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				ft := fa.X.Type().Underlying().(*types.Pointer).Elem()
				fst, ok := ft.Underlying().(*types.Struct)
				if !ok || fst.Field(fa.Field).Name() != want {
					continue
				}
				a.stat("C21", "path_field_stores", 1)
				if w := a.isRustOut(s.Val, depth+4); w != "" {
					return want + " set at " + a.pos(s) + " from " + w
				}
			}
		}
	}
	return ""
}

// unguarded returns a call chain from main (or an uncontrolled entry) to the
// instruction along which the two conditions are not established.
func (a *A) unguarded(in ssa.Instruction, have map[string]bool, seen map[*ssa.Function]bool) []string {
	f := in.Parent()
	got := map[string]bool{}
	for k := range have {
		got[k] = true
	}
	for k := range a.blockAtoms(in.Block()) {
		got[k] = true
	}
	if got["nargs==2"] && got["arg1==--write"] {
		return nil
	}
	here := fmt.Sprintf("%s (%s)", f.RelString(nil), a.pos(in))
	if f == a.main || strings.HasPrefix(f.Name(), "init") {
		return []string{here}
	}
	if seen[f] {
		return nil
	}
	seen[f] = true
	cs := a.callers[f]
	if len(cs) == 0 {
		if f.Signature.Recv() != nil {
			return []string{here, "method callable from a template"}
		}
		return nil // never referenced: dead
	}
	for _, c := range cs {
		if t := a.unguarded(c, got, seen); t != nil {
			return append([]string{here}, t...)
		}
	}
	return nil
}

// blockAtoms: conditions known to hold when the block runs.
func (a *A) blockAtoms(b *ssa.BasicBlock) map[string]bool {
	out := map[string]bool{}
	for _, e := range dominatingEdges(b) {
		for k := range a.implied(e.cond, e.truth, 0) {
			out[k] = true
		}
	}
	return out
}

type condEdge struct {
	cond  ssa.Value
	truth bool
	at    *ssa.If
}

// dominatingEdges: branch outcomes that every path to the block has taken.
func dominatingEdges(b *ssa.BasicBlock) []condEdge {
	var out []condEdge
	for d := b.Idom(); d != nil; d = d.Idom() {
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, s := range d.Succs {
			if d.Succs[0] == d.Succs[1] {
				continue
			}
			if len(s.Preds) == 1 && s.Dominates(b) {
				out = append(out, condEdge{i.Cond, k == 0, i})
			} else if !reaches(d.Succs[1-k], b, d) {
				// the other outcome never gets here
				out = append(out, condEdge{i.Cond, k == 0, i})
			}
		}
	}
	return out
}

func reaches(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{from}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == to {
			return true
		}
		if seen[x] || x == avoid {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func (a *A) implied(v ssa.Value, truth bool, depth int) map[string]bool {
	out := map[string]bool{}
	if depth > 10 {
		return out
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.implied(x.X, !truth, depth+1)
		}
	case *ssa.BinOp:
		eq := (x.Op == token.EQL && truth) || (x.Op == token.NEQ && !truth)
		if !eq {
			return out
		}
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			k, ok := p[1].(*ssa.Const)
			if !ok || k.Value == nil {
				continue
			}
			if k.Value.Kind() == constant.Int && k.Value.ExactString() == "2" && a.isLenArgs(p[0]) {
				out["nargs==2"] = true
			}
			if k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "--write" && a.isArg1(p[0]) {
				out["arg1==--write"] = true
			}
			if k.Value.Kind() == constant.Int && k.Value.ExactString() == "1" && a.isLenArgsFrom1(p[0]) {
				out["nargs==2"] = true
			}
			if k.Value.Kind() == constant.Bool {
				for q := range a.implied(p[0], constant.BoolVal(k.Value), depth+1) {
					out[q] = true
				}
			}
		}
	case *ssa.Phi:
		var acc map[string]bool
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) != truth {
				continue
			}
			m := a.implied(e, truth, depth+1)
			pred := x.Block().Preds[i]
			for q := range a.blockAtoms(pred) {
				m[q] = true
			}
			if iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
				for q := range a.implied(iff.Cond, pred.Succs[0] == x.Block(), depth+1) {
					m[q] = true
				}
			}
			acc = meet(acc, m)
		}
		if acc != nil {
			return acc
		}
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || !a.isMod[g] {
			return out
		}
		var acc map[string]bool
		for _, b := range g.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				continue
			}
			if k, ok := r.Results[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != truth {
				continue
			}
			m := a.implied(r.Results[0], truth, depth+1)
			for q := range a.blockAtoms(b) {
				m[q] = true
			}
			acc = meet(acc, m)
		}
		if acc != nil {
			return acc
		}
	}
	return out
}

func meet(acc, m map[string]bool) map[string]bool {
	if acc == nil {
		return m
	}
	for k := range acc {
		if !m[k] {
			delete(acc, k)
		}
	}
	return acc
}

// isArgs: the value is os.Args (also through parameters and locals).
func (a *A) isArgs(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return g.RelString(nil) == "os.Args"
		}
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		cs := a.callers[f]
		for _, s := range cs {
			c, ok := s.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() != f || !a.isArgs(c.Common().Args[idx], depth+1) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

func (a *A) isTail(v ssa.Value) bool { // os.Args[1:]
	if s, ok := v.(*ssa.Slice); ok && s.High == nil && isInt(s.Low, 1) {
		return a.isArgs(s.X, 0)
	}
	if p, ok := v.(*ssa.Parameter); ok {
		f := p.Parent()
		for i, q := range f.Params {
			if q == p {
				cs := a.callers[f]
				for _, s := range cs {
					c, ok := s.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() != f || !a.isTail(c.Common().Args[i]) {
						return false
					}
				}
				return len(cs) > 0
			}
		}
	}
	return false
}

func (a *A) isLenArgs(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && builtin(c.Common()) == "len" && a.isArgs(c.Common().Args[0], 0)
}
func (a *A) isLenArgsFrom1(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if ok && builtin(c.Common()) == "len" && a.isTail(c.Common().Args[0]) {
		return true
	}
	b, ok := v.(*ssa.BinOp) // len(os.Args)-1
	return ok && b.Op == token.SUB && a.isLenArgs(b.X) && isInt(b.Y, 1)
}

func builtin(c *ssa.CallCommon) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (a *A) isArg1(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	return (a.isArgs(ia.X, 0) && isInt(ia.Index, 1)) || (a.isTail(ia.X) && isInt(ia.Index, 0))
}

func isInt(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	x, ok := constant.Int64Val(k.Value)
	return ok && x == n
}
