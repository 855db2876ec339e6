package main

// C22: no source of nondeterminism reaches the generated text.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var nondetPkgs = []string{"time", "math/rand", "math/rand/v2", "crypto/rand", "runtime", "os/user", "os/signal", "net", "os/exec", "syscall", "unsafe", "reflect", "sync", "sync/atomic", "context", "hash/maphash", "runtime/debug"}
var nondetFuncs = map[string]bool{
	"os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.ExpandEnv": true, "os.Getpid": true, "os.Getppid": true,
	"os.Hostname": true, "os.Getuid": true, "os.Getwd": true, "os.TempDir": true, "os.UserHomeDir": true, "os.Executable": true,
	"os.Stat": true, "os.Lstat": true, "os.CreateTemp": true, "os.MkdirTemp": true, "io/ioutil.TempFile": true, "io/ioutil.TempDir": true, "path/filepath.Abs": true,
	"(*os.File).Stat": true, "os.ReadDir": true, "io/ioutil.ReadDir": true, "path/filepath.Glob": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true, "maps.Keys": true, "maps.Values": true, "maps.All": true, "golang.org/x/exp/maps.Keys": true,
}

func (a *A) determinism() {
	const P = "C22"
	ranges := 0
	for _, f := range a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
					a.find(P, fmt.Sprintf("concurrency:%T@%s", in, f.RelString(nil)), a.pos(in), f.RelString(nil)+" uses concurrency, whose order is not an input of the generator")
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						a.find(P, "concurrency:recv@"+f.RelString(nil), a.pos(in), f.RelString(nil)+" receives from a channel")
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						ranges++
						a.mapRange(f, x)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if c.Common().IsInvoke() {
						a.stat(P, "interface_calls", 1)
						continue
					}
					g := c.Common().StaticCallee()
					if g == nil || a.isMod[g] {
						continue
					}
					a.stat(P, "external_call_sites", 1)
					name := g.RelString(nil)
					if name == "os.Open" || name == "os.ReadFile" || name == "io/ioutil.ReadFile" || name == "os.OpenFile" && readOnlyOpen(c.Common()) {
						a.stat(P, "file_reads", 1)
						a.want = ""
						if why := a.isRustOut(c.Common().Args[0], 0); why != "" {
							a.find(P, "read:"+name+"@"+f.RelString(nil), a.pos(in), fmt.Sprintf("%s reads a file that is not one of the configured inputs (%s)", f.RelString(nil), why))
						}
					}
					pk := pkgOf(g)
					bad := nondetFuncs[strings.SplitN(name, "[", 2)[0]]
					for _, p := range nondetPkgs {
						if pk == p {
							bad = true
						}
					}
					if bad {
						a.find(P, "source:"+name+"@"+f.RelString(nil), a.pos(in), fmt.Sprintf("%s calls %s: the result is not a function of the generator's input files", f.RelString(nil), name))
					}
				}
				// os.Args only in functions that decide whether to write
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil {
						n := g.RelString(nil)
						if n == "os.Args" {
							a.stat(P, "os_args_uses", 1)
							if u, ok := in.(*ssa.UnOp); !ok || !a.onlyCompared(u, 0) {
								a.find(P, "args@"+f.RelString(nil), a.pos(in), "command line arguments are used for more than the decision whether to write")
							}
						}
					}
				}
			}
		}
	}
	a.stat(P, "map_ranges", ranges)
	a.stat(P, "functions", len(a.funcs))
	if a.templateRendersMaps() {
		a.stat(P, "template_executes", 1)
	} else {
		a.find(P, "anchor:no-template", "codegen", "no text/template Execute found")
	}
}

func (a *A) templateRendersMaps() bool {
	for _, f := range a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && strings.HasPrefix(g.RelString(nil), "(*text/template.Template).Execute") {
						return true
					}
				}
			}
		}
	}
	return false
}

// onlyCompared: the slice of arguments flows only into len, indexing,
// comparisons and parameters with the same use.
func (a *A) onlyCompared(v ssa.Value, depth int) bool {
	if depth > 8 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.If:
		case *ssa.IndexAddr:
			if !a.onlyCompared(x, depth+1) {
				return false
			}
		case *ssa.UnOp:
			if !a.onlyCompared(x, depth+1) {
				return false
			}
		case *ssa.Slice:
			if !a.onlyCompared(x, depth+1) {
				return false
			}
		case *ssa.BinOp:
			if x.Op == token.SUB {
				if !a.onlyCompared(x, depth+1) {
					return false
				}
				continue
			}
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			default:
				return false
			}
		case *ssa.Call:
			if builtin(x.Common()) == "len" {
				if !a.onlyCompared(x, depth+1) {
					return false
				}
				continue
			}
			g := x.Common().StaticCallee()
			if g == nil || !a.isMod[g] {
				return false
			}
			for i, arg := range x.Common().Args {
				if arg == v && !a.onlyCompared(g.Params[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// mapRange accepts a loop over a map only when its effects commute: building
// a slice that is then sorted by a distinct key, counting, or filling a map.
func (a *A) mapRange(f *ssa.Function, r *ssa.Range) {
	const P = "C22"
	key := "maprange@" + f.RelString(nil)
	a.sample(P, fmt.Sprintf("map range in %s at %s", f.RelString(nil), a.pos(r)))
	// loop blocks: those in the natural loop of the block with Next
	var next *ssa.Next
	for _, ref := range *r.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	head := next.Block()
	loop := naturalLoop(head)
	bad := func(in ssa.Instruction, why string) {
		a.find(P, key, a.pos(in), fmt.Sprintf("in %s, %s inside a loop over a map: the result depends on map iteration order", f.RelString(nil), why))
	}
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate, *ssa.DebugRef, *ssa.Next, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.BinOp, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.Lookup, *ssa.UnOp, *ssa.MakeInterface, *ssa.Index:
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && a.allocSortedAfter(f, al, loop) {
					continue
				}
				if !storeLocalTo(x, loop) {
					bad(in, "a store to memory outside the loop")
				}
			case *ssa.Phi:
				if b != head {
					continue
				}
				// loop-carried value
				if !a.commutes(x, loop) && !a.sortedAfter(f, x, loop) {
					bad(in, "the loop-carried value "+x.Comment+" is built in iteration order and not sorted by a distinct key afterwards")
				}
			case *ssa.Call:
				if n := builtin(x.Common()); n != "" {
					switch n {
					case "append", "len", "cap", "delete", "min", "max":
						continue
					}
				}
				if g := x.Common().StaticCallee(); g != nil {
					if a.pure(g, map[*ssa.Function]bool{}) {
						continue
					}
					bad(in, "a call to "+g.RelString(nil))
				} else {
					bad(in, "a dynamic call")
				}
			case *ssa.Return, *ssa.Panic:
				// leaving early with a value picked by iteration order
				bad(in, "an early exit")
			default:
				bad(in, fmt.Sprintf("%T", in))
			}
		}
		for _, s := range b.Succs {
			if !loop[s] && b != head {
				if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok {
					continue
				}
				bad(b.Instrs[len(b.Instrs)-1], "an early exit")
			}
		}
	}
}

func naturalLoop(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{head: true}
	var st []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			st = append(st, p)
		}
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if loop[x] {
			continue
		}
		loop[x] = true
		st = append(st, x.Preds...)
	}
	return loop
}

func storeLocalTo(s *ssa.Store, loop map[*ssa.BasicBlock]bool) bool {
	v := s.Addr
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			if loop[x.Block()] {
				return true
			}
			// a variable of the enclosing function: fine when only used in the loop
			for _, r := range *x.Referrers() {
				if !loop[r.Block()] {
					return false
				}
			}
			return true
		default:
			return false
		}
	}
}

var sortFuncs = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true, "sort.Ints": true, "sort.Strings": true, "slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true}

// commutes: x = phi(init, x op e) for a commutative integer op, or a min/max pattern.
func (a *A) commutes(p *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	for i, e := range p.Edges {
		if !loop[p.Block().Preds[i]] || e == p {
			continue
		}
		if !a.commStep(e, p, 0) {
			return false
		}
	}
	return true
}

func (a *A) commStep(e ssa.Value, p *ssa.Phi, d int) bool {
	if e == p {
		return true
	}
	if d > 6 {
		return false
	}
	switch b := e.(type) {
	case *ssa.BinOp:
		switch b.Op {
		case token.ADD, token.OR, token.XOR, token.AND, token.MUL:
			return b.X == p || b.Y == p
		}
	case *ssa.Phi:
		for _, x := range b.Edges {
			if !a.commStep(x, p, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// sortedAfter: the slice leaves the loop only into a sort by a distinct key,
// placed so that every other use comes after it.
func (a *A) sortedAfter(f *ssa.Function, p *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	if _, ok := p.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	return a.sortedUses([]ssa.Value{p}, p.Type(), loop)
}

// allocSortedAfter: the same for a slice variable captured by a closure.
func (a *A) allocSortedAfter(f *ssa.Function, v *ssa.Alloc, loop map[*ssa.BasicBlock]bool) bool {
	t := v.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return false
	}
	var start []ssa.Value
	for _, r := range *v.Referrers() {
		if loop[r.Block()] {
			continue
		}
		switch x := r.(type) {
		case *ssa.UnOp:
			start = append(start, x)
		case *ssa.Store, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for _, q := range *x.Referrers() {
				switch y := q.(type) {
				case *ssa.DebugRef:
				case *ssa.Call:
					g := y.Common().StaticCallee()
					if g == nil || !sortFuncs[strings.SplitN(g.RelString(nil), "[", 2)[0]] {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return a.sortedUses(start, t, loop)
}

func (a *A) sortedUses(start []ssa.Value, typ types.Type, loop map[*ssa.BasicBlock]bool) bool {
	// collect aliases of the slice outside the loop (type changes, interface boxing)
	al := map[ssa.Value]bool{}
	var uses []ssa.Instruction
	work := start
	for _, s := range start {
		al[s] = true
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, r := range *v.Referrers() {
			if loop[r.Block()] {
				continue
			}
			switch x := r.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert:
				if !al[x.(ssa.Value)] {
					al[x.(ssa.Value)] = true
					work = append(work, x.(ssa.Value))
				}
			case *ssa.DebugRef:
			case *ssa.Store:
				// captured by a closure: the variable's other uses
				if alloc, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, q := range *alloc.Referrers() {
						if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL && !al[u] {
							al[u] = true
							work = append(work, u)
						}
					}
				} else {
					uses = append(uses, r)
				}
			case *ssa.Call:
				if g := x.Common().StaticCallee(); g != nil && (g.RelString(nil) == "sort.Reverse") {
					al[x] = true
					work = append(work, x)
					continue
				}
				uses = append(uses, r)
			default:
				uses = append(uses, r)
			}
		}
	}
	var srt ssa.Instruction
	for _, u := range uses {
		if c, ok := u.(*ssa.Call); ok {
			if g := c.Common().StaticCallee(); g != nil && sortFuncs[strings.SplitN(g.RelString(nil), "[", 2)[0]] {
				if !a.distinctOrder(c, typ) {
					return false
				}
				if srt == nil || c.Block().Dominates(srt.Block()) {
					srt = c
				}
			}
		}
	}
	if srt == nil {
		return false
	}
	for _, u := range uses {
		if u == srt {
			continue
		}
		if u.Block() == srt.Block() {
			for _, in := range u.Block().Instrs {
				if in == srt {
					break
				}
				if in == u {
					return false
				}
			}
		} else if !srt.Block().Dominates(u.Block()) {
			return false
		}
	}
	return true
}

// distinctOrder: the sort compares whole basic values, or a field whose value
// is unique among the map's keys (the block table's Low, High and Name, whose
// distinctness C24 establishes).
func (a *A) distinctOrder(c *ssa.Call, t types.Type) bool {
	elem := t.Underlying().(*types.Slice).Elem()
	if _, ok := elem.Underlying().(*types.Basic); ok {
		return true
	}
	// find the less function(s)
	var less []*ssa.Function
	for _, arg := range c.Common().Args {
		less = append(less, a.lessOf(arg, 0)...)
	}
	for _, l := range less {
		if l.Blocks == nil {
			continue
		}
		ok := false
		for _, b := range l.Blocks {
			for _, in := range b.Instrs {
				var xs []ssa.Value
				switch x := in.(type) {
				case *ssa.BinOp:
					if x.Op == token.LSS || x.Op == token.GTR || x.Op == token.LEQ || x.Op == token.GEQ {
						xs = []ssa.Value{x.X, x.Y}
					}
				case *ssa.Call:
					if g := x.Common().StaticCallee(); g != nil {
						n := strings.SplitN(g.RelString(nil), "[", 2)[0]
						if n == "cmp.Compare" || n == "strings.Compare" || n == "cmp.Less" {
							xs = x.Common().Args
						}
					}
				}
				if len(xs) == 2 && distinctField(xs[0]) != "" && distinctField(xs[0]) == distinctField(xs[1]) {
					ok = true
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func distinctField(v ssa.Value) string {
	var n string
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			n = fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
		}
	case *ssa.Field:
		n = x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	}
	switch n {
	case "Low", "High", "Name":
		return n
	}
	return ""
}

func (a *A) lessOf(v ssa.Value, d int) []*ssa.Function {
	if d > 5 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.Call:
		var out []*ssa.Function
		for _, g := range x.Common().Args {
			out = append(out, a.lessOf(g, d+1)...)
		}
		return out
	case *ssa.MakeInterface:
		ms := a.prog.MethodSets.MethodSet(x.X.Type())
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "Less" {
				if m := a.prog.MethodValue(ms.At(i)); m != nil {
					return []*ssa.Function{a.origin(m)}
				}
			}
		}
	}
	return nil
}

// pure: no stores outside locals, no map updates, no calls except pure ones
// and a list of side-effect-free library functions.
func (a *A) pure(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if !a.isMod[f] {
		switch pkgOf(f) {
		case "strings", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "bytes", "sort", "slices", "cmp":
			return true
		}
		return f.RelString(nil) == "fmt.Sprintf" || f.RelString(nil) == "fmt.Sprint"
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				return false
			case *ssa.Call:
				if builtin(x.Common()) != "" {
					continue
				}
				g := x.Common().StaticCallee()
				if g == nil || !a.pure(g, seen) {
					return false
				}
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return true
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
}
