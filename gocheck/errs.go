package main

// C23: no error result is dropped, and an error leads to a panic (or a
// non-zero exit), possibly after being handed to the caller.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// Calls whose error is of no consequence for the generated files: console
// output, in-memory buffers that document that they never fail.
func exemptCall(c *ssa.CallCommon) string {
	g := c.StaticCallee()
	if g == nil {
		return ""
	}
	n := g.RelString(nil)
	switch n {
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return "console output"
	case "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint":
		if isStdStream(c.Args[0]) {
			return "console output"
		}
		if isMemBuffer(c.Args[0]) {
			return "in-memory buffer"
		}
	case "fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap":
		return "constructor"
	}
	if strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") {
		return "in-memory buffer"
	}
	if n == "(*os.File).Close" && openedReadOnly(c.Args[0], 0) {
		return "closing a file opened for reading"
	}
	return ""
}

func isStdStream(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			n := g.RelString(nil)
			return n == "os.Stdout" || n == "os.Stderr"
		}
	}
	return false
}

func isMemBuffer(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		s := types.TypeString(m.X.Type(), nil)
		return s == "*bytes.Buffer" || s == "*strings.Builder"
	}
	return false
}

func openedReadOnly(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		g := c.Common().StaticCallee()
		return g != nil && (g.RelString(nil) == "os.Open" || g.RelString(nil) == "os.OpenFile" && readOnlyOpen(c.Common()))
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !openedReadOnly(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					n++
					if !openedReadOnly(s.Val, d+1) {
						return false
					}
				}
			}
			return n > 0
		}
	}
	return false
}

func (a *A) errors() {
	const P = "C23"
	sites := 0
	for _, f := range a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if bi := builtin(cc); bi != "" {
					if bi == "recover" {
						a.find(P, "recover@"+f.RelString(nil), a.pos(in), f.RelString(nil)+" calls recover, so a failure no longer stops the run")
					}
					continue
				}
				res := cc.Signature().Results()
				k := -1
				for i := 0; i < res.Len(); i++ {
					if isErr(res.At(i).Type()) {
						k = i
					}
				}
				if k < 0 {
					continue
				}
				name := "dynamic call"
				if g := cc.StaticCallee(); g != nil {
					name = g.RelString(nil)
				} else if cc.IsInvoke() {
					name = cc.Method.FullName()
				}
				if why := exemptCall(cc); why != "" {
					a.stat(P, "exempt_sites", 1)
					a.sample(P, fmt.Sprintf("exempt (%s): %s in %s", why, name, f.RelString(nil)))
					continue
				}
				sites++
				a.sample(P, fmt.Sprintf("error of %s in %s at %s", name, f.RelString(nil), a.pos(in)))
				if why := a.handled(in, k, res.Len()); why != "" {
					a.find(P, "error:"+name+"@"+f.RelString(nil), a.pos(in), fmt.Sprintf("the error of %s in %s %s", name, f.RelString(nil), why))
				}
			}
		}
	}
	a.stat(P, "error_sites", sites)
	if sites < 6 {
		a.find(P, "anchor:error-sites", "codegen", fmt.Sprintf("only %d error results found, the generator has at least 6 failing operations", sites))
	}
	a.searches()
	a.spriteBounds()
}

// handled: "" if the error value of the call is dealt with on every path.
func (a *A) handled(in ssa.Instruction, k, n int) string {
	v, ok := in.(ssa.Value)
	if !ok {
		return "is dropped (deferred or spawned call)"
	}
	var ev ssa.Value
	if n == 1 {
		ev = v
	} else {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Extract:
				if x.Index == k {
					ev = x
				}
			case *ssa.Return:
				return "" // returned as a whole: the caller's call site is checked
			}
		}
	}
	if ev == nil {
		return "is never looked at"
	}
	return a.errFlow(ev, in, map[ssa.Value]bool{})
}

// errFlow follows every path from the definition; on each one the error must
// be tested against nil (with the non-nil side ending the run or returning the
// error), returned, or handed to a function that deals with it, before the
// function is left or the definition is reached again.
func (a *A) errFlow(ev ssa.Value, def ssa.Instruction, seen map[ssa.Value]bool) string {
	if seen[ev] {
		return ""
	}
	seen[ev] = true
	fn := def.Parent()
	alias := aliases(ev)
	type st struct {
		b *ssa.BasicBlock
		i int
	}
	start := st{def.Block(), 0}
	for i, x := range def.Block().Instrs {
		if x == def {
			start.i = i + 1
		}
	}
	visited := map[*ssa.BasicBlock]bool{}
	work := []st{start}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		done := false
		for i := s.i; i < len(s.b.Instrs) && !done; i++ {
			x := s.b.Instrs[i]
			if x == def && !(s.b == start.b && s.i == start.i) {
				return "can be overwritten by a repetition of the call before it is tested"
			}
			switch y := x.(type) {
			case *ssa.Return:
				for _, r := range y.Results {
					if alias[r] {
						done = true
					}
				}
				if !done {
					return "is still untested when " + fn.RelString(nil) + " returns at " + a.pos(x)
				}
			case *ssa.Panic:
				done = true
			case ssa.CallInstruction:
				if a.noReturn(y, 0) {
					done = true
					break
				}
				for ai, arg := range y.Common().Args {
					if alias[arg] && a.consumes(y, ai) {
						done = true
					}
				}
			case *ssa.If:
				if side, ok := nilTest(y.Cond, alias, 0); ok {
					// side: successor index on which the error is non-nil
					if w := a.stops(y.Block().Succs[side], alias, fn); w != "" {
						return "is tested at " + a.pos(y.Cond.(ssa.Instruction)) + " but a failure " + w
					}
					done = true
				}
			}
		}
		if done {
			continue
		}
		for _, q := range s.b.Succs {
			if !visited[q] {
				visited[q] = true
				work = append(work, st{q, 0})
			}
		}
	}
	return ""
}

// aliases: the value itself, phis and variables it flows through unchanged.
func aliases(ev ssa.Value) map[ssa.Value]bool {
	al := map[ssa.Value]bool{ev: true}
	work := []ssa.Value{ev}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				if !al[x] {
					al[x] = true
					work = append(work, x)
				}
			case *ssa.MakeInterface:
				if !al[x] {
					al[x] = true
					work = append(work, x)
				}
			case *ssa.ChangeInterface:
				if !al[x] {
					al[x] = true
					work = append(work, x)
				}
			case *ssa.Call:
				// wrapping keeps the failure
				if g := x.Common().StaticCallee(); g != nil {
					switch g.RelString(nil) {
					case "fmt.Errorf", "errors.Join":
						if !al[x] {
							al[x] = true
							work = append(work, x)
						}
					}
				}
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, q := range *a.Referrers() {
						if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL && !al[u] {
							al[u] = true
							work = append(work, u)
						}
					}
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && x.Val == v {
					// variadic argument slice
					if arr, ok := ia.X.(*ssa.Alloc); ok {
						for _, q := range *arr.Referrers() {
							if sl, ok := q.(*ssa.Slice); ok && !al[sl] {
								al[sl] = true
								work = append(work, sl)
							}
						}
					}
				}
			}
		}
	}
	return al
}

// nilTest: does the condition test an alias against nil, and which successor
// is taken when it is non-nil?
func nilTest(c ssa.Value, al map[ssa.Value]bool, d int) (int, bool) {
	switch x := c.(type) {
	case *ssa.BinOp:
		var o ssa.Value
		if al[x.X] {
			o = x.Y
		} else if al[x.Y] {
			o = x.X
		} else {
			return 0, false
		}
		k, ok := o.(*ssa.Const)
		if !ok || !k.IsNil() {
			return 0, false
		}
		if x.Op == token.NEQ {
			return 0, true
		}
		if x.Op == token.EQL {
			return 1, true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			s, ok := nilTest(x.X, al, d+1)
			return 1 - s, ok
		}
	}
	return 0, false
}

// stops: every path from the block panics, exits with a failure status or
// returns the error; "" if so.
func (a *A) stops(b *ssa.BasicBlock, al map[ssa.Value]bool, fn *ssa.Function) string {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		done := false
		for _, in := range x.Instrs {
			switch y := in.(type) {
			case *ssa.Panic:
				done = true
			case *ssa.Return:
				for _, r := range y.Results {
					if isErr(r.Type()) && (al[r] || nonNilErr(r)) {
						done = true
					}
				}
				if !done {
					return "lets " + fn.RelString(nil) + " return normally at " + a.pos(in)
				}
			case ssa.CallInstruction:
				if a.noReturn(y, 0) {
					done = true
				}
			}
			if done {
				break
			}
		}
		if done {
			continue
		}
		if len(x.Succs) == 1 || len(x.Succs) == 2 {
			work = append(work, x.Succs...)
		}
	}
	// a path that never leaves (loop) without stopping counts as continuing;
	// reaching here means every finite path stopped
	return ""
}

func nonNilErr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		if g := x.Common().StaticCallee(); g != nil {
			n := g.RelString(nil)
			return n == "fmt.Errorf" || n == "errors.New"
		}
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global) // sentinel error variable
		return ok
	}
	return false
}

// noReturn: panics, os.Exit with a non-zero constant, log.Fatal/Panic, or a
// module function none of whose paths returns.
func (a *A) noReturn(c ssa.CallInstruction, d int) bool {
	if _, ok := c.(*ssa.Call); !ok {
		return false
	}
	g := c.Common().StaticCallee()
	if g == nil || d > 6 {
		return false
	}
	n := g.RelString(nil)
	switch {
	case n == "os.Exit":
		k, ok := c.Common().Args[0].(*ssa.Const)
		if !ok {
			return false
		}
		v, _ := constant.Int64Val(k.Value)
		return v != 0
	case strings.HasPrefix(n, "log.Fatal"), strings.HasPrefix(n, "log.Panic"):
		return true
	}
	if !a.isMod[g] {
		return false
	}
	for _, b := range g.Blocks {
		stop := false
		for _, in := range b.Instrs {
			if q, ok := in.(ssa.CallInstruction); ok && a.noReturn(q, d+1) {
				stop = true
			}
			if _, ok := in.(*ssa.Return); ok && !stop && reachableNoStop(a, b, d) {
				return false
			}
		}
	}
	return true
}

func reachableNoStop(a *A, to *ssa.BasicBlock, d int) bool {
	f := to.Parent()
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		stop := false
		for _, in := range x.Instrs {
			if q, ok := in.(ssa.CallInstruction); ok && a.noReturn(q, d+1) {
				stop = true
			}
		}
		if stop {
			continue
		}
		if x == to {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// consumes: the callee deals with an error passed to it.
func (a *A) consumes(c ssa.CallInstruction, i int) bool {
	g := c.Common().StaticCallee()
	if g == nil {
		return false
	}
	switch g.RelString(nil) {
	case "text/template.Must", "html/template.Must":
		return true
	}
	if !a.isMod[g] || i >= len(g.Params) || !isErr(g.Params[i].Type()) {
		return false
	}
	if len(g.Blocks) == 0 {
		return false
	}
	// treat the parameter as freshly defined at the entry
	p := g.Params[i]
	return a.paramHandled(g, p) == ""
}

func (a *A) paramHandled(g *ssa.Function, p *ssa.Parameter) string {
	al := aliases(p)
	visited := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{g.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if visited[b] {
			continue
		}
		visited[b] = true
		done := false
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Return:
				for _, r := range y.Results {
					if al[r] {
						done = true
					}
				}
				if !done {
					return "returns"
				}
			case *ssa.Panic:
				done = true
			case ssa.CallInstruction:
				if a.noReturn(y, 0) {
					done = true
					break
				}
				for ai, arg := range y.Common().Args {
					if al[arg] && y.Common().StaticCallee() != g && a.consumes(y, ai) {
						done = true
					}
				}
			case *ssa.If:
				if side, ok := nilTest(y.Cond, al, 0); ok {
					if w := a.stops(b.Succs[side], al, g); w != "" {
						return w
					}
					done = true
				}
			}
			if done {
				break
			}
		}
		if !done {
			work = append(work, b.Succs...)
		}
	}
	return ""
}

// searches: a sort.Search result is used as an index only where the found
// element has been compared with the wanted key (otherwise a missing cluster
// would silently yield its neighbour's glyph).
func (a *A) searches() {
	const P = "C23"
	for _, f := range a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.RelString(nil) != "sort.Search" {
					continue
				}
				a.stat(P, "search_sites", 1)
				for _, r := range *c.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					if !flowsToReturn(ia, 0) {
						continue
					}
					okEq := false
					for _, e := range dominatingEdges(ia.Block()) {
						if impliesEq(e.cond, e.truth, c, 0) {
							okEq = true
						}
					}
					if !okEq {
						a.find(P, "search@"+f.RelString(nil), a.pos(ia), f.RelString(nil)+" uses the position found by sort.Search without having compared the element there with the key")
					}
				}
			}
		}
	}
}

func flowsToReturn(v ssa.Value, d int) bool {
	if d > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Return:
			return true
		case *ssa.FieldAddr:
			if flowsToReturn(x, d+1) {
				return true
			}
		case *ssa.UnOp:
			if flowsToReturn(x, d+1) {
				return true
			}
		case *ssa.Field:
			if flowsToReturn(x, d+1) {
				return true
			}
		case *ssa.Phi:
			if flowsToReturn(x, d+1) {
				return true
			}
		}
	}
	return false
}

func impliesEq(v ssa.Value, truth bool, idx ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return impliesEq(x.X, !truth, idx, d+1)
		}
	case *ssa.BinOp:
		if (x.Op == token.EQL && truth) || (x.Op == token.NEQ && !truth) {
			return loadsElem(x.X, idx, 0) || loadsElem(x.Y, idx, 0)
		}
	case *ssa.Phi:
		n := 0
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) != truth {
				continue
			}
			n++
			ok := impliesEq(e, truth, idx, d+1)
			for _, ce := range dominatingEdges(x.Block().Preds[i]) {
				ok = ok || impliesEq(ce.cond, ce.truth, idx, d+1)
			}
			if !ok {
				return false
			}
		}
		return n > 0
	}
	return false
}

func loadsElem(v ssa.Value, idx ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return loadsElem(x.X, idx, d+1)
	case *ssa.FieldAddr:
		return loadsElem(x.X, idx, d+1)
	case *ssa.Field:
		return loadsElem(x.X, idx, d+1)
	case *ssa.IndexAddr:
		return x.Index == idx
	}
	return false
}

// spriteBounds: reading a pixel outside the sheet yields colour zero, which
// would be taken for a set pixel, so every At of an image must come after a
// check against the image's bounds that stops the run.
func (a *A) spriteBounds() {
	const P = "C23"
	n := 0
	for _, f := range a.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() || c.Common().Method.Name() != "At" || !strings.Contains(c.Common().Method.FullName(), "image.Image") {
					continue
				}
				n++
				if !a.boundsChecked(in, map[*ssa.Function]bool{}) {
					a.find(P, "sprite-bounds@"+f.RelString(nil), a.pos(in), f.RelString(nil)+" reads sprite pixels on a path without a check of the grid cell against the image bounds")
				}
			}
		}
	}
	a.stat(P, "sprite_reads", n)
}

func (a *A) boundsChecked(in ssa.Instruction, seen map[*ssa.Function]bool) bool {
	for _, e := range dominatingEdges(in.Block()) {
		if derivesFromBounds(e.cond, 0, map[ssa.Value]bool{}) {
			other := e.at.Block().Succs[0]
			if e.truth {
				other = e.at.Block().Succs[1]
			}
			if a.stops(other, map[ssa.Value]bool{}, in.Parent()) == "" {
				return true
			}
		}
	}
	f := in.Parent()
	if seen[f] {
		return true
	}
	seen[f] = true
	cs := a.callers[f]
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if !a.boundsChecked(c, seen) {
			return false
		}
	}
	return true
}

func derivesFromBounds(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if d > 20 || seen[v] {
		return false
	}
	seen[v] = true
	if c, ok := v.(*ssa.Call); ok {
		if c.Common().IsInvoke() && c.Common().Method.Name() == "Bounds" {
			return true
		}
		if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if q, ok := in.(*ssa.Call); ok && q.Common().IsInvoke() && q.Common().Method.Name() == "Bounds" {
						return true
					}
				}
			}
		}
	}
	if al, ok := v.(*ssa.Alloc); ok {
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Store); ok && derivesFromBounds(s.Val, d+1, seen) {
				return true
			}
		}
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && derivesFromBounds(*o, d+1, seen) {
			return true
		}
	}
	return false
}
