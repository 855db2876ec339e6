package main

// C24: the block table, its partition property and the lookup function.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (a *A) blocks() {
	const P = "C24"
	var tables int
	var all []Block
	var where string
	for _, p := range a.pkgs {
		for _, file := range p.Syntax {
			ast.Inspect(file, func(n ast.Node) bool {
				cl, ok := n.(*ast.CompositeLit)
				if !ok {
					return true
				}
				t := p.TypesInfo.TypeOf(cl)
				var elem types.Type
				switch u := t.Underlying().(type) {
				case *types.Slice:
					elem = u.Elem()
				case *types.Array:
					elem = u.Elem()
				default:
					return true
				}
				st, ok := elem.Underlying().(*types.Struct)
				if !ok || st.NumFields() != 3 || st.Field(0).Name() != "Low" || st.Field(1).Name() != "High" || len(cl.Elts) == 0 {
					return true
				}
				tables++
				where = a.prog.Fset.Position(cl.Pos()).String()
				for _, e := range cl.Elts {
					el, ok := e.(*ast.CompositeLit)
					if !ok {
						a.find(P, "table:non-literal", where, "an entry of the block table is not a literal")
						continue
					}
					b := Block{}
					for i, fe := range el.Elts {
						name := st.Field(i).Name()
						val := fe
						if kv, ok := fe.(*ast.KeyValueExpr); ok {
							name = kv.Key.(*ast.Ident).Name
							val = kv.Value
						}
						cv := p.TypesInfo.Types[val].Value
						if cv == nil {
							a.find(P, "table:non-constant", where, "an entry of the block table is not constant")
							continue
						}
						switch name {
						case "Low":
							b.Low, _ = constant.Uint64Val(cv)
						case "High":
							b.High, _ = constant.Uint64Val(cv)
						case "Name":
							b.Name = constant.StringVal(cv)
						}
					}
					all = append(all, b)
				}
				return false
			})
		}
	}
	a.rep.Blocks = all
	a.stat(P, "tables", tables)
	a.stat(P, "blocks", len(all))
	if tables == 0 || len(all) < 30 {
		a.find(P, "anchor:block-table", "codegen/lib", fmt.Sprintf("the Unicode block table was not found (%d tables, %d entries)", tables, len(all)))
	}
	names := map[string]Block{}
	srt := append([]Block{}, all...)
	sort.Slice(srt, func(i, j int) bool { return srt[i].Low < srt[j].Low })
	for i, b := range srt {
		a.stat(P, "pairs_checked", 1)
		if b.Low > b.High {
			a.find(P, "inverted:"+b.Name, where, fmt.Sprintf("block %s has low %X above high %X", b.Name, b.Low, b.High))
		}
		if i > 0 && srt[i-1].High >= b.Low {
			a.find(P, "overlap:"+srt[i-1].Name+"/"+b.Name, where, fmt.Sprintf("blocks %s (..%X) and %s (%X..) overlap", srt[i-1].Name, srt[i-1].High, b.Name, b.Low))
		}
		if o, dup := names[b.Name]; dup {
			a.find(P, "dupname:"+b.Name, where, fmt.Sprintf("blocks %X and %X share the name %s", o.Low, b.Low, b.Name))
		}
		names[b.Name] = b
	}
	// the lookup: every function returning a block for a code point returns
	// one whose Low <= c <= High has been tested
	n := 0
	for _, f := range a.funcs {
		sg := f.Signature
		if sg.Results().Len() < 1 || sg.Params().Len() != 1 || sg.Recv() != nil {
			continue
		}
		if st, ok := sg.Results().At(0).Type().Underlying().(*types.Struct); !ok || st.NumFields() != 3 || st.Field(0).Name() != "Low" {
			continue
		}
		if b, ok := sg.Params().At(0).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		n++
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			a.stat(P, "lookup_returns", 1)
			low, high := false, false
			for _, e := range dominatingEdges(b) {
				l, h := rangeTest(e.cond, e.truth, f.Params[0], r.Results[0], 0)
				low = low || l
				high = high || h
			}
			if !low || !high {
				a.find(P, "lookup@"+f.RelString(nil), a.pos(r), fmt.Sprintf("%s returns a block without having established low <= c <= high for it (low %v, high %v)", f.RelString(nil), low, high))
			}
		}
	}
	a.stat(P, "lookup_functions", n)
	if n == 0 {
		a.find(P, "anchor:lookup", "codegen/lib", "no function maps a code point to its block")
	}
}

// rangeTest: which of Low <= c and c <= High does the branch outcome establish?
func rangeTest(v ssa.Value, truth bool, c ssa.Value, blk ssa.Value, d int) (low, high bool) {
	if d > 6 {
		return
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return rangeTest(x.X, !truth, c, blk, d+1)
		}
	case *ssa.Phi: // short-circuit and/or
		first := true
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) != truth {
				continue
			}
			l, h := rangeTest(e, truth, c, blk, d+1)
			p := x.Block().Preds[i]
			for _, ce := range dominatingEdges(p) {
				l2, h2 := rangeTest(ce.cond, ce.truth, c, blk, d+1)
				l, h = l || l2, h || h2
			}
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				l2, h2 := rangeTest(iff.Cond, p.Succs[0] == x.Block(), c, blk, d+1)
				l, h = l || l2, h || h2
			}
			if first {
				low, high, first = l, h, false
			} else {
				low, high = low && l, high && h
			}
		}
	case *ssa.BinOp:
		l, r, op := x.X, x.Y, x.Op
		if !truth {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
		}
		if op == token.GEQ {
			l, r, op = r, l, token.LEQ
		}
		if op != token.LEQ {
			return
		}
		if fieldName(l) == "Low" && strip(r) == c {
			low = true
		}
		if strip(l) == c && fieldName(r) == "High" {
			high = true
		}
	}
	return
}

func strip(v ssa.Value) ssa.Value {
	for {
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
			continue
		}
		return v
	}
}

func fieldName(v ssa.Value) string {
	v = strip(v)
	switch x := v.(type) {
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
		}
	}
	return ""
}
