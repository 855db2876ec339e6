package main

// C13 (generator side): the cluster hash is Murmur3 over code points.  The
// function is turned into a normal form -- value before the loop, change per
// character, value after the loop -- and compared with the algorithm's.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T is a 32-bit term in normal form; equal terms print equally.
type T struct {
	op   string // var const aff xor rotl shr opaque
	a, b uint32 // aff: a*t+b ; rotl/shr: a ; const: a ; xor: constant part a
	ts   []*T
	name string
}

func (t *T) String() string {
	switch t.op {
	case "var":
		return t.name
	case "const":
		return fmt.Sprintf("%#x", t.a)
	case "aff":
		return fmt.Sprintf("(%#x*%s+%#x)", t.a, t.ts[0], t.b)
	case "rotl", "shr":
		return fmt.Sprintf("%s(%s,%d)", t.op, t.ts[0], t.a)
	case "xor":
		var s []string
		for _, x := range t.ts {
			s = append(s, x.String())
		}
		return fmt.Sprintf("xor(%s,%#x)", strings.Join(s, ","), t.a)
	}
	return t.op + ":" + t.name
}

func tv(n string) *T  { return &T{op: "var", name: n} }
func tc(v uint32) *T  { return &T{op: "const", a: v} }
func top(n string) *T { return &T{op: "opaque", name: n} }
func aff(t *T, a, b uint32) *T {
	switch t.op {
	case "const":
		return tc(t.a*a + b)
	case "aff":
		return aff(t.ts[0], t.a*a, t.b*a+b)
	}
	if a == 0 {
		return tc(b)
	}
	if a == 1 && b == 0 {
		return t
	}
	return &T{op: "aff", a: a, b: b, ts: []*T{t}}
}
func xor(xs ...*T) *T {
	k := uint32(0)
	m := map[string]*T{}
	var add func(t *T)
	add = func(t *T) {
		switch t.op {
		case "const":
			k ^= t.a
		case "xor":
			k ^= t.a
			for _, q := range t.ts {
				add(q)
			}
		default:
			s := t.String()
			if _, dup := m[s]; dup {
				delete(m, s)
			} else {
				m[s] = t
			}
		}
	}
	for _, x := range xs {
		add(x)
	}
	var keys []string
	for s := range m {
		keys = append(keys, s)
	}
	sort.Strings(keys)
	var ts []*T
	for _, s := range keys {
		ts = append(ts, m[s])
	}
	// shl(t,n) xor shr(t,32-n) is a rotation
	for i, p := range ts {
		for j, q := range ts {
			if q.op == "shr" && p.op == "aff" && p.b == 0 && q.a > 0 && p.a == 1<<(32-q.a) && p.ts[0].String() == q.ts[0].String() {
				rest := []*T{tc(k), rotl(p.ts[0], 32-q.a)}
				for l, r := range ts {
					if l != i && l != j {
						rest = append(rest, r)
					}
				}
				return xor(rest...)
			}
		}
	}
	if len(ts) == 0 {
		return tc(k)
	}
	if len(ts) == 1 && k == 0 {
		return ts[0]
	}
	return &T{op: "xor", a: k, ts: ts}
}
func rotl(t *T, n uint32) *T {
	n &= 31
	if n == 0 {
		return t
	}
	switch t.op {
	case "const":
		return tc(t.a<<n | t.a>>(32-n))
	case "rotl":
		return rotl(t.ts[0], n+t.a)
	}
	return &T{op: "rotl", a: n, ts: []*T{t}}
}
func shr(t *T, n uint32) *T {
	if n == 0 {
		return t
	}
	if n >= 32 {
		return tc(0)
	}
	if t.op == "const" {
		return tc(t.a >> n)
	}
	return &T{op: "shr", a: n, ts: []*T{t}}
}
func add(x, y *T) *T {
	if y.op == "const" {
		return aff(x, 1, y.a)
	}
	if x.op == "const" {
		return aff(y, 1, x.a)
	}
	// same base: a*t+b + c*t+d
	bx, ax, cx := base(x)
	by, ay, cy := base(y)
	if bx.String() == by.String() {
		return aff(bx, ax+ay, cx+cy)
	}
	// shl + shr of the same value: rotation
	for _, p := range [][2]*T{{x, y}, {y, x}} {
		if r := rot(p[0], p[1]); r != nil {
			return r
		}
	}
	return top("sum(" + x.String() + "," + y.String() + ")")
}
func rot(p, q *T) *T {
	if q.op == "shr" && p.op == "aff" && p.b == 0 && q.a > 0 && p.a == 1<<(32-q.a) && p.ts[0].String() == q.ts[0].String() {
		return rotl(p.ts[0], 32-q.a)
	}
	return nil
}
func base(t *T) (*T, uint32, uint32) {
	if t.op == "aff" {
		return t.ts[0], t.a, t.b
	}
	return t, 1, 0
}

func refStep(h, c *T) *T {
	k := aff(rotl(aff(c, 0xcc9e2d51, 0), 15), 0x1b873593, 0)
	return aff(rotl(xor(h, k), 13), 5, 0xe6546b64)
}
func refFin(h, n *T) *T {
	h = xor(h, n)
	h = aff(xor(h, shr(h, 16)), 0x85ebca6b, 0)
	h = aff(xor(h, shr(h, 13)), 0xc2b2ae35, 0)
	return xor(h, shr(h, 16))
}

type hev struct {
	a     *A
	env   map[ssa.Value]*T
	depth int
}

func (e *hev) eval(v ssa.Value) *T {
	if t, ok := e.env[v]; ok {
		return t
	}
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 200 {
		return top("deep")
	}
	t := e.eval1(v)
	e.env[v] = t
	return t
}

func (e *hev) eval1(v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if u, ok := constant.Uint64Val(x.Value); ok {
				return tc(uint32(u))
			}
			if i, ok := constant.Int64Val(x.Value); ok {
				return tc(uint32(i))
			}
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return e.eval(x.X)
		}
	case *ssa.ChangeType:
		return e.eval(x.X)
	case *ssa.BinOp:
		l, r := e.eval(x.X), e.eval(x.Y)
		switch x.Op {
		case token.MUL:
			if r.op == "const" {
				return aff(l, r.a, 0)
			}
			if l.op == "const" {
				return aff(r, l.a, 0)
			}
		case token.ADD:
			return add(l, r)
		case token.SUB:
			return add(l, aff(r, 0xffffffff, 0))
		case token.XOR:
			return xor(l, r)
		case token.OR:
			if q := rot(l, r); q != nil {
				return q
			}
			if q := rot(r, l); q != nil {
				return q
			}
		case token.SHL:
			if r.op == "const" {
				if r.a >= 32 {
					return tc(0)
				}
				return aff(l, 1<<r.a, 0)
			}
		case token.SHR:
			if r.op == "const" {
				return shr(l, r.a)
			}
		}
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 && n.IsString {
			return tv("char")
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && isRunes(ia.X) {
			return tv("char")
		}
	case *ssa.Call:
		if builtin(x.Common()) == "len" {
			if _, ok := x.Common().Args[0].(*ssa.Parameter); ok && isString(x.Common().Args[0].Type()) {
				return tv("bytelen")
			}
			return top("len of something else than the key")
		}
		g := x.Common().StaticCallee()
		if g == nil {
			break
		}
		if strings.HasPrefix(g.RelString(nil), "math/bits.RotateLeft") && g.Name() == "RotateLeft32" {
			if n := e.eval(x.Common().Args[1]); n.op == "const" {
				return rotl(e.eval(x.Common().Args[0]), n.a)
			}
		}
		if e.a.isMod[g] && len(g.Blocks) == 1 {
			sub := &hev{e.a, map[ssa.Value]*T{}, e.depth}
			for i, p := range g.Params {
				if isString(p.Type()) {
					continue
				}
				sub.env[p] = e.eval(x.Common().Args[i])
			}
			if r, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				return sub.eval(r.Results[0])
			}
		}
	case *ssa.Phi:
		var first *T
		for _, ed := range x.Edges {
			t := e.eval(ed)
			if first == nil {
				first = t
			} else if first.String() != t.String() {
				return top("phi")
			}
		}
		return first
	}
	return top(v.Name())
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isRunes(v ssa.Value) bool {
	c, ok := v.(*ssa.Convert)
	if !ok || !isString(c.X.Type()) {
		return false
	}
	s, ok := c.Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (a *A) hash() {
	const P = "C13"
	n := 0
	for _, f := range a.funcs {
		sg := f.Signature
		if sg.Recv() != nil || sg.Params().Len() != 2 || sg.Results().Len() != 1 || !isString(sg.Params().At(0).Type()) {
			continue
		}
		if !isU32(sg.Params().At(1).Type()) || !isU32(sg.Results().At(0).Type()) {
			continue
		}
		n++
		a.hashFn(P, f)
	}
	a.stat(P, "go_hash_functions", n)
	if n == 0 {
		a.find(P, "anchor:go-hash", "codegen/lib", "no function (string, uint32) uint32 computes the cluster hash in the generator")
	}
}

func isU32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

func (a *A) hashFn(P string, f *ssa.Function) {
	key := f.RelString(nil)
	say := func(k, m string) { a.find(P, "go:"+k+"@"+key, a.pos(f), m) }
	// find the loop
	var heads []*ssa.BasicBlock
	for _, b := range f.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				heads = append(heads, b)
				break
			}
		}
	}
	if len(heads) == 0 && len(f.Blocks) == 1 {
		// pure wrapper around another hash function?
		if r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok {
			if c, ok := r.Results[0].(*ssa.Call); ok {
				g := c.Common().StaticCallee()
				if g != nil && a.isMod[g] && len(c.Common().Args) == 2 && c.Common().Args[0] == f.Params[0] && c.Common().Args[1] == f.Params[1] {
					return
				}
			}
		}
	}
	if len(heads) != 1 {
		say("loops", fmt.Sprintf("%s has %d loops where one over the characters is expected", key, len(heads)))
		return
	}
	head := heads[0]
	loop := naturalLoop(head)
	// the loop must visit every character: range over the string, or index
	// loop 0..len over []rune(key)
	seen := ""
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				if r, ok := x.Iter.(*ssa.Range); ok && x.IsString && r.X == f.Params[0] {
					seen = "range"
				}
			case *ssa.IndexAddr:
				if isRunes(x.X) && x.X.(*ssa.Convert).X == f.Params[0] {
					seen = "runes"
				}
			case *ssa.If:
				if b != head {
					say("branch", fmt.Sprintf("%s treats some characters differently (branch at %s)", key, a.pos(x)))
					return
				}
			}
		}
	}
	if seen == "" {
		say("chars", key+" does not visit the characters of its argument")
		return
	}
	e := &hev{a, map[ssa.Value]*T{}, 0}
	e.env[f.Params[1]] = tv("seed")
	// header phis: carried state
	type carried struct {
		p          *ssa.Phi
		init, step ssa.Value
	}
	var cs []carried
	for _, in := range head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		c := carried{p: p}
		for i, ed := range p.Edges {
			if loop[head.Preds[i]] {
				c.step = ed
			} else {
				c.init = ed
			}
		}
		if isU32(p.Type()) {
			e.env[p] = tv("h:" + p.Name())
			cs = append(cs, c)
		} else {
			e.env[p] = top("index")
		}
	}
	// the carried value the result depends on
	var ret *ssa.Return
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if ret != nil {
				say("returns", key+" returns at more than one place")
				return
			}
			ret = r
		}
	}
	if ret == nil || len(ret.Results) != 1 {
		say("returns", key+" never returns")
		return
	}
	out := e.eval(ret.Results[0]).String()
	ok := false
	for _, c := range cs {
		hv := e.env[c.p]
		if out != refFin(hv, tv("bytelen")).String() {
			continue
		}
		ok = true
		init := (&hev{a, map[ssa.Value]*T{f.Params[1]: tv("seed")}, 0}).eval(c.init).String()
		step := e.eval(c.step).String()
		a.stat(P, "go_terms_compared", 3)
		a.sample(P, fmt.Sprintf("%s: init %s; step %s; final %s", key, init, step, out))
		if init != "seed" {
			say("init", fmt.Sprintf("%s starts from %s instead of the seed", key, init))
		}
		if want := refStep(hv, tv("char")).String(); step != want {
			say("step", fmt.Sprintf("%s mixes a character as %s, Murmur3 as %s", key, step, want))
		}
	}
	if !ok {
		say("final", fmt.Sprintf("%s finishes with %s, which is not Murmur3's finalisation with the byte length", key, out))
	}
	if seen == "runes" {
		// index loop: from 0, step 1, to len
		okIdx := false
		for _, in := range head.Instrs {
			if p, isPhi := in.(*ssa.Phi); isPhi && !isU32(p.Type()) {
				for i, ed := range p.Edges {
					if !loop[head.Preds[i]] && (isInt(ed, -1) || isInt(ed, 0)) {
						okIdx = true
					}
				}
			}
		}
		if !okIdx {
			say("index", key+" does not start at the first character")
		}
	}
}
