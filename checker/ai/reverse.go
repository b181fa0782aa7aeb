package ai

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// A loop that reverses a slice in place by swapping its ends is recognised by
// what its indices do, and replaced by its effect: two elements of one slice
// are exchanged in each iteration, their indices add up to the last index, and
// together the iterations meet every such pair exactly once.

// aff is base + coef*t in iteration t.
type aff struct {
	base Lin
	coef int64
}

type swapInfo struct {
	ok     bool
	s      ssa.Value // the slice
	i, j   ssa.Value // the indices
	cond   *ssa.BinOp
	neg    bool // the loop goes on when cond is false
	exit   *ssa.BasicBlock
	phis   []*ssa.Phi
	inside int // index of the edge from outside
}

func (x *Interp) swapLoop(l *loopInfo) *swapInfo {
	if x.swaps == nil {
		x.swaps = map[*ssa.BasicBlock]*swapInfo{}
	}
	if w := x.swaps[l.head]; w != nil {
		return w
	}
	w := &swapInfo{}
	x.swaps[l.head] = w
	var stores []*ssa.Store
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				if b != l.head {
					return w
				}
				w.phis = append(w.phis, in)
			case *ssa.If:
				if b != l.head {
					return w
				}
			case *ssa.Store:
				stores = append(stores, in)
			case *ssa.BinOp, *ssa.IndexAddr, *ssa.UnOp, *ssa.Jump, *ssa.DebugRef:
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
					return w
				}
			default:
				return w
			}
		}
	}
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || len(stores) != 2 || len(l.head.Preds) != 2 {
		return w
	}
	if w.cond, ok = iff.Cond.(*ssa.BinOp); !ok {
		return w
	}
	switch {
	case l.blocks[l.head.Succs[0]] && !l.blocks[l.head.Succs[1]]:
		w.exit = l.head.Succs[1]
	case l.blocks[l.head.Succs[1]] && !l.blocks[l.head.Succs[0]]:
		w.exit, w.neg = l.head.Succs[0], true
	default:
		return w
	}
	if l.blocks[l.head.Preds[0]] {
		w.inside = 1
	}
	if l.blocks[l.head.Preds[w.inside]] || !l.blocks[l.head.Preds[1-w.inside]] {
		return w
	}
	at := func(v ssa.Value) (s, i ssa.Value) {
		if a, ok := v.(*ssa.IndexAddr); ok {
			return a.X, a.Index
		}
		return nil, nil
	}
	read := func(v ssa.Value) (s, i ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && l.blocks[u.Block()] {
			return at(u.X)
		}
		return nil, nil
	}
	s1, i1 := at(stores[0].Addr)
	s2, i2 := at(stores[1].Addr)
	r1, k1 := read(stores[0].Val)
	r2, k2 := read(stores[1].Val)
	if s1 == nil || s1 != s2 || s1 != r1 || s1 != r2 || i1 != k2 || i2 != k1 {
		return w
	}
	// both elements are read before either is written
	if stores[0].Block() != stores[1].Block() {
		return w
	}
	first, last := -1, -1
	for k, in := range stores[0].Block().Instrs {
		if st, ok := in.(*ssa.Store); ok && first < 0 {
			_, first = st, k
		}
		if v, ok := in.(ssa.Value); ok && (v == stores[0].Val || v == stores[1].Val) {
			last = k
		}
	}
	for _, st := range stores {
		u := st.Val.(*ssa.UnOp)
		if u.Block() != st.Block() {
			return w
		}
	}
	if last > first {
		return w
	}
	if d, ok := s1.(ssa.Instruction); ok && l.blocks[d.Block()] {
		return w
	}
	w.s, w.i, w.j, w.ok = s1, i1, i2, true
	return w
}

// affine gives v as a function of the iteration.
func (x *Interp) affine(st *State, l *loopInfo, w *swapInfo, v ssa.Value, depth int) (aff, bool) {
	if depth > 8 {
		return aff{}, false
	}
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return aff{K(c.Int64()), 0}, true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] {
		if i, ok := x.eval(st, v).(IntV); ok {
			return aff{i.L, 0}, true
		}
		return aff{}, false
	}
	switch in := in.(type) {
	case *ssa.Phi:
		// the state is at the head, before the first iteration
		i, ok := st.top().Env[in].(IntV)
		b, ok2 := in.Edges[1-w.inside].(*ssa.BinOp)
		if !ok || !ok2 || b.X != ssa.Value(in) {
			return aff{}, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return aff{}, false
		}
		switch b.Op {
		case token.ADD:
			return aff{i.L, c.Int64()}, true
		case token.SUB:
			return aff{i.L, -c.Int64()}, true
		}
	case *ssa.BinOp:
		if a, b, ok := x.affine2(st, l, w, in, depth); ok {
			switch in.Op {
			case token.ADD:
				return aff{a.base.Add(b.base), a.coef + b.coef}, true
			case token.SUB:
				return aff{a.base.Sub(b.base), a.coef - b.coef}, true
			case token.QUO:
				if n, ok := b.base.Const(); ok && n == 2 && b.coef == 0 && a.coef == 0 && x.ProveGE(st, a.base) {
					q := x.Fresh("half")
					st.P.AddGE(a.base.Sub(q).Sub(q))
					st.P.AddGE(q.Add(q).AddK(1).Sub(a.base))
					return aff{q, 0}, true
				}
			}
		}
	case *ssa.Call: // len
		if len(in.Call.Args) == 1 && in.Call.Args[0] == w.s {
			return aff{x.lenOf(st, x.eval(st, w.s)), 0}, true
		}
	}
	return aff{}, false
}

func (x *Interp) affine2(st *State, l *loopInfo, w *swapInfo, in *ssa.BinOp, depth int) (a, b aff, ok bool) {
	a, ok = x.affine(st, l, w, in.X, depth+1)
	if !ok {
		return
	}
	b, ok = x.affine(st, l, w, in.Y, depth+1)
	return
}

// reverses runs a loop that reverses a slice.
func (x *Interp) reverses(fi *fnInfo, l *loopInfo, s *State) (map[*ssa.BasicBlock][]*State, bool) {
	w := x.swapLoop(l)
	if !w.ok {
		return nil, false
	}
	st := s.Clone()
	sv, ok := x.eval(st, w.s).(SliceV)
	if !ok || sv.Obj == 0 {
		return nil, false
	}
	o := st.heap[sv.Obj]
	sp := x.specOf(o.Elem)
	if sp == nil || sp.Reverse == nil || o.Shared || o.Seq == nil || o.Bad != "" || !x.ProveEQ(st, sv.Off) || !x.ProveEQ(st, sv.Len.Sub(o.Seq.Len())) {
		return nil, false
	}
	lo, ok1 := x.affine(st, l, w, w.i, 0)
	hi, ok2 := x.affine(st, l, w, w.j, 0)
	a, b, ok3 := x.affine2(st, l, w, w.cond, 0)
	if !ok1 || !ok2 || !ok3 || lo.coef*lo.coef != 1 || hi.coef != -lo.coef {
		return nil, false
	}
	n := sv.Len
	if !x.ProveEQ(st, lo.base.Add(hi.base).AddK(1).Sub(n)) {
		return nil, false
	}
	// goes on while d >= 0
	d := aff{a.base.Sub(b.base), a.coef - b.coef}
	op := w.cond.Op
	if w.neg {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	}
	switch op {
	case token.GEQ:
	case token.GTR:
		d.base = d.base.AddK(-1)
	case token.LEQ:
		d = aff{d.base.Neg(), -d.coef}
	case token.LSS:
		d = aff{d.base.Neg().AddK(-1), -d.coef}
	default:
		return nil, false
	}
	half := func(t Lin) bool { // t is half of n, rounded up or down
		return x.ProveGE(st, n.AddK(1).Sub(t).Sub(t)) && x.ProveGE(st, t.Add(t).AddK(1).Sub(n))
	}
	good := false
	for _, c := range []aff{lo, hi} {
		switch {
		case good:
		case c.coef == 1 && x.ProveEQ(st, c.base): // from the ends inwards
			switch d.coef {
			case -1:
				good = half(d.base.AddK(1))
			case -2:
				good = x.ProveEQ(st, d.base.AddK(2).Sub(n)) || x.ProveEQ(st, d.base.AddK(1).Sub(n))
			}
		case c.coef == -1 && d.coef == -1 && x.ProveEQ(st, d.base.Sub(c.base)): // from the middle outwards
			good = half(c.base.AddK(1))
		}
	}
	if !good || st.unreachable() {
		return nil, false
	}
	ch := x.ChainOf(st, sv, o.Elem)
	if ch == nil {
		return nil, false
	}
	if ch = sp.Reverse(x, st, ch); ch == nil {
		return nil, false
	}
	no := *o
	no.Seq = &Seq{[]Seg{{Kind: sChain, C: ch}}}
	no.Reads = nil
	st.heap[sv.Obj] = &no
	f := st.top()
	for _, in := range l.head.Instrs {
		if v, ok := in.(ssa.Value); ok {
			f.Env[v] = x.Havoc(st, v.Type(), "after")
		}
	}
	return map[*ssa.BasicBlock][]*State{w.exit: {x.edge(fi, st, l.head, w.exit)}}, true
}
