package ai

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

const (
	maxPaths   = 48
	maxOut     = 40
	widenAfter = 2
)

// Exec analyses a call of fn.
func (x *Interp) Exec(st *State, fn *ssa.Function, args []Val, binds []Val) []Outcome {
	if len(fn.Blocks) == 0 {
		x.Unsupported("call "+fn.String(), "no body")
		return []Outcome{{St: st, Ret: x.Havoc(st, resultType(fn.Signature), "ext")}}
	}
	for _, f := range x.stack {
		if f == fn {
			x.Unsupported("recursion "+fn.String(), "recursive call")
			return []Outcome{{St: st, Ret: x.Havoc(st, resultType(fn.Signature), "rec")}}
		}
	}
	if len(x.stack) > 40 {
		panic("call depth")
	}
	x.Inlined[fn] = true
	fi := x.info(fn)
	if fi.bad != "" {
		x.Unsupported("cfg "+fn.String(), fi.bad)
		return []Outcome{{St: st, Ret: x.Havoc(st, resultType(fn.Signature), "cfg")}}
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	f := &Frame{Fn: fn, Env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		f.Env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		f.Env[b] = binds[i]
	}
	st.frames = append(st.frames, f)
	exits, rets := x.region(fi, nil, map[*ssa.BasicBlock][]*State{fn.Blocks[0]: {st}})
	_ = exits
	for i := range rets {
		s := rets[i].St
		s.frames = s.frames[:len(s.frames)-1]
		if n := len(s.frames); n > 0 {
			s.frames = append(s.frames[:n-1:n-1], s.frames[n-1].clone())
		}
	}
	return x.mergeOutcomes(rets)
}

func (x *Interp) mergeOutcomes(rets []Outcome) []Outcome {
	var live []Outcome
	for _, r := range rets {
		if !r.St.dead && !r.St.P.bot {
			live = append(live, r)
		}
	}
	if len(live) <= maxOut {
		return live
	}
	var out []Outcome
	for _, pan := range []bool{false, true} {
		var sts []*State
		for _, r := range live {
			if r.Panic != pan {
				continue
			}
			r.St.ghost["$ret"] = r.Ret
			sts = append(sts, r.St)
		}
		for _, s := range x.Merge(sts, maxOut) {
			r := s.ghost["$ret"]
			delete(s.ghost, "$ret")
			out = append(out, Outcome{St: s, Ret: r, Panic: pan})
		}
	}
	return out
}

// region runs the blocks of a function (l == nil) or of a loop body, in
// topological order; the states that leave the region come back by target.
func (x *Interp) region(fi *fnInfo, l *loopInfo, pend map[*ssa.BasicBlock][]*State) (map[*ssa.BasicBlock][]*State, []Outcome) {
	exits := map[*ssa.BasicBlock][]*State{}
	var rets []Outcome
	inside := func(b *ssa.BasicBlock) bool { return l == nil || l.blocks[b] }
	started := false
	put := func(m map[*ssa.BasicBlock][]*State) {
		var bs []*ssa.BasicBlock
		for b := range m {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
		for _, b := range bs {
			if inside(b) && !(l != nil && b == l.head && started) {
				pend[b] = append(pend[b], m[b]...)
			} else {
				exits[b] = append(exits[b], m[b]...)
			}
		}
	}
	for _, b := range x.topo(fi, l) {
		sts := pend[b]
		delete(pend, b)
		if len(sts) == 0 {
			continue
		}
		started = true
		if il := fi.loops[b]; il != nil && (l == nil || b != l.head) {
			ex, rs := x.loop(fi, il, sts)
			rets = append(rets, rs...)
			put(ex)
			continue
		}
		if len(sts) > maxPaths {
			sts = x.Merge(sts, maxPaths)
		}
		for _, s := range sts {
			ex, rs := x.block(fi, b, s)
			rets = append(rets, rs...)
			put(ex)
		}
	}
	for b, s := range pend {
		if len(s) > 0 {
			panic(fmt.Sprintf("block %d of %s left pending", b.Index, fi.fn))
		}
	}
	return exits, rets
}

// topo orders the nodes of a region; inner loops count as their header, their
// other blocks are left out.
func (x *Interp) topo(fi *fnInfo, l *loopInfo) []*ssa.BasicBlock {
	// innermost enclosing loop below l for each block
	node := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for _, b := range fi.rpo {
		if l != nil && !l.blocks[b] {
			continue
		}
		var out *loopInfo
		for h, il := range fi.loops {
			if il == l || !il.blocks[b] || (l != nil && !l.blocks[h]) {
				continue
			}
			if l != nil && len(il.blocks) >= len(l.blocks) {
				continue
			}
			if out == nil || len(il.blocks) > len(out.blocks) {
				out = il
			}
		}
		if out != nil {
			node[b] = out.head
		} else {
			node[b] = b
		}
	}
	// condensed successor graph, topological order by DFS
	succ := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for b, n := range node {
		if succ[n] == nil {
			succ[n] = map[*ssa.BasicBlock]bool{}
		}
		for _, s := range b.Succs {
			m, ok := node[s]
			if !ok || m == n || (l != nil && s == l.head) {
				continue
			}
			succ[n][m] = true
		}
	}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		var ss []*ssa.BasicBlock
		for s := range succ[b] {
			ss = append(ss, s)
		}
		sort.Slice(ss, func(i, j int) bool { return ss[i].Index < ss[j].Index })
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	var entry *ssa.BasicBlock
	if l != nil {
		entry = l.head
	} else {
		entry = node[fi.fn.Blocks[0]]
	}
	dfs(entry)
	out := make([]*ssa.BasicBlock, 0, len(post))
	for i := len(post) - 1; i >= 0; i-- {
		out = append(out, post[i])
	}
	return out
}

// edge moves a state from p to q: phis and liveness.
func (x *Interp) edge(fi *fnInfo, st *State, p, q *ssa.BasicBlock) *State {
	idx := -1
	for k, b := range q.Preds {
		if b == p {
			idx = k
		}
	}
	f := st.top()
	nv := map[ssa.Value]Val{}
	for _, in := range q.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nv[ph] = x.eval(st, ph.Edges[idx])
	}
	live := fi.live[q]
	env := make(map[ssa.Value]Val, len(live))
	for v := range live {
		if n, ok := nv[v]; ok {
			env[v] = n
		} else if o, ok := f.Env[v]; ok {
			env[v] = o
		}
	}
	f.Env = env
	for _, a := range fi.dead[q] {
		if p, ok := env[a].(PtrV); ok && len(p.Path) == 0 {
			if o := st.heap[p.Obj]; o != nil && o.Seq == nil && o.Bad == "" {
				n := *o
				n.V = x.zero(o.Elem)
				st.heap[p.Obj] = &n
			}
		}
	}
	return st
}

// block runs one block.
func (x *Interp) block(fi *fnInfo, b *ssa.BasicBlock, st *State) (map[*ssa.BasicBlock][]*State, []Outcome) {
	x.Steps++
	if x.MaxSt > 0 && x.Steps > x.MaxSt {
		panic("analysis budget exhausted in " + fi.fn.String())
	}
	cur := []*State{st}
	var rets []Outcome
	exits := map[*ssa.BasicBlock][]*State{}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch in := in.(type) {
		case *ssa.If:
			for _, s := range cur {
				f := x.boolOf(x.eval(s, in.Cond))
				yes, no := x.ForkBool(s, f)
				for _, y := range yes {
					if !y.P.bot {
						exits[b.Succs[0]] = append(exits[b.Succs[0]], x.edge(fi, y, b, b.Succs[0]))
					}
				}
				for _, n := range no {
					if !n.P.bot {
						exits[b.Succs[1]] = append(exits[b.Succs[1]], x.edge(fi, n, b, b.Succs[1]))
					}
				}
			}
			return exits, rets
		case *ssa.Jump:
			for _, s := range cur {
				exits[b.Succs[0]] = append(exits[b.Succs[0]], x.edge(fi, s, b, b.Succs[0]))
			}
			return exits, rets
		case *ssa.Return:
			for _, s := range cur {
				var r Val
				switch len(in.Results) {
				case 0:
					r = TupleV{}
				case 1:
					r = x.eval(s, in.Results[0])
				default:
					t := TupleV{}
					for _, v := range in.Results {
						t = append(t, x.eval(s, v))
					}
					r = t
				}
				rets = append(rets, Outcome{St: s, Ret: r})
			}
			return exits, rets
		case *ssa.Panic:
			for _, s := range cur {
				x.panicObl(s, "panic statement", in.Pos())
				rets = append(rets, Outcome{St: s, Ret: TupleV{}, Panic: true})
			}
			return exits, rets
		}
		var next []*State
		for _, s := range cur {
			outs := x.step(s, in)
			for _, o := range outs {
				if o.Panic {
					rets = append(rets, o)
				} else if !o.St.dead && !o.St.P.bot {
					next = append(next, o.St)
				}
			}
		}
		cur = next
		if len(cur) > 4*maxPaths {
			cur = x.Merge(cur, maxPaths)
		}
		if len(cur) == 0 {
			break
		}
	}
	return exits, rets
}

// prep normalises a state at a loop head.
func (x *Interp) prep(st *State) []*State {
	// decided booleans
	out := []*State{st}
	f := st.top()
	for _, v := range x.order(f) {
		if bv, ok := f.Env[v].(BoolV); ok && bv.F.Op != fConst {
			var nx []*State
			for _, s := range out {
				yes, no := x.ForkBool(s, bv.F)
				for _, y := range yes {
					y.top().Env[v] = BConst(true)
					nx = append(nx, y)
				}
				for _, n := range no {
					n.top().Env[v] = BConst(false)
					nx = append(nx, n)
				}
			}
			out = nx
		}
	}
	for _, s := range out {
		x.detach(s)
		x.relink(s)
		for id, o := range s.heap {
			if o.Seq != nil && !o.Shared {
				if sp := x.specOf(o.Elem); sp != nil && sp.All && sp.Elem == nil && len(o.Reads) > 0 {
					n := *o
					n.Reads = nil
					s.heap[id], o = &n, &n
				}
				if q := x.normSeq(s, o.Elem, o.Seq, o.Name != "array"); q != o.Seq {
					n := *o
					n.Seq = q
					s.heap[id] = &n
				}
			}
			if b, ok := o.V.(BuilderV); ok && len(b.S.P) > 1 {
				n := *o
				n.V = BuilderV{collapse(b.S)}
				s.heap[id] = &n
			}
		}
	}
	return out
}

// detach gives an empty slice an object of its own if nothing else refers to
// the one it has: what is behind it cannot be seen any more.
func (x *Interp) detach(st *State) {
	f := st.top()
	for _, v := range x.order(f) {
		sv, ok := f.Env[v].(SliceV)
		if !ok || sv.Obj == 0 || !st.P.Reduce(sv.Len).IsK(0) {
			continue
		}
		o := st.heap[sv.Obj]
		if o == nil || o.Shared || o.Seq == nil || len(o.Seq.Segs) == 0 {
			continue
		}
		if sp := x.specOf(o.Elem); sp == nil || !sp.All {
			continue
		}
		refs := 0
		see := func(w Val) { refs += refersTo(w, sv.Obj) }
		for _, g := range st.frames {
			for _, w := range g.Env {
				see(w)
			}
		}
		for _, h := range st.heap {
			see(h.V)
			if h.Seq != nil {
				for _, g := range h.Seq.Segs {
					for _, w := range g.Elems {
						see(w)
					}
				}
			}
		}
		if refs == 1 {
			f.Env[v] = SliceV{x.NewObj(st, &Obj{Elem: o.Elem, Seq: &Seq{}, Checked: true}), K(0), K(0)}
		}
	}
}

// refersTo counts the slices and pointers in v that refer to obj.
func refersTo(v Val, obj ObjID) int {
	n := 0
	switch w := v.(type) {
	case SliceV:
		if w.Obj == obj {
			n++
		}
	case PtrV:
		if w.Obj == obj {
			n++
		}
	case StructV:
		for _, f := range w.F {
			n += refersTo(f, obj)
		}
	case TupleV:
		for _, f := range w {
			n += refersTo(f, obj)
		}
	case IfaceV:
		n += refersTo(w.V, obj)
	case ArrV:
		for _, f := range w.E {
			n += refersTo(f, obj)
		}
	case ArrSeqV:
		n += 2 // not looked at
	case FuncV:
		for _, f := range w.Binds {
			n += refersTo(f, obj)
		}
	}
	return n
}

func collapse(s StrV) StrV {
	if len(s.P) <= 1 {
		return s
	}
	return StrV{[]Piece{{Kind: pSeq, Hi: strLen0(s)}}}
}

// loop computes the invariants of a loop and then its exits. On request, the
// states that enter an outermost loop are kept apart from those that go on.
func (x *Interp) loop(fi *fnInfo, l *loopInfo, entries []*State) (map[*ssa.BasicBlock][]*State, []Outcome) {
	exits := map[*ssa.BasicBlock][]*State{}
	var rets []Outcome
	var rest []*State
	for _, e := range entries {
		n, ok := x.iterations(l, e)
		if !ok {
			rest = append(rest, e)
			continue
		}
		ex, rs := x.unroll(fi, l, e, n)
		rets = append(rets, rs...)
		for b, ss := range ex {
			exits[b] = append(exits[b], ss...)
		}
	}
	if len(rest) > 0 {
		ex, rs := x.general(fi, l, rest)
		rets = append(rets, rs...)
		for b, ss := range ex {
			exits[b] = append(exits[b], ss...)
		}
	}
	return exits, rets
}

// maxUnroll bounds the iterations of the loops that are run one by one.
const maxUnroll = 6

// iterations is the number of iterations of a loop that counts up to a small
// known number.
func (x *Interp) iterations(l *loopInfo, st *State) (int, bool) {
	if termHook != nil || st.P.bot || st.dead {
		return 0, false
	}
	d, ok := x.counterRoom(l, st)
	if !ok {
		return 0, false
	}
	d = st.P.Reduce(d)
	for n := int64(1); n <= maxUnroll; n++ {
		if d.IsK(n) {
			return int(n), true
		}
	}
	return 0, false
}

// unroll runs the iterations of a loop one after the other, like straight code.
func (x *Interp) unroll(fi *fnInfo, l *loopInfo, st *State, n int) (map[*ssa.BasicBlock][]*State, []Outcome) {
	exits := map[*ssa.BasicBlock][]*State{}
	var rets []Outcome
	cur := []*State{st}
	for i := 0; len(cur) > 0; i++ {
		if i > n {
			panic("a counted loop goes on in " + fi.fn.String())
		}
		ex, rs := x.region(fi, l, map[*ssa.BasicBlock][]*State{l.head: cur})
		rets = append(rets, rs...)
		cur = nil
		for b, ss := range ex {
			if b != l.head {
				exits[b] = append(exits[b], ss...)
				continue
			}
			for _, s := range ss {
				if !s.P.bot && !s.dead {
					cur = append(cur, s)
				}
			}
		}
	}
	return exits, rets
}

// general runs a loop in general.
func (x *Interp) general(fi *fnInfo, l *loopInfo, entries []*State) (map[*ssa.BasicBlock][]*State, []Outcome) {
	if !x.Peel || len(x.loops) > 0 {
		return x.fixpoint(fi, l, entries)
	}
	back := x.Back
	defer func() { x.Back = back }()
	x.Back = func(st *State, depth int) []*State {
		if depth == 1 {
			st.SetGV("again", OpaqueV{Tag: "yes"})
		}
		if back != nil {
			return back(st, depth)
		}
		return []*State{st}
	}
	for _, e := range entries {
		e.SetGV("again", OpaqueV{Tag: "no"})
	}
	exits, rets := x.fixpoint(fi, l, entries)
	for _, ss := range exits {
		for _, s := range ss {
			s.SetGV("again", OpaqueV{Tag: "no"})
		}
	}
	return exits, rets
}

func (x *Interp) fixpoint(fi *fnInfo, l *loopInfo, entries []*State) (map[*ssa.BasicBlock][]*State, []Outcome) {
	outer := x.mark
	if outer == 0 {
		x.mark = x.nsym
	}
	defer func() { x.mark = outer }()
	inv := map[string]*State{}
	var order []string
	count := map[string]int{}
	entryBy := map[string][]*State{}
	bounded := false // a counter stays below the bound it is compared with
	add := func(m map[string]*State, ord *[]string, s *State, widen bool) (string, bool) {
		k := x.Key(s)
		old := m[k]
		if old == nil {
			j := x.Join(s, s, false)
			if j == nil {
				panic("self join")
			}
			m[k] = j
			*ord = append(*ord, k)
			return k, true
		}
		if ok, why := x.Covers(old, s); ok {
			return k, false
		} else if x.Trace {
			fmt.Printf("    not covered: %s\n", why)
		}
		j := x.Join(old, s, widen)
		if j == nil {
			panic("join shape")
		}
		if bounded {
			if d, ok := x.counterRoom(l, j); ok {
				j.P.AddGE(d)
			}
		}
		if x.Hint != nil {
			// what holds in both holds in the joined state
			a, ok1 := x.Hint(old)
			b, ok2 := x.Hint(s)
			d, ok3 := x.Hint(j)
			if ok1 && ok2 && ok3 && x.ProveGE(old, a) && x.ProveGE(s, b) {
				j.P.AddGE(d)
			}
		}
		m[k] = j
		return k, true
	}
	exits := map[*ssa.BasicBlock][]*State{}
	var rets []Outcome
	if bounded = x.Peel; bounded {
		for _, e := range entries {
			d, ok := x.counterRoom(l, e)
			bounded = bounded && ok && x.ProveGE(e, d)
		}
	}
	for _, e := range entries {
		if len(entries) > 1 {
			x.Saturate(e) // it may turn out to be unreachable
		}
		for _, s := range x.prep(e) {
			if s.P.bot || s.dead {
				continue
			}
			if ex, ok := x.skips(fi, l, s); ok {
				for b, ss := range ex {
					exits[b] = append(exits[b], ss...)
				}
				continue
			}
			if ex, ok := x.reverses(fi, l, s); ok {
				for b, ss := range ex {
					exits[b] = append(exits[b], ss...)
				}
				continue
			}
			k, _ := add(inv, &order, s.Clone(), false)
			entryBy[k] = append(entryBy[k], s)
		}
	}
	var pairs []termPair
	collect := false
	body := func(k string, m map[string]*State, final bool) ([]*State, map[*ssa.BasicBlock][]*State, []Outcome) {
		if !final {
			x.mute++
			defer func() { x.mute-- }()
		}
		x.loops = append(x.loops, l)
		ex, rs := x.region(fi, l, map[*ssa.BasicBlock][]*State{l.head: {m[k].Clone()}})
		x.loops = x.loops[:len(x.loops)-1]
		backs := ex[l.head]
		if final && x.mute == 0 && (termHook != nil || collect) {
			for _, b := range backs {
				if !b.P.bot && !b.dead {
					pairs = append(pairs, termPair{m[k], b.Clone()})
				}
			}
		}
		if x.Back != nil {
			var next []*State
			for _, b := range backs {
				if !b.P.bot && !b.dead {
					next = append(next, x.Back(b, len(x.loops)+1)...)
				}
			}
			backs = next
		}
		for _, b := range backs {
			x.endCase(b, l)
		}
		delete(ex, l.head)
		var out []*State
		for _, b := range backs {
			for _, s := range x.prep(b) {
				if !s.P.bot && !s.dead {
					out = append(out, s)
				}
			}
		}
		return out, ex, rs
	}
	pos := x.Prog.Pos(headPos(l.head))
	first := append([]string(nil), order...)
	dirty := append([]string(nil), order...)
	gather := false
	join := func(backs []*State) []*State {
		if gather {
			return x.gather(backs)
		}
		return backs
	}
	for iter := 0; len(dirty) > 0; iter++ {
		if iter > 30 && !gather {
			// start again
			gather, iter = true, 0
			defer func(r bool) { x.rename = r }(x.rename)
			x.rename = true
			inv, order, count = map[string]*State{}, nil, map[string]int{}
			for _, k := range first {
				for _, s := range entryBy[k] {
					add(inv, &order, s.Clone(), false)
				}
			}
			dirty = append([]string(nil), order...)
		}
		if iter > 60 {
			panic("no invariant found for the loop at " + pos)
		}
		if len(inv) > 200 {
			panic("too many shapes in the loop at " + pos)
		}
		k := dirty[0]
		dirty = dirty[1:]
		backs, _, _ := body(k, inv, false)
		if x.Trace {
			fmt.Printf("  loop %s iter %d key#%d: %d back states, %d shapes\n", pos, iter, index(order, k), len(backs), len(inv))
			if iter < 14 {
				fmt.Printf("    KEY %s\n", k)
			}
		}
		bumped := map[string]bool{}
		for _, b := range join(backs) {
			bk := x.Key(b)
			if !bumped[bk] {
				bumped[bk] = true
				count[bk]++
			}
			k2, ch := add(inv, &order, b, count[bk] > widenAfter)
			if ch {
				found := false
				for _, d := range dirty {
					if d == k2 {
						found = true
					}
				}
				if !found {
					dirty = append(dirty, k2)
				}
			}
		}
	}
	// narrowing
	step := func(m map[string]*State, keys []string) (map[string]*State, []string, bool) {
		nm := map[string]*State{}
		var no []string
		for _, k := range order {
			for _, s := range entryBy[k] {
				add(nm, &no, s.Clone(), false)
			}
		}
		for _, k := range keys {
			backs, _, _ := body(k, m, false)
			for _, b := range join(backs) {
				add(nm, &no, b, false)
			}
		}
		return nm, no, true
	}
	cur, keys := inv, order
	for r := 0; r < 2; r++ {
		nm, no, _ := step(cur, keys)
		// nm must be inductive; what is not kept by the loop is dropped
		ok, loose := false, false
		for try := 0; try < 5 && !ok; try++ {
			ok = true
		check:
			for _, k := range no {
				backs, _, _ := body(k, nm, false)
				for _, b := range backs {
					bk := x.Key(b)
					if nm[bk] == nil {
						ok, try = false, 5
						break check
					}
					if c, why := x.Covers(nm[bk], b); !c {
						if x.Trace {
							fmt.Printf("  narrowing refused: %s\n", why)
							if os.Getenv("GTNARROW") != "" {
								fmt.Printf(" NM %s\n B %s\n", nm[bk], b)
							}
						}
						ok, loose = false, true
						n := x.loosen(nm[bk], b)
						if n == nil {
							try = 5
							break check
						}
						nm[bk] = n
					}
				}
			}
		}
		for _, k := range no {
			if ok && loose {
				// not worth it when something else is lost
				if cur[k] == nil {
					ok = false
				} else if c, why := x.Covers(cur[k], nm[k]); !c {
					if x.Trace {
						fmt.Printf("  narrowing lost: %s\n", why)
					}
					ok = false
				}
			}
		}
		if !ok {
			break
		}
		cur, keys = nm, no
	}
	if x.Trace && x.mute == 0 {
		for i, k := range keys {
			fmt.Printf("  INV %s #%d\n   key %s\n   %s\n", pos, i, trunc(k, 600), cur[k])
		}
	}
	measured := termHook != nil && x.mute == 0
	for _, k := range keys {
		_, ex, rs := body(k, cur, true)
		for b, ss := range ex {
			exits[b] = append(exits[b], ss...)
		}
		rets = append(rets, rs...)
	}
	if measured && !termHook(x, l, "", pairs, false) {
		// again, with what the quantities of the loop are when an iteration
		// begins kept in mind
		pairs = nil
		x.terming++
		tag := fmt.Sprintf("term%d:", x.terming)
		marked := map[string]*State{}
		for _, k := range keys {
			s := cur[k].Clone()
			for n, l := range x.terms(s, x.order(s.top())) {
				s.SetG(tag+n, l)
			}
			marked[k] = s
		}
		rep, hook := x.Rep, termHook
		x.Rep, termHook = core.NewReport(""), nil
		collect = true
		for _, k := range keys {
			body(k, marked, true)
		}
		collect = false
		x.Rep, termHook = rep, hook
		termHook(x, l, tag, pairs, true)
		x.terming--
	}
	for _, ss := range exits {
		for _, s := range ss {
			x.relink(s)
		}
	}
	return exits, rets
}

// counterRoom gives, for a loop that goes on while a counter that grows by one
// is below something that does not change, how far it is below. At the head of
// the loop it is never negative, if it is not at the start.
func (x *Interp) counterRoom(l *loopInfo, st *State) (Lin, bool) {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || !l.blocks[l.head.Succs[0]] || l.blocks[l.head.Succs[1]] {
		return Lin{}, false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS || c.Block() != l.head {
		return Lin{}, false
	}
	if in, isIn := c.Y.(ssa.Instruction); isIn && l.blocks[in.Block()] {
		return Lin{}, false
	}
	isNext := func(v ssa.Value) *ssa.Phi {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "1" {
				p, _ := b.X.(*ssa.Phi)
				return p
			}
		}
		return nil
	}
	off := int64(0)
	phi, ok := c.X.(*ssa.Phi)
	if !ok {
		phi, off = isNext(c.X), 1
	}
	if phi == nil || phi.Block() != l.head {
		return Lin{}, false
	}
	for i, e := range phi.Edges {
		if l.blocks[l.head.Preds[i]] && isNext(e) != phi {
			return Lin{}, false
		}
	}
	v, ok1 := st.top().Env[phi].(IntV)
	y, ok2 := x.eval(st, c.Y).(IntV)
	if !ok1 || !ok2 {
		return Lin{}, false
	}
	return y.L.Sub(v.L).AddK(-off), true
}

// gather joins the states of the same shape, so that what varies from one
// iteration to the next is generalised at once.
func (x *Interp) gather(sts []*State) []*State {
	if len(sts) < 2 {
		return sts
	}
	at := map[string]int{}
	var out []*State
	for _, s := range sts {
		k := x.Key(s)
		if i, ok := at[k]; ok {
			if j := x.Join(out[i], s, false); j != nil {
				out[i] = j
				continue
			}
		}
		at[k] = len(out)
		out = append(out, s)
	}
	return out
}

// skips runs the loop in s if it certainly ends without an iteration: such
// states are not joined with those that enter it.
func (x *Interp) skips(fi *fnInfo, l *loopInfo, s *State) (map[*ssa.BasicBlock][]*State, bool) {
	for _, in := range l.head.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field, *ssa.Convert:
		default:
			return nil, false
		}
	}
	if _, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); !ok {
		return nil, false
	}
	x.mute++
	ex, _ := x.block(fi, l.head, s.Clone())
	x.mute--
	for b := range ex {
		if l.blocks[b] {
			return nil, false
		}
	}
	ex, rs := x.block(fi, l.head, s.Clone())
	return ex, len(rs) == 0
}

func index(ss []string, k string) int {
	for i, s := range ss {
		if s == k {
			return i
		}
	}
	return -1
}

func headPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// SetCase keeps states of different cases apart until the next iteration of
// the innermost loop.
func (x *Interp) SetCase(st *State, name, v string) {
	var l *loopInfo
	if n := len(x.loops); n > 0 {
		l = x.loops[n-1]
	}
	st.SetGV("case:"+name, FloatV{fmt.Sprintf("%p:%s", l, v)})
}

func (x *Interp) endCase(st *State, l *loopInfo) {
	pre := fmt.Sprintf("%p:", l)
	for k, v := range st.ghost {
		if f, ok := v.(FloatV); ok && strings.HasPrefix(k, "case:") && strings.HasPrefix(f.Key, pre) {
			delete(st.ghost, k)
		}
	}
}
