package ai

import (
	"fmt"
	"sort"
)

// pairing relates two states of the same shape.
type pairing struct {
	moved    map[Sym]bool
	x        *Interp
	a, b     *State // private clones, with instantiated families
	da, db   *dstate
	leaves   []Lin
	n        *State
	pa, pb   *Poly
	ids      map[string]Lin
	anch     []anchor
	dirty    bool // there are new entries
	seen     map[string]bool
	objs     []ObjID
	joining  bool
	defs     []anchor // new symbol = la / lb
	memoSeen map[string]bool
	dirtyA   bool
	used     map[Sym]bool
}

type anchor struct{ a, b, n Lin }

func lkey(l Lin) string {
	s := make([]byte, 0, 16)
	s = appendInt(s, l.c)
	for _, t := range l.t {
		s = append(s, ':')
		s = appendInt(s, int64(t.s))
		s = append(s, '*')
		s = appendInt(s, t.c)
	}
	return string(s)
}

func appendInt(s []byte, v int64) []byte {
	if v < 0 {
		s = append(s, '-')
		v = -v
	}
	if v >= 10 {
		s = appendInt(s, v/10)
	}
	return append(s, byte('0'+v%10))
}

// pair gives the joined expression for la in a and lb in b.
func (p *pairing) pair(la, lb Lin) Lin {
	k := lkey(la) + "|" + lkey(lb)
	if n, ok := p.ids[k]; ok {
		return n
	}
	var n Lin
	if la.Eq(lb) && !p.anyMoved(la) {
		n = la
	} else {
		n = p.x.Fresh("j")
		p.defs = append(p.defs, anchor{la, lb, n})
	}
	p.ids[k] = n
	p.anch = append(p.anch, anchor{la, lb, n})
	return n
}

// anyMoved reports whether l mentions what differs between the states; such a
// symbol does not survive in the joined state even where it is the same.
func (p *pairing) anyMoved(l Lin) bool {
	for _, t := range l.t {
		if p.moved[t.s] {
			return true
		}
	}
	return false
}

// relate pairs two states; nil when the shapes differ.
func (x *Interp) relate(a, b *State, move bool) *pairing {
	a, b = a.Clone(), b.Clone()
	p := &pairing{x: x, a: a, b: b, ids: map[string]Lin{}, memoSeen: map[string]bool{}}
	p.da, p.db = x.decompose(a), x.decompose(b)
	if p.da.key.String() != p.db.key.String() || len(p.da.L) != len(p.db.L) {
		return nil
	}
	p.moved = map[Sym]bool{}
	for i, la := range p.da.L {
		if lb := p.db.L[i]; move && !la.Eq(lb) {
			for _, l := range []Lin{la, lb} {
				for _, t := range l.t {
					if t.s > x.mark {
						p.moved[t.s] = true
					}
				}
			}
		}
	}
	for i := range p.da.L {
		p.leaves = append(p.leaves, p.pair(p.da.L[i], p.db.L[i]))
	}
	p.n = NewState()
	p.families()
	for i, id := range p.da.objs {
		if id == p.db.objs[i] {
			p.objs = append(p.objs, id)
		} else {
			x.nobj++
			p.objs = append(p.objs, x.nobj)
		}
	}
	return p
}

func (p *pairing) families() {
	x := p.x
	var fams []string
	for f := range p.a.memo {
		fams = append(fams, f)
	}
	for f := range p.b.memo {
		if _, ok := p.a.memo[f]; !ok {
			fams = append(fams, f)
		}
	}
	sort.Strings(fams)
	cand := map[string]bool{}
	for _, c := range p.da.cand {
		cand[lkey(p.da.L[c])+"|"+lkey(p.db.L[c])] = true
	}
	first := p.anch[:len(p.anch):len(p.anch)]
	var found []anchor
	for _, f := range fams {
		fam := x.fams[f]
		if fam != nil {
			for _, l := range fam.Always {
				va, oka := x.at(p.a, f, l)
				vb, okb := x.at(p.b, f, l)
				if k := f + "#" + lkey(l); oka && okb && !p.memoSeen[k] {
					p.memoSeen[k] = true
					p.n.memo[f] = append(p.n.memo[f], memoEnt{l, p.pair(p.a.P.Reduce(va), p.b.P.Reduce(vb))})
				}
			}
		}
		// constant indices
		for _, ea := range p.a.memo[f] {
			ra := p.a.P.Reduce(ea.idx)
			if !ra.IsConst() {
				continue
			}
			for _, eb := range p.b.memo[f] {
				if p.b.P.Reduce(eb.idx).Eq(ra) {
					p.entry(f, ra, ra, ea.v, eb.v)
				}
			}
		}
		// the same entry on both sides, of a value in use
		for _, ea := range p.a.memo[f] {
			if fam == nil || !fam.Keep {
				break
			}
			va := p.a.P.Reduce(ea.v)
			if va.IsConst() || !p.inUse(va) {
				continue
			}
			ra := p.a.P.Reduce(ea.idx)
			if p.x.Tidy && !p.stable(ra) {
				continue
			}
			for _, eb := range p.b.memo[f] {
				if p.b.P.Reduce(eb.v).Eq(va) && p.b.P.Reduce(eb.idx).Eq(ra) {
					p.entry(f, ra, ra, va, va)
					break
				}
			}
		}
		for _, an := range first {
			if cand[lkey(an.a)+"|"+lkey(an.b)] {
				p.match(f, an)
				if fam != nil && fam.Rev != nil {
					p.match(f, anchor{p.a.P.Reduce(fam.Rev.Sub(an.a)), p.b.P.Reduce(fam.Rev.Sub(an.b)), fam.Rev.Sub(an.n)})
				}
			}
		}
		if fam != nil && fam.Keep {
			p.offsets(f)
		}
		if fam == nil || !fam.Inv {
			continue
		}
		// inverse: values known on both sides give the indices
		for _, an := range first {
			ia, oka := x.inverse(p.a, f, an.a)
			ib, okb := x.inverse(p.b, f, an.b)
			if oka && okb {
				p.entry(f, ia, ib, an.a, an.b)
				if fam.Keep {
					found = append(found, anchor{ia, ib, Lin{}})
				}
			}
		}
	}
	// other functions at the indices just found
	for _, an := range append(p.anch[len(first):len(p.anch):len(p.anch)], found...) {
		for _, f := range fams {
			va, oka := p.x.at(p.a, f, an.a)
			vb, okb := p.x.at(p.b, f, an.b)
			if fam := x.fams[f]; oka != okb && fam != nil && fam.V0 != nil {
				if !oka && p.a.P.Reduce(an.a).IsK(0) {
					va, oka = x.App(p.a, f, K(0)), true
				} else if !okb && p.b.P.Reduce(an.b).IsK(0) {
					vb, okb = x.App(p.b, f, K(0)), true
				}
			}
			if oka && okb {
				p.entry(f, an.a, an.b, va, vb)
			}
		}
	}
}

// offsets matches entries at a counter plus the offset of a slice.
func (p *pairing) offsets(f string) {
	type ab struct{ a, b Lin }
	seen := map[string]bool{}
	var offs []ab
	for i := range p.da.offs {
		if i >= len(p.db.offs) {
			break
		}
		o := ab{p.a.P.Reduce(p.da.L[p.da.offs[i]]), p.b.P.Reduce(p.db.L[p.db.offs[i]])}
		k := lkey(o.a) + "|" + lkey(o.b)
		if (o.a.IsConst() && o.b.IsConst()) || seen[k] {
			continue
		}
		seen[k] = true
		offs = append(offs, o)
	}
	for _, o := range offs {
		for _, c := range p.da.cand {
			a, b := p.da.L[c], p.db.L[c]
			if k := "+" + lkey(o.a) + "|" + lkey(o.b) + "+" + lkey(a) + "|" + lkey(b); !seen[k] {
				seen[k] = true
				p.match(f, anchor{p.a.P.Reduce(o.a.Add(a)), p.b.P.Reduce(o.b.Add(b)), Lin{}})
			}
		}
	}
}

// stable reports whether the symbols of l are older than the loop, or in use.
func (p *pairing) stable(l Lin) bool {
	for _, t := range l.t {
		if t.s > p.x.mark && !p.inUse(V(t.s)) {
			return false
		}
	}
	return true
}

// inUse reports whether the symbols of l are those of a leaf.
func (p *pairing) inUse(l Lin) bool {
	if p.used == nil {
		p.used = map[Sym]bool{}
		for _, n := range p.leaves {
			for _, t := range n.t {
				p.used[t.s] = true
			}
		}
	}
	for _, t := range l.t {
		if !p.used[t.s] {
			return false
		}
	}
	return true
}

func (x *Interp) inverse(st *State, f string, v Lin) (Lin, bool) {
	fam := x.fams[f]
	if fam.V0 != nil && st.P.Reduce(*fam.V0).Eq(v) {
		return K(0), true
	}
	if fam.VN != nil && st.P.Reduce(*fam.VN).Eq(v) {
		return st.P.Reduce(*fam.N), true
	}
	for _, e := range st.memo[f] {
		if st.P.Reduce(e.v).Eq(v) {
			return st.P.Reduce(e.idx), true
		}
	}
	return Lin{}, false
}

// entry adds a family entry to the joined state.
func (p *pairing) entry(f string, ia, ib, va, vb Lin) {
	ia, ib = p.a.P.Reduce(ia), p.b.P.Reduce(ib)
	n := p.pair(ia, ib)
	k := f + "#" + lkey(n)
	if p.memoSeen[k] {
		return
	}
	p.memoSeen[k] = true
	v := p.pair(p.a.P.Reduce(va), p.b.P.Reduce(vb))
	p.n.memo[f] = append(p.n.memo[f], memoEnt{n, v})
}

func (p *pairing) match(f string, an anchor) {
	try := func(s *State, l Lin) []int64 {
		var cs []int64
		for _, e := range s.memo[f] {
			if c, ok := s.P.Reduce(e.idx).Sub(l).Const(); ok && c >= -1 && c <= 1 {
				cs = append(cs, c)
			}
		}
		return cs
	}
	if an.a.IsConst() && an.b.IsConst() && an.a.Eq(an.b) {
		return
	}
	ca, cb := try(p.a, an.a), try(p.b, an.b)
	get := func(s *State, idx Lin) (Lin, bool) {
		for _, e := range s.memo[f] {
			if s.P.Reduce(e.idx).Eq(idx) {
				return e.v, true
			}
		}
		return Lin{}, false
	}
	seen := map[int64]bool{}
	for side, cs := range [][]int64{ca, cb} {
		for _, c := range cs {
			if seen[c] {
				continue
			}
			seen[c] = true
			ia, ib := an.a.AddK(c), an.b.AddK(c)
			va, oka := get(p.a, ia)
			vb, okb := get(p.b, ib)
			if !oka && !okb {
				continue
			}
			if !oka || !okb {
				_ = side
				miss, at := p.a, ia
				if oka {
					miss, at = p.b, ib
				}
				fam := p.x.fams[f]
				zero := fam != nil && fam.N != nil && fam.Rev != nil && miss.P.Reduce(at.Sub(*fam.N)).IsK(0)
				zero = zero || miss.P.Reduce(at).IsK(0) && p.x.fams[f] != nil && p.x.fams[f].V0 != nil
				inst := fam != nil && fam.Inst && c <= 0
				if !zero && !inst && (c != 0 || !p.inst(f, oka, an, c)) {
					continue
				}
				p.dirty = p.dirty || inst
				if !oka {
					if !p.inDomain(p.a, f, ia) {
						continue
					}
					va = p.x.App(p.a, f, ia)
				} else {
					if !p.inDomain(p.b, f, ib) {
						continue
					}
					vb = p.x.App(p.b, f, ib)
				}
			}
			p.entry(f, ia, ib, va, vb)
		}
	}
}

// inst decides whether the missing side may be instantiated: only families
// that are determined by their axioms are worth it.
func (p *pairing) inst(f string, haveA bool, an anchor, c int64) bool {
	fam := p.x.fams[f]
	return fam != nil && (fam.Lo != nil || fam.V0 != nil)
}

func (p *pairing) inDomain(st *State, f string, idx Lin) bool {
	fam := p.x.fams[f]
	if !st.P.EntailsGE(idx) {
		return false
	}
	return fam.N == nil || st.P.EntailsGE(fam.N.Sub(idx))
}

// finish computes the two polyhedra over the joined names.
func (p *pairing) finish() {
	x := p.x
	if p.dirty {
		x.relink(p.a)
		x.relink(p.b)
	}
	keep := map[Sym]bool{}
	add := func(l Lin) {
		for _, t := range l.t {
			keep[t.s] = true
		}
	}
	for _, l := range p.leaves {
		add(l)
	}
	for _, es := range p.n.memo {
		for _, e := range es {
			add(e.idx)
			add(e.v)
		}
	}
	for _, an := range p.anch {
		_ = an
	}
	k := func(s Sym) bool { return s < 0 || s <= x.mark || keep[s] }
	if p.joining {
		// a symbol that only one of them constrains says nothing about both
		ma, mb := p.a.P.mentions(), p.b.P.mentions()
		k = func(s Sym) bool { return s < 0 || s <= x.mark && ma[s] && mb[s] || keep[s] }
	}
	p.pa, p.pb = p.a.P, p.b.P
	for _, d := range p.defs {
		p.pa.AddEq(d.n.Sub(d.a))
		p.pb.AddEq(d.n.Sub(d.b))
	}
	p.pa.Project(k)
	p.pb.Project(k)
	if a, b := p.a.amb, p.b.amb; len(a) > 0 && len(a) == len(b) && &a[0] == &b[0] {
		p.n.amb = a
		for _, l := range a {
			p.pa.AddGE(l)
			p.pb.AddGE(l)
		}
	}
	// sets
	for _, an := range p.anch {
		s, ok := an.n.Single()
		if !ok {
			continue
		}
		sa, oka := x.anySet(p.a, an.a)
		sb, okb := x.anySet(p.b, an.b)
		if oka && okb && !(p.a.P.Reduce(an.a).IsConst() && p.b.P.Reduce(an.b).IsConst()) {
			p.n.sets[s] = sa.union(sb)
		}
	}
	for s := range p.a.sets {
		if _, done := p.n.sets[s]; done || !k(s) {
			continue
		}
		sa, oka := x.anySet(p.a, V(s))
		sb, okb := x.anySet(p.b, V(s))
		if oka && okb {
			p.n.sets[s] = sa.union(sb)
		}
	}
	for f, es := range p.a.mats {
		for _, e := range es {
			for _, g := range p.b.mats[f] {
				if g.obj == e.obj && p.a.P.Reduce(e.idx).Eq(p.b.P.Reduce(g.idx)) {
					p.n.mats[f] = append(p.n.mats[f], e)
				}
			}
		}
	}
}

// anySet is the set of values of l: a tracked set or a constant.
func (x *Interp) anySet(st *State, l Lin) (*RuneSet, bool) {
	r := st.P.Reduce(l)
	if c, ok := r.Const(); ok {
		return NewSet([2]int64{c, c}), true
	}
	set, _, sg, c, ok := x.setOf(st, r)
	if !ok {
		return nil, false
	}
	if sg == -1 {
		set = set.Neg()
	}
	return set.Shift(c), true
}

func (p *pairing) build(poly *Poly) *State {
	m := &maker{x: p.x, st: p.n, L: p.leaves, obj: p.objs}
	p.n.P = poly
	st := p.da.mk(m)
	for f, es := range p.n.mats {
		for _, e := range es {
			if st.heap[e.obj] == nil {
				st.heap[e.obj] = p.a.heap[e.obj]
			}
		}
		_ = f
	}
	p.x.relink(st)
	return st
}

// Join over-approximates both states; nil when their shapes differ.
func (x *Interp) Join(a, b *State, widen bool) *State {
	p := x.relate(a, b, x.rename)
	if p == nil {
		return nil
	}
	p.joining = true
	g1, g2 := len(p.a.P.ge), len(p.b.P.ge)
	p.finish()
	if DebugJoin {
		nm := 0
		for _, e := range p.n.memo {
			nm += len(e)
		}
		fmt.Printf("JOIN leaves %d memo %d ge %d,%d -> %d,%d eq %d,%d\n", len(p.leaves), nm, g1, g2, len(p.pa.ge), len(p.pb.ge), len(p.pa.eq), len(p.pb.eq))
	}
	var r *Poly
	if widen {
		r = widenPoly(p.pa, p.pb)
	} else {
		r = joinPoly(p.pa, p.pb)
	}
	return p.build(r)
}

// loosen drops the inequalities of inv that b does not satisfy; nil when there
// is something else that b does not satisfy.
func (x *Interp) loosen(inv, b *State) *State {
	p := x.relate(inv, b, true)
	if p == nil {
		return nil
	}
	p.finish()
	back := map[Sym]Lin{}
	for _, d := range p.defs {
		if s, ok := d.n.Single(); ok {
			back[s] = d.a
		}
	}
	drop := map[string]bool{}
	for _, l := range p.pa.ge {
		if p.pb.EntailsGE(l) {
			continue
		}
		r := K(l.c)
		for _, t := range l.t {
			if a, ok := back[t.s]; ok {
				r = r.addMul(t.c, a)
			} else {
				r = r.addMul(t.c, V(t.s))
			}
		}
		drop[inv.P.Reduce(r).String()] = true
	}
	n := inv.Clone()
	q := NewPoly()
	q.pts = n.P.pts
	for s, l := range n.P.eq {
		q.eq[s] = l
	}
	gone := 0
	for _, l := range n.P.ge {
		if drop[inv.P.Reduce(l).String()] {
			gone++
			continue
		}
		q.ge = append(q.ge, l)
	}
	n.P = q
	if gone == 0 {
		return nil
	}
	return n
}

// Covers reports whether inv over-approximates b.
func (x *Interp) Covers(inv, b *State) (bool, string) {
	p := x.relate(inv, b, true)
	if p == nil {
		return false, "shape"
	}
	p.finish()
	for s, u := range p.n.sets {
		var sa *RuneSet
		ok := false
		// the set claimed by inv
		for _, an := range p.anch {
			if t, single := an.n.Single(); single && t == s {
				sa, ok = x.anySet(p.a, an.a)
			}
		}
		if !ok {
			sa, ok = x.anySet(p.a, V(s))
		}
		if ok && !u.Minus(sa).Empty() {
			return false, "set"
		}
	}
	// sets claimed by inv that b lacks
	for _, an := range p.anch {
		if _, oka := x.anySet(p.a, an.a); oka && !p.a.P.Reduce(an.a).IsConst() {
			if _, okb := x.anySet(p.b, an.b); !okb {
				return false, "set missing"
			}
		}
	}
	for _, l := range p.pa.eqRows() {
		if !p.pb.EntailsEQ(l) {
			return false, fmt.Sprint("eq ", l)
		}
	}
	for _, l := range p.pa.ge {
		if !p.pb.EntailsGE(l) {
			return false, fmt.Sprint("ge ", l)
		}
	}
	return true, ""
}

// Key is the shape of a state.
func (x *Interp) Key(st *State) string { return x.decompose(st).key.String() }

// Merge joins states of equal shape when there are more than max.
func (x *Interp) Merge(sts []*State, max int) []*State {
	var live []*State
	for _, s := range sts {
		if !s.dead && !s.P.bot {
			live = append(live, s)
		}
	}
	if len(live) <= max {
		return live
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range live {
		for _, o := range s.heapSeqs() {
			n := *s.heap[o]
			n.Seq = x.normSeq(s, n.Elem, n.Seq, n.Name != "array")
			s.heap[o] = &n
		}
		k := x.Key(s)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		cur := g[0]
		for _, s := range g[1:] {
			if j := x.Join(cur, s, false); j != nil {
				cur = j
			} else {
				out = append(out, s)
			}
		}
		out = append(out, cur)
	}
	return out
}

func (st *State) heapSeqs() []ObjID {
	var ids []ObjID
	for id, o := range st.heap {
		if o.Seq != nil {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

var DebugJoin bool

// widenPoly keeps what is stable.
func widenPoly(a, b *Poly) *Poly {
	if a.bot {
		return b.Clone()
	}
	if b.bot {
		return a.Clone()
	}
	r := NewPoly()
	for _, l := range joinEq(a, b) {
		r.AddEq(l)
	}
	for _, l := range a.ge {
		if b.EntailsGE(l) {
			r.AddGE(l)
		}
	}
	for _, l := range a.eqRows() {
		if !r.EntailsEQ(l) {
			if b.EntailsGE(l) {
				r.AddGE(l)
			}
			if b.EntailsGE(l.Neg()) {
				r.AddGE(l.Neg())
			}
		}
	}
	if pairWiden {
		pairUp(r, a, b)
	}
	return r
}

// pairWiden makes widening relate variables that were constants.
var pairWiden bool

// pairUp adds to r the facts about one or two variables that follow in a from
// an equality that r lacks, and that b satisfies.
func pairUp(r, a, b *Poly) {
	var rows []Lin
	for _, l := range a.eqRows() {
		if len(l.t) <= 2 && !r.EntailsEQ(l) {
			rows = append(rows, l, l.Neg())
		}
	}
	n := len(rows)
	for _, l := range a.ge {
		if len(l.t) <= 2 {
			rows = append(rows, l)
		}
	}
	for i, l := range rows[:n] {
		for _, m := range rows[i+1:] {
			if c := l.Add(m); len(c.t) > 0 && len(c.t) <= 2 && b.EntailsGE(c) && !r.EntailsGE(c) {
				r.AddGE(c)
			}
		}
	}
}
