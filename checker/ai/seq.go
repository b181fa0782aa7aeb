package ai

import (
	"fmt"
	"go/types"
)

const maxElems = 4

// specOf is the summary in use for an element type.
func (x *Interp) specOf(elem types.Type) *ChainSpec {
	if elem == nil {
		return nil
	}
	if len(x.Specs) > 0 {
		if sp := x.Specs[types.TypeString(elem, nil)]; sp != nil {
			return sp
		}
	}
	if x.SpecFor != nil {
		return x.SpecFor(elem)
	}
	return nil
}

// appendElem appends v.
func (x *Interp) appendElem(st *State, elem types.Type, q *Seq, v Val) *Seq {
	n := len(q.Segs)
	segs := append([]Seg(nil), q.Segs...)
	if n > 0 && segs[n-1].Kind == sElems {
		l := segs[n-1]
		es := append(append([]Val(nil), l.Elems...), v)
		segs[n-1] = Seg{Kind: sElems, Elems: es, Pend: l.Pend}
		if len(es) <= maxElems {
			return &Seq{segs}
		}
		return x.normSeq(st, elem, &Seq{segs}, true)
	}
	return &Seq{append(segs, Seg{Kind: sElems, Elems: []Val{v}})}
}

// normSeq is applied at loop heads: elements are summarised.
func (x *Interp) normSeq(st *State, elem types.Type, q *Seq, all bool) *Seq {
	sp := x.specOf(elem)
	var segs []Seg
	empty := func(l Lin) bool { return st.P.Reduce(l).IsK(0) }
	for _, s := range q.Segs {
		switch s.Kind {
		case sElems:
			if len(s.Elems) == 0 {
				continue
			}
		case sSrc, sFill, sTop:
			if empty(s.Len()) {
				continue
			}
		}
		segs = append(segs, s)
	}
	if len(segs) == 0 {
		return &Seq{}
	}
	// [chain] elems ... at the front are summarised, but for the last element
	if sp == nil {
		if !all && len(segs) == 1 && segs[0].Kind == sElems && len(segs[0].Elems) <= 16 {
			return q // an array does not grow
		}
		var out []Seg
		for i, s := range segs {
			if s.Kind == sElems && (i > 0 || len(s.Elems) > 0) {
				k := len(s.Elems)
				pre := K(int64(k - 1))
				if m := len(out); m > 0 && out[m-1].Kind == sTop {
					out[m-1].N = out[m-1].N.Add(pre)
				} else if m == 0 || out[m-1].Kind != sElems {
					out = append(out, Seg{Kind: sTop, N: pre})
				}
				out = append(out, Seg{Kind: sElems, Elems: s.Elems[k-1:], Pend: s.Pend >> uint(k-1)})
				continue
			}
			if m := len(out); s.Kind == sTop && m > 0 && out[m-1].Kind == sTop {
				out[m-1].N = out[m-1].N.Add(s.N)
				continue
			}
			out = append(out, s)
		}
		return &Seq{out}
	}
	var pre []Seg
	for sp.AfterSrc && len(segs) > 0 && segs[0].Kind == sSrc {
		pre, segs = append(pre, segs[0]), segs[1:]
	}
	lead := len(segs) > 0 && segs[0].Kind == sSrc && (len(segs) > 1 && sp.PushSrc != nil || sp.SplitSrc != nil)
	lead = lead || len(segs) > 1 && segs[0].Kind == sFill && sp.Fills
	if len(segs) == 0 || segs[0].Kind != sElems && segs[0].Kind != sChain && !lead {
		return &Seq{append(pre, segs...)}
	}
	keep := 1
	if sp.All {
		if all {
			keep = 0
		} else if len(segs) == 1 && segs[0].Kind == sElems && len(pre) == 0 {
			return q // the arguments of a call
		}
	}
	out, rest := x.chainOf(st, sp, pre, segs, keep)
	if lead && len(rest) == len(segs) && segs[0].Kind == sSrc && sp.SplitSrc == nil {
		return &Seq{append(pre, segs...)}
	}
	res := append(append(pre, Seg{Kind: sChain, C: out}), rest...)
	x.checkPending(st, sp, res)
	return &Seq{res}
}

// checkPending checks the elements stored since they were last checked.
func (x *Interp) checkPending(st *State, sp *ChainSpec, segs []Seg) {
	n := K(0)
	for i, s := range segs {
		if s.Kind == sElems && s.Pend != 0 {
			for j, v := range s.Elems {
				if s.Pend>>uint(j)&1 != 0 {
					x.checkElem(st, sp, &Seq{segs[:i]}, n.AddK(int64(j)), v)
				}
			}
			segs[i].Pend = 0
		}
		n = n.Add(s.Len())
	}
}

// CheckStored checks the elements of v that were not checked since they were
// stored.
func (x *Interp) CheckStored(st *State, v SliceV, elem types.Type) {
	if sp := x.specOf(elem); sp != nil {
		if segs, ok := x.contents(st, v); ok {
			x.checkPending(st, sp, append([]Seg(nil), segs...))
		}
	}
}

// checkElem checks v, element n of a sequence that starts with q.
func (x *Interp) checkElem(st *State, sp *ChainSpec, q *Seq, n Lin, v Val) {
	if sp.Check != nil && !st.unreachable() {
		sp.Check(x, st, n, v)
	}
	if sp.CheckQ != nil && !st.unreachable() {
		sp.CheckQ(x, st, q, n, v)
	}
}

// chainOf pushes the elements at the front of segs to a chain; keep elements
// stay behind.
func (x *Interp) chainOf(st *State, sp *ChainSpec, pre, segs []Seg, keep int) (*Chain, []Seg) {
	lead := K(0)
	for _, s := range pre {
		lead = lead.Add(s.Len())
	}
	c := &Chain{Spec: sp, N: K(0), R: sp.Init(x, st)}
	i := 0
	if len(segs) > 0 && segs[0].Kind == sChain && segs[0].C.Spec == sp {
		c = segs[0].C
		i = 1
	} else if sp.First != nil && len(segs) > 0 && segs[0].Kind == sElems && len(segs[0].Elems) > 0 {
		c.R = sp.First(x, st, segs[0].Elems[0])
	}
	for ; i < len(segs); i++ {
		s := segs[i]
		switch s.Kind {
		case sElems:
			es, pend := s.Elems, s.Pend
			k := 0
			if i == len(segs)-1 || segs[i+1].Kind == sFill || keep == 0 {
				k = keep
			}
			for len(es) > k {
				if pend&1 != 0 {
					x.checkElem(st, sp, &Seq{pre}, lead.Add(c.N), es[0])
				}
				pend >>= 1
				c = &Chain{Spec: sp, N: c.N.AddK(1), R: sp.Push(x, st, c.R, c.N, es[0])}
				x.freeze(st, es[0])
				es = es[1:]
			}
			if len(es) > 0 {
				return c, append([]Seg{{Kind: sElems, Elems: es, Pend: pend}}, segs[i+1:]...)
			}
			continue
		case sFill:
			if sp.Fills && i < len(segs)-1 {
				st.P.AddGE(s.Len()) // no length is negative
				x.checkRun(st, sp, c.N, s)
				c = &Chain{Spec: sp, N: c.N.Add(s.Len()), R: c.R}
				continue
			}
		case sSrc, sTop:
			if s.Kind == sSrc && sp.SplitSrc != nil {
				if k, ok := sp.SplitSrc(x, st, c.N, s); ok {
					a, b := s, s
					a.Hi, b.Lo = k, k
					if r, ok := sp.PushSrc(x, st, c.R, c.N, a); ok {
						c = &Chain{Spec: sp, N: c.N.Add(a.Len()), R: r}
						if x.ProveEQ(st, b.Len()) {
							continue
						}
						return c, append([]Seg{b}, segs[i+1:]...)
					}
				}
			}
			if sp.PushSrc != nil {
				if r, ok := sp.PushSrc(x, st, c.R, c.N, s); ok {
					c = &Chain{Spec: sp, N: c.N.Add(s.Len()), R: r}
					continue
				}
			}
		}
		return c, segs[i:]
	}
	return c, nil
}

// checkRun checks any element of the run s that starts at element n.
func (x *Interp) checkRun(st *State, sp *ChainSpec, n Lin, s Seg) {
	q := st.Clone()
	o := x.FreshNat(q, "o")
	q.P.AddGE(s.Len().Sub(o).AddK(-1))
	if q.unreachable() {
		return
	}
	switch s.Kind {
	case sFill:
		sp.Check(x, q, n.Add(o), s.Zero)
	case sSrc:
		for _, e := range s.Src.Elem(x, q, s.Lo.Add(o)) {
			if !e.St.unreachable() {
				sp.Check(x, e.St, n.Add(o), e.V)
			}
		}
	default:
		sp.Check(x, q, n.Add(o), nil)
	}
}

// ChainOf summarises a whole sequence, nil if it is not one chain.
func (x *Interp) ChainOf(st *State, v SliceV, elem types.Type) *Chain {
	sp := x.specOf(elem)
	if sp == nil {
		return nil
	}
	segs, ok := x.contents(st, v)
	if !ok {
		return nil
	}
	c, rest := x.chainOf(st, sp, nil, segs, 0)
	if len(rest) == 1 && rest[0].Kind == sFill && sp.PushSrc != nil && !x.ProveEQ(st, rest[0].Len()) {
		if r, ok := sp.PushSrc(x, st, c.R, c.N, rest[0]); ok {
			return &Chain{Spec: sp, N: c.N.Add(rest[0].Len()), R: r}
		}
	}
	for _, s := range rest {
		if s.Kind == sFill {
			st.P.AddGE(s.Len()) // no length is negative
		}
		if !x.ProveEQ(st, s.Len()) {
			return nil
		}
	}
	return c
}

// sub returns the part [off, off+n) of q; it forks when the position within
// the segments is not known.
func (x *Interp) sub(st *State, q *Seq, off, n Lin) ([]Seg, bool) {
	p := st.P
	start := K(0)
	end := off.Add(n)
	var out []Seg
	for _, s := range q.Segs {
		sl := s.Len()
		e := start.Add(sl)
		// overlap of [start,e) and [off,end)
		if x.ProveGE(st, off.Sub(e)) || x.ProveGE(st, start.Sub(end)) {
			start = e
			continue
		}
		lo, hi := start, e
		loIn := x.ProveGE(st, start.Sub(off))
		hiIn := x.ProveGE(st, end.Sub(e))
		if !loIn {
			if !x.ProveGE(st, off.Sub(start)) {
				return nil, false
			}
			lo = off
		}
		if !hiIn {
			if !x.ProveGE(st, e.Sub(end)) {
				return nil, false
			}
			hi = end
		}
		if loIn && hiIn {
			out = append(out, s)
		} else {
			a, b := lo.Sub(start), hi.Sub(start)
			switch s.Kind {
			case sSrc:
				out = append(out, Seg{Kind: sSrc, Src: s.Src, Lo: s.Lo.Add(a), Hi: s.Lo.Add(b)})
			case sFill:
				out = append(out, Seg{Kind: sFill, Zero: s.Zero, N: b.Sub(a)})
			case sTop:
				out = append(out, Seg{Kind: sTop, N: b.Sub(a)})
			case sElems:
				ca, ok1 := p.Reduce(a).Const()
				cb, ok2 := p.Reduce(b).Const()
				if !ok1 || !ok2 || ca < 0 || cb > int64(len(s.Elems)) || ca > cb {
					return nil, false
				}
				if ca < cb {
					out = append(out, Seg{Kind: sElems, Elems: s.Elems[ca:cb], Pend: s.Pend >> uint(ca)})
				}
			default:
				out = append(out, Seg{Kind: sTop, N: b.Sub(a)})
			}
		}
		start = e
	}
	return out, true
}

// readAt reads element idx (absolute in the object) of a sequence object; idx
// is known to be in range.
func (x *Interp) readAt(st *State, id ObjID, idx Lin) []ElemOut {
	o := st.heap[id]
	for _, r := range o.Reads {
		if st.P.Reduce(r.idx.Sub(idx)).IsK(0) {
			return []ElemOut{{st, r.v}}
		}
	}
	for _, r := range o.Reads {
		d := st.P.Reduce(r.idx.Sub(idx))
		if !d.IsConst() && st.P.EntailsEQ(d) {
			return []ElemOut{{st, r.v}}
		}
	}
	if o.Bad != "" {
		x.Unsupported("read|"+o.Name, "contents unknown: "+o.Bad)
		return []ElemOut{{st, x.Havoc(st, o.Elem, "elem")}}
	}
	var out []ElemOut
	start := K(0)
	cur := st
	for i, s := range o.Seq.Segs {
		if cur == nil {
			break
		}
		sl := s.Len()
		end := start.Add(sl)
		last := i == len(o.Seq.Segs)-1
		var in []*State
		if last {
			in = x.Assume(cur, FGE(end.Sub(idx).AddK(-1)))
			cur = nil
		} else {
			yes, no := x.ForkBool(cur, FGE(end.Sub(idx).AddK(-1)))
			in = yes
			cur = nil
			if len(no) > 0 {
				cur = no[0]
			}
		}
		for _, s2 := range in {
			for _, e := range x.readSeg(s2, id, o, s, start, idx) {
				if e.St.dead || e.St.P.bot {
					continue
				}
				if s.Kind == sSrc || s.Kind == sFill || s.Kind == sElems || s.Kind == sChain && s.C.Spec.Pure {
					// read again with the same result
					out = append(out, e)
					continue
				}
				n := *e.St.heap[id]
				n.Reads = append(append([]readEnt(nil), n.Reads...), readEnt{idx, e.V})
				e.St.heap[id] = &n
				out = append(out, ElemOut{e.St, e.V})
			}
		}
		start = end
	}
	return out
}

func (x *Interp) readSeg(st *State, id ObjID, o *Obj, s Seg, start, idx Lin) []ElemOut {
	j := st.P.Reduce(idx.Sub(start))
	switch s.Kind {
	case sElems:
		if c, ok := j.Const(); ok {
			if c < 0 || c >= int64(len(s.Elems)) {
				return nil
			}
			return []ElemOut{{st, s.Elems[c]}}
		}
		var out []ElemOut
		for c, e := range s.Elems {
			for _, s2 := range x.Assume(st.Clone(), FEQ(j.AddK(-int64(c)))) {
				out = append(out, ElemOut{s2, e})
			}
		}
		return out
	case sSrc:
		return s.Src.Elem(x, st, s.Lo.Add(j))
	case sFill:
		return []ElemOut{{st, s.Zero}}
	case sChain:
		if e := s.C.Spec.Elem; e != nil {
			if out := e(x, st, s.C.R, s.C.N, j); out != nil {
				return out
			}
		}
	}
	return []ElemOut{{st, x.Havoc(st, o.Elem, "top")}}
}

// storeAt replaces element idx through f.
func (x *Interp) storeAt(st *State, id ObjID, idx Lin, f func(st *State, old Val) []ElemOut) []*State {
	var outs []*State
	o := st.heap[id]
	x.thaw(o)
	if o.Bad != "" {
		return []*State{st}
	}
	start := K(0)
	cur := st
	for i, s := range o.Seq.Segs {
		if cur == nil {
			break
		}
		end := start.Add(s.Len())
		last := i == len(o.Seq.Segs)-1
		var in []*State
		if last {
			in = x.Assume(cur, FGE(end.Sub(idx).AddK(-1)))
			cur = nil
		} else {
			yes, no := x.ForkBool(cur, FGE(end.Sub(idx).AddK(-1)))
			in, cur = yes, nil
			if len(no) > 0 {
				cur = no[0]
			}
		}
		for _, s2 := range in {
			outs = append(outs, x.storeSeg(s2, id, i, start, idx, f)...)
		}
		start = end
	}
	return outs
}

func (x *Interp) setSegs(st *State, id ObjID, segs []Seg, idx Lin, v Val) {
	o := *st.heap[id]
	o.Checked = true
	o.Seq = &Seq{segs}
	// keep the reads that are certainly of other elements
	var rs []readEnt
	for _, r := range o.Reads {
		if st.P.EntailsNE(r.idx.Sub(idx)) {
			rs = append(rs, r)
		}
	}
	o.Reads = append(rs, readEnt{idx, v})
	st.heap[id] = &o
}

func (x *Interp) storeSeg(st *State, id ObjID, i int, start, idx Lin, f func(st *State, old Val) []ElemOut) []*State {
	o := st.heap[id]
	s := o.Seq.Segs[i]
	j := st.P.Reduce(idx.Sub(start))
	var outs []*State
	rep := func(n ...Seg) []Seg {
		out := append([]Seg(nil), o.Seq.Segs[:i]...)
		for _, g := range n {
			if g.Kind == sElems && len(g.Elems) == 0 {
				continue
			}
			out = append(out, g)
		}
		return append(out, o.Seq.Segs[i+1:]...)
	}
	switch s.Kind {
	case sElems:
		for c, e := range s.Elems {
			var ss []*State
			if k, ok := j.Const(); ok {
				if k != int64(c) {
					continue
				}
				ss = []*State{st}
			} else {
				ss = x.Assume(st.Clone(), FEQ(j.AddK(-int64(c))))
			}
			for _, s2 := range ss {
				for _, r := range f(s2, e) {
					es := append([]Val(nil), s.Elems...)
					es[c] = r.V
					x.setSegs(r.St, id, rep(Seg{Kind: sElems, Elems: es, Pend: s.Pend | 1<<uint(c)}), idx, r.V)
					outs = append(outs, r.St)
				}
			}
		}
		return outs
	case sFill, sSrc:
		yes, no := x.ForkBool(st, FEQ(j))
		for _, s2 := range yes {
			old := []ElemOut{{s2, s.Zero}}
			if s.Kind == sSrc {
				old = s.Src.Elem(x, s2, s.Lo)
			}
			for _, od := range old {
				for _, r := range f(od.St, od.V) {
					v := r.V
					rest := s
					if s.Kind == sSrc {
						rest.Lo = s.Lo.AddK(1)
					} else {
						rest.N = s.N.AddK(-1)
					}
					// merge into the segment before
					segs := append([]Seg(nil), o.Seq.Segs[:i]...)
					pre := x.appendElem(r.St, o.Elem, &Seq{segs}, v)
					all := append([]Seg(nil), pre.Segs...)
					l := &all[len(all)-1]
					l.Pend |= 1 << uint(len(l.Elems)-1)
					all = append(all, rest)
					all = append(all, o.Seq.Segs[i+1:]...)
					x.setSegs(r.St, id, all, idx, r.V)
					outs = append(outs, r.St)
				}
			}
		}
		sp := x.specOf(o.Elem)
		for _, s2 := range no {
			if s.Kind == sSrc && (s.Src.Split || sp != nil && sp.PushSrc != nil) {
				at := s.Lo.Add(j)
				for _, od := range s.Src.Elem(x, s2, at) {
					for _, r := range f(od.St, od.V) {
						x.setSegs(r.St, id, rep(Seg{Kind: sSrc, Src: s.Src, Lo: s.Lo, Hi: at}, Seg{Kind: sElems, Elems: []Val{r.V}, Pend: 1}, Seg{Kind: sSrc, Src: s.Src, Lo: at.AddK(1), Hi: s.Hi}), idx, r.V)
						outs = append(outs, r.St)
					}
				}
				continue
			}
			// out of order
			for _, r := range f(s2, x.Havoc(s2, o.Elem, "old")) {
				n := s.Len()
				x.setSegs(r.St, id, rep(Seg{Kind: sTop, N: n}), idx, r.V)
				outs = append(outs, r.St)
			}
		}
		return outs
	case sTop:
		for _, e := range x.readAt(st, id, idx) {
			for _, r := range f(e.St, e.V) {
				x.setSegs(r.St, id, rep(s), idx, r.V)
				outs = append(outs, r.St)
			}
		}
		return outs
	}
	// anything, or a summary: it is no longer one
	for _, e := range x.readAt(st, id, idx) {
		for _, r := range f(e.St, e.V) {
			x.setSegs(r.St, id, rep(Seg{Kind: sTop, N: s.Len()}), idx, r.V)
			outs = append(outs, r.St)
		}
	}
	return outs
}

// Havoc returns an arbitrary value of type t.
func (x *Interp) Havoc(st *State, t types.Type, why string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			v := x.Fresh("bool")
			st.P.AddGE(v)
			st.P.AddGE(K(1).Sub(v))
			return BoolV{FEQ(v.AddK(-1))}
		case u.Info()&types.IsInteger != 0:
			v := x.Fresh("any")
			if u.Kind() == types.Uint8 {
				st.P.AddGE(v)
				st.P.AddGE(K(255).Sub(v))
			}
			return IntV{L: v}
		case u.Info()&types.IsFloat != 0:
			x.nbase++
			return FloatV{fmt.Sprintf("any%d", x.nbase)}
		case u.Info()&types.IsString != 0:
			return StrV{[]Piece{{Kind: pSeq, Hi: x.FreshNat(st, "strlen")}}}
		}
	case *types.Struct:
		s := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.Havoc(st, u.Field(i).Type(), why))
		}
		return s
	case *types.Slice:
		n := x.FreshNat(st, "len")
		id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sTop, N: n}}}, Elem: u.Elem(), Name: "any"})
		return SliceV{id, K(0), n}
	case *types.Tuple:
		t := TupleV{}
		for i := 0; i < u.Len(); i++ {
			t = append(t, x.Havoc(st, u.At(i).Type(), why))
		}
		return t
	case *types.Array:
		a := ArrV{}
		for i := int64(0); i < u.Len() && i < 16; i++ {
			a.E = append(a.E, x.Havoc(st, u.Elem(), why))
		}
		return a
	case *types.Interface, *types.Pointer, *types.Signature, *types.Map:
		x.nbase++
		return OpaqueV{Tag: fmt.Sprintf("any:%s", types.TypeString(t, nil))}
	}
	x.Unsupported("havoc", t.String())
	return OpaqueV{Tag: "any"}
}

// freeze marks what v refers to: v is summarised, so that later changes of it
// would go unnoticed.
func (x *Interp) freeze(st *State, v Val) {
	var id ObjID
	switch v := v.(type) {
	case StructV:
		for _, f := range v.F {
			x.freeze(st, f)
		}
	case PtrV:
		if o := st.heap[v.Obj]; o != nil && o.Fwd == nil {
			id = v.Obj
		}
	case SliceV:
		id = v.Obj
	}
	if o := st.heap[id]; o != nil && !o.Shared && !o.Frozen {
		n := *o
		n.Frozen = true
		st.heap[id] = &n
	}
}

const rFrozen = "what a list refers to is not changed after it was added"

// thaw reports a change of a frozen object.
func (x *Interp) thaw(o *Obj) {
	if o.Frozen {
		if x.mute == 0 {
			x.Rep.Add(rFrozen, "changed|"+o.Name, "", false, "an object is changed that an element of a list refers to")
		}
	}
}
