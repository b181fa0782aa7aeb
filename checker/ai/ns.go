package ai

import (
	"go/types"
)

// NS is a symbolic normalized string that satisfies the invariants: any
// original, any normalized text, and one alignment for each byte of the
// normalized text; the bytes of a rune share theirs, they are ordered and lie
// inside the original text.
type NS struct {
	T          types.Type
	Ptr        PtrV
	Orig, Norm *StrBase
	Shift      Lin
	AS, AE     string // families: start and end of the alignment of rune k
	Bytes      bool   // of byte k instead
	Src        *Source
	Al         ObjID
	fo, fn     int
	fa, fs     int
	as, ae     int
	AT         types.Type
}

const nsPkg = "normalizedstring"

func (x *Interp) nsLayout(n *NS) {
	n.T = x.Type(nsPkg, "NormalizedString")
	n.fo, n.fn = FieldIdx(n.T, "original"), FieldIdx(n.T, "normalized")
	n.fa, n.fs = FieldIdx(n.T, "alignments"), FieldIdx(n.T, "originalShift")
	n.AT = x.Type(nsPkg, "AlignmentRange")
	n.as, n.ae = FieldIdx(n.AT, "start"), FieldIdx(n.AT, "end")
}

// NewNS declares an arbitrary normalized string.
func (x *Interp) NewNS(st *State, name string) *NS { return x.newNS(st, name, false) }

// newNS declares an arbitrary normalized string, with alignments by byte
// instead of by rune on request.
func (x *Interp) newNS(st *State, name string, bytes bool) *NS {
	n := &NS{Bytes: bytes}
	x.nsLayout(n)
	n.Orig = x.NewBase(st, name+".orig")
	n.Norm = x.NewBase(st, name+".norm")
	n.Norm.Track = true
	n.Shift = x.FreshNat(st, name+".shift")
	x.nsAligned(st, n, name)
	f := make([]Val, 4)
	f[n.fo], f[n.fn] = n.Orig.Whole(), n.Norm.Whole()
	f[n.fa] = SliceV{n.Al, K(0), n.Norm.N}
	f[n.fs] = IntV{L: n.Shift}
	n.Ptr = PtrV{Obj: x.NewObj(st, &Obj{V: StructV{f}, Elem: n.T, Name: "ns"})}
	x.Roots = []ObjID{n.Ptr.Obj}
	return n
}

// nsAligned declares the alignments of n.
func (x *Interp) nsAligned(st *State, n *NS, name string) {
	n.AS, n.AE = "AS:"+name, "AE:"+name
	last := n.Norm.R.AddK(-1)
	if n.Bytes {
		last = n.Norm.N.AddK(-1)
	}
	x.Decl(&Fam{Name: n.AS, Lo: I64(0), Keep: true, N: &last, Link: func(x *Interp, st *State, i, v Lin) {
		st.P.AddGE(v)
		if e, ok := x.at(st, n.AE, i); ok {
			st.P.AddGE(e.Sub(v))
		}
	}, OnNew: func(x *Interp, st *State, i, v Lin) {
		if _, ok := x.Find(st, n.AE, i); !ok {
			x.App(st, n.AE, i)
		}
	}})
	x.Decl(&Fam{Name: n.AE, Lo: I64(0), Keep: true, N: &last, Link: func(x *Interp, st *State, i, v Lin) {
		st.P.AddGE(n.Orig.N.Sub(v))
		if s, ok := x.at(st, n.AS, i); ok {
			st.P.AddGE(v.Sub(s))
		}
	}, OnNew: func(x *Interp, st *State, i, v Lin) {
		if _, ok := x.Find(st, n.AS, i); !ok {
			x.App(st, n.AS, i)
		}
	}})
	n.Src = &Source{Name: "al:" + name, N: n.Norm.N, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
		k := i
		if !n.Bytes {
			k = x.runeOfByte(st, n.Norm, i)
		}
		return []ElemOut{{st, n.mkAl(x.App(st, n.AS, k), x.App(st, n.AE, k))}}
	}}
	n.Al = x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: n.Src, Lo: K(0), Hi: n.Norm.N}}}, Elem: n.AT, Name: "alignments", Shared: true})
}

func (n *NS) mkAl(s, e Lin) Val {
	f := make([]Val, 2)
	f[n.as], f[n.ae] = IntV{L: s}, IntV{L: e}
	return StructV{f}
}

func (n *NS) al(v Val) (s, e Lin) {
	f := v.(StructV).F
	return f[n.as].(IntV).L, f[n.ae].(IntV).L
}

// runeOfByte is the index of the rune of b that byte i (known to exist) is
// part of.
func (x *Interp) runeOfByte(st *State, b *StrBase, i Lin) Lin {
	if k, ok := x.inRune(st, b, i); ok {
		return k
	}
	k := x.FreshNat(st, "k")
	st.P.AddGE(b.R.Sub(k).AddK(-1))
	p0 := x.App(st, b.posFam(), k)
	p1 := x.App(st, b.posFam(), k.AddK(1))
	st.P.AddGE(i.Sub(p0))
	st.P.AddGE(p1.Sub(i).AddK(-1))
	return k
}

// inRune finds a k with P(k) <= i < P(k+1).
func (x *Interp) inRune(st *State, b *StrBase, i Lin) (Lin, bool) {
	if st.P.Reduce(i).IsK(0) {
		return K(0), true
	}
	for _, e := range st.memo[b.posFam()] {
		d := st.P.Reduce(e.v.Sub(i))
		if c, ok := d.Const(); ok && c == 0 {
			return e.idx, true
		} else if ok && c == 1 {
			return e.idx.AddK(-1), true
		}
	}
	es := append([]memoEnt(nil), st.memo[b.posFam()]...)
	for _, e := range es {
		n, ok := x.at(st, b.posFam(), e.idx.AddK(1))
		if !ok {
			continue
		}
		if x.ProveGE(st, i.Sub(e.v)) && x.ProveGE(st, n.Sub(i).AddK(-1)) {
			return e.idx, true
		}
	}
	if k, ok := x.IndexAt(st, b, i); ok {
		return k, true
	}
	if k, ok := x.IndexAt(st, b, i.AddK(1)); ok {
		return k.AddK(-1), true
	}
	return Lin{}, false
}

// View is a normalized string as found in a state.
type View struct {
	Orig, Norm StrV
	Al         SliceV
	Shift      Lin
}

func (x *Interp) ViewNS(st *State, n *NS, p Val) (View, bool) {
	q, ok := p.(PtrV)
	if !ok {
		return View{}, false
	}
	es := x.load(st, q, nil, 0)
	if len(es) != 1 {
		return View{}, false
	}
	s, ok := es[0].V.(StructV)
	if !ok {
		return View{}, false
	}
	v := View{}
	v.Orig, _ = s.F[n.fo].(StrV)
	v.Norm, _ = s.F[n.fn].(StrV)
	v.Al, ok = s.F[n.fa].(SliceV)
	if l, isI := s.F[n.fs].(IntV); isI {
		v.Shift = l.L
	}
	return v, ok
}

// RangeVal makes a NormalizedRange or OriginalRange from a to b.
func (x *Interp) RangeVal(kind string, a, b Lin) Val {
	t := x.Type(nsPkg, kind)
	return IfaceV{t, x.buildRange(t, a, b)}
}

func (x *Interp) buildRange(t types.Type, a, b Lin) Val {
	u := t.Underlying().(*types.Struct)
	if u.NumFields() == 1 { // embedded
		return StructV{[]Val{x.buildRange(u.Field(0).Type(), a, b)}}
	}
	f := make([]Val, u.NumFields())
	f[FieldIdx(u, "start")] = IntV{L: a}
	f[FieldIdx(u, "end")] = IntV{L: b}
	return StructV{f}
}

// unchangedNS checks that the original text and the shift are as before.
func (x *Interp) unchangedNS(st *State, ns *NS, op, pos string) {
	v, ok := x.ViewNS(st, ns, ns.Ptr)
	ok = ok && x.isSub(st, v.Orig, ns.Orig, K(0), ns.Orig.N) && x.ProveEQ(st, v.Shift.Sub(ns.Shift))
	x.Obl(rOrig, op, pos, ok, "after %s the original text or its position changed", op)
}
