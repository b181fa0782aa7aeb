package ai

import (
	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// Building, slicing and reading normalized strings.

const (
	rInit   = "a new normalized string is aligned with itself"
	rCut    = "a slice carries the text and alignments of its range"
	rPlace  = "a slice knows where its original text comes from"
	rMono   = "the alignments of a slice are ordered and inside its original text"
	rGet    = "a getter that succeeds gives the range asked for"
	rConv   = "a converted range goes forward and lies inside the text"
	rBounds = "slicing succeeds only on rune boundaries"
	rRefuse = "only out-of-range requests are refused"
	rAlias  = "a slice shares nothing that can change with its source"
)

// CheckFromString verifies the first alignments.
func (x *Interp) CheckFromString(base *State) {
	st := base.Clone()
	ns := &NS{}
	x.nsLayout(ns)
	b := x.NewBase(st, "s")
	b.Track = true
	fn := x.Func(nsPkg, "FromString")
	pos := x.Prog.Pos(fn.Pos())
	x.Spec(ns.AT, &ChainSpec{
		Name: "alignments",
		Init: func(x *Interp, st *State) []Val { return nil },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val { return nil },
		CheckQ: func(x *Interp, st *State, q *Seq, n Lin, v Val) {
			as, ae := ns.al(v)
			k, ok := x.inRune(st, b, n)
			ok = ok && x.ProveEQ(st, as.Sub(x.App(st, b.posFam(), k))) && x.ProveEQ(st, ae.Sub(x.App(st, b.posFam(), k.AddK(1))))
			if !st.unreachable() {
				x.Obl(rInit, "FromString|alignment", pos, ok, "byte %s gets the alignment %s, %s", st.P.Reduce(n), st.P.Reduce(as), st.P.Reduce(ae))
			}
		},
	})
	defer x.Spec(ns.AT, nil)
	st.Ambient()
	x.RulePanic, x.NoPanics = rSafe, true
	outs := x.Run(st, fn, b.Whole())
	x.RulePanic, x.NoPanics = rSafe, true
	n := 0
	for _, o := range outs {
		s := o.St
		if o.Panic || s.unreachable() {
			continue
		}
		n++
		x.ends(s, b)
		v, ok := x.ViewNS(s, ns, o.Ret)
		if !ok {
			x.Obl(rInit, "FromString|result", pos, false, "the result cannot be seen")
			continue
		}
		x.CheckStored(s, v.Al, ns.AT)
		x.Obl(rInit, "FromString|texts", pos, x.isSub(s, v.Norm, b, K(0), b.N) && x.isSub(s, v.Orig, b, K(0), b.N), "the original or the normalized text is not the given text")
		x.CheckEQ(s, rOne, "FromString", pos, v.Al.Len.Sub(b.N), "there are %s alignments for %s bytes", s.P.Reduce(v.Al.Len), s.P.Reduce(b.N))
		x.CheckEQ(s, rPlace, "FromString|position", pos, v.Shift, "the position is %s", s.P.Reduce(v.Shift))
	}
	x.Obl(rInit, "FromString|returns", pos, n > 0, "FromString never returns")
}

// rangeCase is one kind of request.
type rangeCase struct {
	kind string
	a, b Lin
	val  Val
}

// anyRange is an arbitrary range.
func (x *Interp) anyRange(st *State, kind string) rangeCase {
	a, b := x.Fresh("from"), x.Fresh("to")
	st.SetG("@from", a)
	st.SetG("@to", b)
	return rangeCase{kind, a, b, x.RangeVal(kind, a, b)}
}

// in is the request as known in st.
func (r rangeCase) in(st *State) rangeCase {
	r.a, r.b = st.G("@from"), st.G("@to")
	return r
}

// CheckSlice verifies Slice for arbitrary requests.
func (x *Interp) CheckSlice(base *State) {
	for _, kind := range []string{"NormalizedRange", "OriginalRange"} {
		x.sliceCase(base.Clone(), kind)
	}
}

func (x *Interp) sliceCase(st *State, kind string) {
	ns := x.newNS(st, "ns", true)
	ns.Orig.Track = true
	rg := x.anyRange(st, kind)
	fn := x.Method(nsPkg, "NormalizedString", "Slice")
	pos := x.Prog.Pos(fn.Pos())
	normal := kind == "NormalizedRange"
	key := "Slice(" + kind + ")|"
	x.Spec(ns.AT, &ChainSpec{
		Name: "alignments",
		Init: func(x *Interp, st *State) []Val { return nil },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val { return nil },
		CheckQ: func(x *Interp, st *State, q *Seq, n Lin, v Val) {
			from, shift := x.cutOf(st, ns, normal, rg.in(st))
			as, ae := ns.al(v)
			ok := x.ProveEQ(st, as.Add(shift).Sub(x.App(st, ns.AS, from.Add(n)))) && x.ProveEQ(st, ae.Add(shift).Sub(x.App(st, ns.AE, from.Add(n))))
			if !st.unreachable() {
				x.Obl(rCut, key+"alignment", pos, ok, "byte %s of the slice gets the alignment %s, %s", st.P.Reduce(n), st.P.Reduce(as), st.P.Reduce(ae))
			}
		},
	})
	defer x.Spec(ns.AT, nil)
	x.watchShared(ns, key)
	x.stubCoerce(ns, rg)
	defer delete(x.Stubs, coerceName)
	st.Ambient()
	x.RulePanic, x.NoPanics = rSafe, true
	outs := x.Run(st, fn, ns.Ptr, rg.val)
	x.RulePanic, x.NoPanics = rSafe, true
	text := ns.Norm
	if !normal {
		text = ns.Orig
	}
	good := 0
	for _, o := range outs {
		if o.Panic || o.St.unreachable() {
			continue
		}
		rg := rg.in(o.St)
		t := o.Ret.(TupleV)
		yes, no := x.ForkBool(o.St, x.boolOf(t[1]))
		for _, s := range no {
			if normal {
				// refused: one end is not a boundary, or the range goes backwards
				bad := x.notBoundary(s, text, rg.a) || x.notBoundary(s, text, rg.b) || x.ProveGE(s, rg.a.Sub(rg.b).AddK(-1))
				if !s.unreachable() {
					x.Obl(rRefuse, key+"refused", pos, bad, "a range on rune boundaries may be refused")
				}
			}
		}
		for _, s := range yes {
			good++
			v, ok := x.ViewNS(s, ns, t[0])
			if !ok {
				x.Obl(rCut, key+"result", pos, false, "the slice cannot be seen")
				continue
			}
			_, ok1 := x.IndexAt(s, text, rg.a)
			_, ok2 := x.IndexAt(s, text, rg.b)
			if s.unreachable() {
				continue
			}
			x.Obl(rBounds, key+"boundaries", pos, ok1 && ok2, "a range that is not on rune boundaries may succeed")
			x.CheckEQ(s, rOne, key+"lengths", pos, v.Al.Len.Sub(strLen0(v.Norm)), "there are %s alignments for %s bytes", s.P.Reduce(v.Al.Len), s.P.Reduce(strLen0(v.Norm)))
			if normal {
				x.Obl(rCut, key+"text", pos, x.isSub(s, v.Norm, ns.Norm, rg.a, rg.b), "the text is %s", showVal(s, v.Norm))
			} else {
				x.Obl(rCut, key+"text", pos, x.isSub(s, v.Orig, ns.Orig, rg.a, rg.b) || x.ProveEQ(s, rg.a.Sub(rg.b)) && x.ProveEQ(s, strLen0(v.Orig)), "the original text is %s", showVal(s, v.Orig))
			}
			// non-empty slices know their place
			nz, z := x.ForkBool(s.Clone(), FGE(strLen0(v.Norm).AddK(-1)))
			for _, q := range nz {
				x.placeOf(q, ns, v, key, pos, normal, rg)
			}
			for _, q := range z {
				x.CheckEQ(q, rOne, key+"empty", pos, v.Al.Len, "an empty slice has %s alignments", q.P.Reduce(v.Al.Len))
			}
			x.CheckStored(s, v.Al, ns.AT)
			x.inside(s, ns, v, key, pos, normal, rg)
		}
		x.unchangedNS(o.St, ns, "Slice", pos)
	}
	x.Obl(rCut, key+"succeeds", pos, good > 0, "Slice never succeeds")
}

const coerceName = "(*" + core.ModPath + "/normalizedstring.NormalizedString).CoerceRangeToNormalized"

// isRange gives the bounds of a range of the given kind.
func (x *Interp) isRange(v Val, kind string) (a, b Lin, ok bool) {
	if i, isI := v.(IfaceV); isI {
		if i.T.String() != x.Type(nsPkg, kind).String() {
			return
		}
		v = i.V
	}
	s, isS := v.(StructV)
	for isS && len(s.F) == 1 {
		s, isS = s.F[0].(StructV)
	}
	if !isS || len(s.F) != 2 {
		return
	}
	k := FieldIdx(x.Type(nsPkg, kind), "start")
	va, ok1 := s.F[k].(IntV)
	vb, ok2 := s.F[1-k].(IntV)
	return va.L, vb.L, ok1 && ok2
}

// stubCoerce replaces CoerceRangeToNormalized, for ranges of the original
// text, by what CheckConvert establishes; the same request gives the same
// answer.
func (x *Interp) stubCoerce(ns *NS, rg rangeCase) {
	fn := x.Method(nsPkg, "NormalizedString", "CoerceRangeToNormalized")
	x.Stubs[coerceName] = func(x *Interp, st *State, c *ssa.CallCommon, args []Val) []Outcome {
		a, b, ok := x.isRange(args[1], "OriginalRange")
		rg := rg.in(st)
		if !ok {
			return x.Exec(st, fn, args, nil)
		}
		p, _ := args[0].(PtrV)
		v, seen := x.ViewNS(st, ns, args[0])
		if p.Obj != ns.Ptr.Obj || !seen || !x.ProveEQ(st, a.Sub(rg.a)) || !x.ProveEQ(st, b.Sub(rg.b)) || v.Al.Obj != ns.Al {
			x.Unsupported("coerce", "a range of another string is converted")
			return nil
		}
		mk := func(s, e Lin) Val { return x.RangeVal("NormalizedRange", s, e).(IfaceV).V }
		if st.HasG("coerced") {
			okv := BConst(st.G("coerced").IsK(1))
			return one(st, TupleV{mk(st.G("@coerced.s"), st.G("@coerced.e")), okv})
		}
		var out []Outcome
		add := func(s *State, lo, hi Lin, ok int64) {
			s.SetG("coerced", K(ok))
			s.SetG("@coerced.s", lo)
			s.SetG("@coerced.e", hi)
			out = append(out, Outcome{St: s, Ret: TupleV{mk(lo, hi), BConst(ok == 1)}})
		}
		eq, ne := x.ForkBool(st, FEQ(b.Sub(a)))
		for _, s := range eq {
			add(s, a, b, 1)
		}
		for _, s := range ne {
			add(s.Clone(), K(0), K(0), 0)
			if x.ProveGE(s, a.Sub(b).AddK(-1)) {
				continue
			}
			lo, hi := x.FreshNat(s, "cs"), x.FreshNat(s, "ce")
			s.P.AddGE(hi.Sub(lo))
			s.P.AddGE(ns.Norm.N.Sub(hi))
			s.P.AddGE(b.Sub(a).AddK(-1))
			some, none := x.ForkBool(s, FGE(hi.Sub(lo).AddK(-1)))
			for _, s := range some {
				s.P.AddGE(x.App(s, ns.AS, lo).Sub(a))
				s.P.AddGE(b.Sub(x.App(s, ns.AE, hi.AddK(-1))))
				add(s, lo, hi, 1)
			}
			for _, s := range none {
				add(s, lo, hi, 1)
			}
		}
		return out
	}
}

// CheckConvert verifies the conversions of ranges.
func (x *Interp) CheckConvert(base *State) {
	for _, name := range []string{"CoerceRangeToNormalized", "CoerceRangeToOriginal"} {
		for _, kind := range []string{"NormalizedRange", "OriginalRange"} {
			x.convertCase(base.Clone(), name, kind)
		}
	}
	for _, name := range []string{"GetRange", "GetOriginalRange"} {
		for _, kind := range []string{"NormalizedRange", "OriginalRange"} {
			x.getCase(base.Clone(), name, kind)
		}
	}
}

func (x *Interp) convertCase(st *State, name, kind string) {
	ns := x.newNS(st, "ns", true)
	ns.Orig.Track = true
	rg := x.anyRange(st, kind)
	fn := x.Method(nsPkg, "NormalizedString", name)
	pos := x.Prog.Pos(fn.Pos())
	key := name + "(" + kind + ")|"
	to := "NormalizedRange"
	if name == "CoerceRangeToOriginal" {
		to = "OriginalRange"
	}
	st.Ambient()
	x.RulePanic, x.NoPanics = rSafe, true
	peel := x.Peel
	x.Peel = name == "CoerceRangeToNormalized"
	outs := x.Run(st, fn, ns.Ptr, rg.val)
	x.Peel = peel
	good := 0
	for _, o := range outs {
		if o.Panic || o.St.unreachable() {
			continue
		}
		rg := rg.in(o.St)
		t := o.Ret.(TupleV)
		yes, no := x.ForkBool(o.St, x.boolOf(t[1]))
		for _, s := range no {
			// refused: a range of the text is never
			if kind == to {
				x.Obl(rRefuse, key+"own", pos, s.unreachable(), "a range that needs no conversion may be refused")
			} else if kind == "NormalizedRange" {
				ok := x.ProveGE(s, rg.a.Neg().AddK(-1)) || x.ProveGE(s, rg.b.Sub(ns.Norm.N).AddK(-1)) || x.ProveGE(s, rg.a.Sub(rg.b).AddK(-1))
				if !s.unreachable() {
					x.Obl(rRefuse, key+"inside", pos, ok, "a range inside the text may be refused")
				}
			}
		}
		for _, s := range yes {
			good++
			lo, hi, ok := x.isRange(t[0], to)
			if !ok {
				x.Obl(rConv, key+"result", pos, false, "the result is not a range of the other text")
				continue
			}
			empty := x.ProveEQ(s, rg.a.Sub(rg.b))
			switch {
			case s.unreachable():
			case kind == to:
				x.Obl(rConv, key+"same", pos, x.ProveEQ(s, lo.Sub(rg.a)) && x.ProveEQ(s, hi.Sub(rg.b)), "a range that needs no conversion is changed to %s..%s", s.P.Reduce(lo), s.P.Reduce(hi))
			case empty:
				x.Obl(rConv, key+"empty", pos, x.ProveEQ(s, lo.Sub(rg.a)) && x.ProveEQ(s, hi.Sub(rg.b)), "an empty range is converted to %s..%s", s.P.Reduce(lo), s.P.Reduce(hi))
			case kind == "NormalizedRange":
				ok := x.ProveEQ(s, lo.Sub(x.App(s, ns.AS, rg.a))) && x.ProveEQ(s, hi.Sub(x.App(s, ns.AE, rg.b.AddK(-1))))
				ok = ok && x.ProveGE(s, hi.Sub(lo)) && x.ProveGE(s, lo) && x.ProveGE(s, ns.Orig.N.Sub(hi))
				ok = ok && x.ProveGE(s, rg.a) && x.ProveGE(s, ns.Norm.N.Sub(rg.b)) && x.ProveGE(s, rg.b.Sub(rg.a))
				if !s.unreachable() {
					x.Obl(rConv, key+"exact", pos, ok, "bytes %s..%s are said to come from %s..%s", s.P.Reduce(rg.a), s.P.Reduce(rg.b), s.P.Reduce(lo), s.P.Reduce(hi))
				}
			default:
				ok := x.ProveGE(s, lo) && x.ProveGE(s, hi.Sub(lo)) && x.ProveGE(s, ns.Norm.N.Sub(hi)) && x.ProveGE(s, rg.b.Sub(rg.a).AddK(-1))
				if !s.unreachable() {
					x.Obl(rConv, key+"forward", pos, ok, "the range %s..%s may be outside the text or reversed", s.P.Reduce(lo), s.P.Reduce(hi))
				}
				nz, _ := x.ForkBool(s, FGE(hi.Sub(lo).AddK(-1)))
				for _, q := range nz {
					ok := x.ProveGE(q, x.App(q, ns.AS, lo).Sub(rg.a)) && x.ProveGE(q, rg.b.Sub(x.App(q, ns.AE, hi.AddK(-1))))
					if !q.unreachable() {
						x.Obl(rConv, key+"covers", pos, ok, "the range %s..%s may contain text that comes from elsewhere", q.P.Reduce(lo), q.P.Reduce(hi))
					}
				}
			}
		}
		x.unchangedNS(o.St, ns, name, pos)
	}
	x.Obl(rConv, key+"succeeds", pos, good > 0, "%s never succeeds", name)
}

func (x *Interp) getCase(st *State, name, kind string) {
	ns := x.newNS(st, "ns", true)
	ns.Orig.Track = true
	rg := x.anyRange(st, kind)
	fn := x.Method(nsPkg, "NormalizedString", name)
	pos := x.Prog.Pos(fn.Pos())
	key := name + "(" + kind + ")|"
	b := ns.Norm
	own := "NormalizedRange"
	if name == "GetOriginalRange" {
		b, own = ns.Orig, "OriginalRange"
	}
	x.watchShared(ns, key)
	x.stubCoerce(ns, rg)
	defer delete(x.Stubs, coerceName)
	st.Ambient()
	x.RulePanic, x.NoPanics = rSafe, true
	outs := x.Run(st, fn, ns.Ptr, rg.val)
	x.RulePanic, x.NoPanics = rSafe, true
	good := 0
	for _, o := range outs {
		if o.Panic || o.St.unreachable() {
			continue
		}
		rg := rg.in(o.St)
		t := o.Ret.(TupleV)
		yes, no := x.ForkBool(o.St, x.boolOf(t[1]))
		for _, s := range no {
			if kind == own {
				ok := x.ProveGE(s, rg.a.Neg().AddK(-1)) || x.ProveGE(s, rg.b.Sub(b.N).AddK(-1)) || x.ProveGE(s, rg.a.Sub(rg.b).AddK(-1))
				if !s.unreachable() {
					x.Obl(rRefuse, key+"inside", pos, ok, "a range inside the text may be refused")
				}
			}
		}
		for _, s := range yes {
			good++
			lo, hi := rg.a, rg.b
			if kind != own {
				empty, some := x.ForkBool(s.Clone(), FEQ(rg.a.Sub(rg.b)))
				for _, q := range empty {
					x.Obl(rGet, key+"empty", pos, x.ProveEQ(q, strLen0(t[0].(StrV))), "an empty range gives %s", showVal(q, t[0]))
				}
				for _, q := range some {
					if kind == "NormalizedRange" {
						lo, hi = x.App(q, ns.AS, rg.a), x.App(q, ns.AE, rg.b.AddK(-1))
					} else if q.HasG("coerced") {
						lo, hi = q.G("@coerced.s"), q.G("@coerced.e")
					}
					x.gets(q, t[0].(StrV), b, lo, hi, key, pos)
				}
				continue
			}
			x.gets(s, t[0].(StrV), b, lo, hi, key, pos)
		}
		x.unchangedNS(o.St, ns, name, pos)
	}
	x.Obl(rGet, key+"succeeds", pos, good > 0, "%s never succeeds", name)
}

func (x *Interp) gets(s *State, v StrV, b *StrBase, lo, hi Lin, key, pos string) {
	ok := x.isSub(s, v, b, lo, hi) && x.ProveGE(s, lo) && x.ProveGE(s, hi.Sub(lo)) && x.ProveGE(s, b.N.Sub(hi))
	if !s.unreachable() {
		x.Obl(rGet, key+"range", pos, ok, "asked for %s..%s it gives %s", s.P.Reduce(lo), s.P.Reduce(hi), showVal(s, v))
	}
}

// placeOf checks the original text of a non-empty slice and its position.
func (x *Interp) placeOf(q *State, ns *NS, v View, key, pos string, normal bool, rg rangeCase) {
	s := x.concat(q, v.Orig)
	ok := len(s.P) == 1 && s.P[0].Kind == pSub && s.P[0].Base == ns.Orig
	if !ok && x.ProveEQ(q, strLen0(v.Orig)) {
		// nothing of the original text: nothing to place
		return
	}
	if q.unreachable() {
		return
	}
	x.Obl(rPlace, key+"original known", pos, ok, "the original text of a slice is %s", showVal(q, v.Orig))
	if !ok {
		return
	}
	x.CheckEQ(q, rPlace, key+"position", pos, v.Shift.Sub(ns.Shift).Sub(s.P[0].Lo), "original text from %s has the position %s", q.P.Reduce(s.P[0].Lo), q.P.Reduce(v.Shift))
	if normal {
		ok := x.ProveEQ(q, s.P[0].Lo.Sub(x.App(q, ns.AS, rg.a))) && x.ProveEQ(q, s.P[0].Hi.Sub(x.App(q, ns.AE, rg.b.AddK(-1))))
		if !q.unreachable() {
			x.Obl(rPlace, key+"original", pos, ok, "the original text is that from %s to %s", q.P.Reduce(s.P[0].Lo), q.P.Reduce(s.P[0].Hi))
		}
	}
}

// cutOf gives the first byte of the normalized text in a slice and the place
// of its original text.
func (x *Interp) cutOf(st *State, ns *NS, normal bool, rg rangeCase) (from, shift Lin) {
	if normal {
		return rg.a, x.App(st, ns.AS, rg.a)
	}
	if st.HasG("coerced") {
		return st.G("@coerced.s"), rg.a
	}
	return K(0), rg.a
}

// inside checks that the alignments, which are those of the range moved by
// the place of the original text, are inside it. They are ordered as those of
// the range are.
func (x *Interp) inside(s *State, ns *NS, v View, key, pos string, normal bool, rg rangeCase) {
	if x.ProveEQ(s, v.Al.Len) || s.unreachable() {
		return
	}
	segs, ok := x.contents(s, v.Al)
	for i, g := range segs {
		ok = ok && (g.Kind == sElems || g.Kind == sChain && i == 0 || x.ProveEQ(s, g.Len()))
	}
	x.Obl(rCut, key+"known", pos, ok, "the alignments are not known")
	_, some := x.ForkBool(s.Clone(), FEQ(v.Al.Len))
	for _, q := range some {
		from, shift := x.cutOf(q, ns, normal, rg)
		first, last := x.App(q, ns.AS, from), x.App(q, ns.AE, from.Add(v.Al.Len).AddK(-1))
		if !normal {
			x.Obl(rCut, key+"normalized", pos, q.HasG("coerced") && x.isSub(q, v.Norm, ns.Norm, from, q.G("@coerced.e")), "the text is %s", showVal(q, v.Norm))
		}
		ok := x.ProveGE(q, first.Sub(shift)) && x.ProveGE(q, strLen0(v.Orig).Sub(last.Sub(shift)))
		if !q.unreachable() {
			if !ok && x.Trace && !x.Muted() {
				dbg("FAILED inside first=%v last=%v\n%s\n", x.ProveGE(q, first.Sub(shift)), x.ProveGE(q, strLen0(v.Orig).Sub(last.Sub(shift))), q)
			}
			x.Obl(rMono, key+"inside", pos, ok, "the alignments go from %s to %s, the original text is %s long", q.P.Reduce(first.Sub(shift)), q.P.Reduce(last.Sub(shift)), q.P.Reduce(strLen0(v.Orig)))
		}
	}
}

// notBoundary reports whether i is certainly not a rune boundary of b.
func (x *Interp) notBoundary(s *State, b *StrBase, i Lin) bool {
	if x.ProveGE(s, i.Neg().AddK(-1)) || x.ProveGE(s, i.Sub(b.N).AddK(-1)) {
		return true
	}
	for _, e := range s.memo[b.posFam()] {
		if n, ok := x.at(s, b.posFam(), e.idx.AddK(1)); ok {
			if x.ProveGE(s, i.Sub(e.v).AddK(-1)) && x.ProveGE(s, n.Sub(i).AddK(-1)) {
				return true
			}
		}
	}
	return s.unreachable()
}
