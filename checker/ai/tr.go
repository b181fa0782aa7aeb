package ai

import (
	"go/types"
)

// The contract of TransformRange: given a range of the normalized text on rune
// boundaries and a script that consumes no more runes than the range has, it
// replaces the range by the runes of the script, in order; a rune with change
// <= 0 takes the alignment of the next rune not yet consumed (and consumes
// 1 - change runes), a rune with change 1 that of the byte before it.

const (
	rText = "a transform writes the runes of its script, in order, in place of the range"
	rAl   = "a rune takes the alignment of the rune it replaces, or of the byte before it"
	rRest = "a transform leaves the alignments outside of its range untouched"
	rOne  = "one alignment per byte of the normalized text"
	rOrig = "the original text and its position stay"
	rSafe = "no run-time panic"
)

// script is an arbitrary script that satisfies the precondition.
type script struct {
	D      *StrBase // the runes written
	obj    ObjID
	init   Lin
	ka, kb Lin // the range, in runes
	a, b   Lin // and bytes
	CH, CS string
}

func (x *Interp) newScript(st *State, ns *NS) *script {
	t := &script{CH: "TR.change", CS: "TR.consumed"}
	et := x.Type(nsPkg, "RuneChange")
	fr, fc := FieldIdx(et, "Rune"), FieldIdx(et, "Change")
	t.ka, t.kb = x.FreshNat(st, "ka"), x.FreshNat(st, "kb")
	st.P.AddGE(t.kb.Sub(t.ka))
	st.P.AddGE(ns.Norm.R.Sub(t.kb))
	t.a, t.b = x.App(st, ns.Norm.posFam(), t.ka), x.App(st, ns.Norm.posFam(), t.kb)
	t.init = x.FreshNat(st, "init")
	t.D = x.NewBase(st, "script")
	t.D.Track = true
	tot := x.FreshNat(st, "total")
	st.P.AddGE(t.kb.Sub(t.ka).Sub(t.init).Sub(tot))
	x.Decl(&Fam{Name: t.CH, N: &t.D.R, Link: func(x *Interp, st *State, i, v Lin) {
		st.P.AddGE(K(1).Sub(v))
		c0, ok := x.at(st, t.CS, i)
		c1, ok1 := x.at(st, t.CS, i.AddK(1))
		if ok && ok1 {
			st.P.AddEq(c1.Sub(c0).Add(v).AddK(-1))
		}
	}})
	x.Decl(&Fam{Name: t.CS, Lo: I64(0), N: &t.D.R, V0: L(K(0)), VN: &tot})
	src := &Source{Name: "script", N: t.D.R, Elem: func(x *Interp, st *State, h Lin) []ElemOut {
		r, c := x.RuneAt(st, t.D, h), x.App(st, t.CH, h)
		c0, c1 := x.App(st, t.CS, h), x.App(st, t.CS, h.AddK(1))
		st.P.AddEq(c1.Sub(c0).Add(c).AddK(-1))
		f := make([]Val, 2)
		f[fr], f[fc] = intAt(t.D, h, r), IntV{L: c}
		var out []ElemOut
		add := func(s *State, name string) {
			x.relink(s)
			if !s.P.bot && !s.dead {
				x.SetCase(s, "script", name)
				out = append(out, ElemOut{s, StructV{f}})
			}
		}
		ins, rep := x.ForkBool(st, FGE(c.AddK(-1)))
		for _, s := range rep {
			add(s, "replace")
		}
		for _, s := range ins {
			in, at := x.ForkBool(s, FGE(t.ka.Add(t.init).Add(c0).AddK(-1)))
			for _, s := range in {
				add(s, "insert")
			}
			for _, s := range at {
				s.P.AddEq(t.ka)
				s.P.AddEq(t.init)
				s.P.AddEq(c0)
				add(s, "start")
			}
		}
		return out
	}}
	t.obj = x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: t.D.R}}}, Elem: et, Name: "script", Shared: true})
	return t
}

// leadSrc is the length of the runs of other sequences at the front.
func leadSrc(q *Seq) Lin {
	l := K(0)
	for _, s := range q.Segs {
		if s.Kind != sSrc {
			break
		}
		l = l.Add(s.Len())
	}
	return l
}

// CheckTR verifies TransformRange.
func (x *Interp) CheckTR(base *State) {
	st := base.Clone()
	ns := x.NewNS(st, "ns")
	t := x.newScript(st, ns)
	st.Ambient()
	fn := x.Method(nsPkg, "NormalizedString", "TransformRange")
	pos := x.Prog.Pos(fn.Pos())
	x.Spec(ns.AT, &ChainSpec{
		Name:     "alignments",
		AfterSrc: true,
		Init:     func(x *Interp, st *State) []Val { return nil },
		Push:     func(x *Interp, st *State, r []Val, n Lin, v Val) []Val { return nil },
		CheckQ: func(x *Interp, st *State, q *Seq, n Lin, v Val) {
			x.scriptAl(st, ns, t, pos, n.Sub(leadSrc(q)), v)
		},
	})
	x.watchShared(ns, "TransformRange")
	x.RulePanic, x.NoPanics = rSafe, true
	outs := x.Run(st, fn, ns.Ptr, x.RangeVal("NormalizedRange", t.a, t.b), SliceV{t.obj, K(0), t.D.R}, IntV{L: t.init})
	x.RulePanic, x.NoPanics = rSafe, true
	ends := 0
	for _, o := range outs {
		s := o.St
		if o.Panic {
			continue
		}
		ends++
		x.ends(s, t.D)
		v, ok := x.ViewNS(s, ns, ns.Ptr)
		if !ok {
			x.Obl(rText, "result known", pos, false, "the normalized string cannot be seen")
			continue
		}
		x.CheckStored(s, v.Al, ns.AT)
		x.CheckEQ(s, rOne, "TransformRange", pos, v.Al.Len.Sub(strLen0(v.Norm)), "there are %s alignments for %s bytes", s.P.Reduce(v.Al.Len), s.P.Reduce(strLen0(v.Norm)))
		x.Obl(rText, "text", pos, x.isText(s, v.Norm, []part{{ns.Norm, K(0), t.a}, {t.D, K(0), t.D.N}, {ns.Norm, t.b, ns.Norm.N}}), "the new text is %s", showVal(s, v.Norm))
		ok, why := x.alSpliced(s, ns, v.Al, t)
		if !s.unreachable() {
			x.Obl(rRest, "around the range", pos, ok, "the new alignments are %s: %s", showVal(s, v.Al), why)
		}
		x.unchangedNS(s, ns, "TransformRange", pos)
	}
	x.Obl(rText, "returns", pos, ends > 0, "TransformRange never returns")
}

// part is a part of a text.
type part struct {
	B      *StrBase
	Lo, Hi Lin
}

// isText reports whether s is certainly the concatenation of the parts.
func (x *Interp) isText(st *State, s StrV, ps []part) bool {
	s = x.concat(st, s)
	i := 0
	lo := K(0)
	if len(ps) > 0 {
		lo = ps[0].Lo
	}
	next := func() {
		i++
		if i < len(ps) {
			lo = ps[i].Lo
		}
	}
	for _, p := range s.P {
		if p.Kind != pSub {
			if x.ProveEQ(st, pieceLen(p)) {
				continue
			}
			return false
		}
		for i < len(ps) && (p.Base != ps[i].B || !x.ProveEQ(st, p.Lo.Sub(lo))) && x.ProveEQ(st, ps[i].Hi.Sub(lo)) {
			next()
		}
		if i >= len(ps) {
			return x.ProveEQ(st, p.Hi.Sub(p.Lo))
		}
		if p.Base != ps[i].B || !x.ProveEQ(st, p.Lo.Sub(lo)) {
			if x.ProveEQ(st, p.Hi.Sub(p.Lo)) {
				continue
			}
			return false
		}
		lo = p.Hi
	}
	for ; i < len(ps); next() {
		if !x.ProveEQ(st, ps[i].Hi.Sub(lo)) {
			return false
		}
	}
	return true
}

// scriptAl checks the alignment of byte n of the text of the script.
func (x *Interp) scriptAl(st *State, ns *NS, t *script, pos string, n Lin, v Val) {
	as, ae := ns.al(v)
	h, ok := x.inRune(st, t.D, n)
	if st.unreachable() {
		return
	}
	if !ok {
		x.Obl(rAl, "which rune", pos, false, "alignment %s does not belong to the rune being written", st.P.Reduce(n))
		return
	}
	c := x.App(st, t.CH, h)
	k := t.ka.Add(t.init).Add(x.App(st, t.CS, h))
	want := func(s *State, what string, a, b Lin) {
		ok := x.ProveEQ(s, as.Sub(a)) && x.ProveEQ(s, ae.Sub(b))
		if !s.unreachable() {
			if !ok && x.Trace && x.mute == 0 {
				dbg("TRAL %s h=%s as=%s want=%s\n%s\n", what, s.P.Reduce(h), s.P.Reduce(as), s.P.Reduce(a), s)
			}
			x.Obl(rAl, what, pos, ok, "%s gets the alignment %s, %s", what, s.P.Reduce(as), s.P.Reduce(ae))
		}
	}
	ins, rep := x.ForkBool(st.Clone(), FGE(c.AddK(-1)))
	for _, s := range rep {
		want(s, "a replacement rune", x.App(s, ns.AS, k), x.App(s, ns.AE, k))
	}
	for _, s := range ins {
		in, at := x.ForkBool(s, FGE(k.AddK(-1)))
		for _, s := range in {
			want(s, "an inserted rune", x.App(s, ns.AS, k.AddK(-1)), x.App(s, ns.AE, k.AddK(-1)))
		}
		for _, s := range at {
			want(s, "a rune inserted at the very start", K(0), K(0))
		}
	}
}

// alSpliced reports whether the alignments are those before the range, then
// those of the script, then those after the range.
func (x *Interp) alSpliced(st *State, ns *NS, al SliceV, t *script) (bool, string) {
	if x.ProveEQ(st, al.Len) {
		return x.ProveEQ(st, t.a) && x.ProveEQ(st, ns.Norm.N.Sub(t.b)) && x.ProveEQ(st, t.D.N), "there are none"
	}
	segs, ok := x.contents(st, al)
	if !ok {
		return false, "unknown"
	}
	start := K(0)
	for i := 0; i < len(segs); i++ {
		s := segs[i]
		l := s.Len()
		if x.ProveEQ(st, l) {
			continue
		}
		if s.Kind == sSrc && s.Src == ns.Src {
			// before: position p is byte p; after: byte p - |D| + (b-a)
			before := x.ProveEQ(st, s.Lo.Sub(start)) && x.ProveGE(st, t.a.Sub(s.Hi))
			after := x.ProveEQ(st, s.Lo.Sub(start).Add(t.D.N).Sub(t.b.Sub(t.a))) && x.ProveGE(st, s.Lo.Sub(t.b))
			if !before && !after {
				return false, "bytes " + st.P.Reduce(s.Lo).String() + ".." + st.P.Reduce(s.Hi).String() + " are misplaced"
			}
			start = start.Add(l)
			continue
		}
		// the alignments of the script: one run, from a
		if !x.ProveEQ(st, start.Sub(t.a)) {
			return false, "those of the script do not start at the range"
		}
		sp := x.specOf(ns.AT)
		n := K(0)
		for i < len(segs) && (segs[i].Kind == sElems || n.IsK(0) && segs[i].Kind == sChain && segs[i].C.Spec == sp) {
			n = n.Add(segs[i].Len())
			i++
		}
		i--
		if !x.ProveEQ(st, n.Sub(t.D.N)) {
			return false, "there are " + st.P.Reduce(n).String() + " for the runes of the script"
		}
		start = start.Add(n)
	}
	return x.ProveEQ(st, start.Sub(ns.Norm.N).Add(t.b.Sub(t.a)).Sub(t.D.N)), "their number is wrong"
}

var _ types.Type
