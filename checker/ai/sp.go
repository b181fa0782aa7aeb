package ai

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Split patterns (C01, C02).

const spPkg = "splitpattern"

const (
	rTile  = "captures tile the text"
	rMatch = "a capture is flagged as a match exactly when it is one"
	rInv   = "inverting flips every flag and moves nothing"
)

// captureT gives access to captures.
type captureT struct {
	T                types.Type
	fo, fm, fst, fen int
}

func (x *Interp) captureType() captureT {
	c := captureT{T: x.Type(spPkg, "Capture")}
	c.fo, c.fm = FieldIdx(c.T, "Offsets"), FieldIdx(c.T, "IsMatch")
	o := x.Type("strutils", "ByteOffsets")
	c.fst, c.fen = FieldIdx(o, "Start"), FieldIdx(o, "End")
	return c
}

func (c captureT) parts(v Val) (s, e Lin, m *Formula) {
	f := (v).(StructV).F
	o := f[c.fo].(StructV).F
	return o[c.fst].(IntV).L, o[c.fen].(IntV).L, f[c.fm].(BoolV).F
}

func (c captureT) mk(s, e Lin, m *Formula) Val {
	o := make([]Val, 2)
	o[c.fst], o[c.fen] = IntV{L: s}, IntV{L: e}
	f := make([]Val, 2)
	f[c.fo], f[c.fm] = StructV{o}, BoolV{m}
	return StructV{f}
}

// matchesOf declares the matches a regular expression reports in the text b:
// ordered, not overlapping, on rune boundaries (MK: their ends in runes).
// Empty matches are allowed.
type matchSeq struct {
	N    Lin
	B, E string // families: rune index of the start and end of match i
}

func (x *Interp) newMatches(st *State, b *StrBase, name string) *matchSeq {
	m := &matchSeq{N: x.FreshNat(st, name+".n"), B: name + ".start", E: name + ".end"}
	link := func(x *Interp, st *State, i, v Lin) {
		s, ok := x.at(st, m.B, i)
		e, ok2 := x.at(st, m.E, i)
		if !ok || !ok2 {
			return
		}
		st.P.AddGE(s)
		st.P.AddGE(e.Sub(s))
		st.P.AddGE(b.R.Sub(e))
		if n, ok := x.at(st, m.B, i.AddK(1)); ok {
			st.P.AddGE(n.Sub(e))
		}
	}
	x.Decl(&Fam{Name: m.B, Lo: I64(0), Link: link})
	x.Decl(&Fam{Name: m.E, Lo: I64(0), Link: link})
	return m
}

// at makes the ends of match i known, in runes and bytes.
func (m *matchSeq) at(x *Interp, st *State, b *StrBase, i Lin) (s, e, ps, pe Lin) {
	s, e = x.App(st, m.B, i), x.App(st, m.E, i)
	x.relink(st)
	ps, pe = x.App(st, b.posFam(), s), x.App(st, b.posFam(), e)
	return
}

// CheckSplit verifies the patterns of splitpattern.
func (x *Interp) CheckSplit(want1, want2 bool) {
	ct := x.captureType()
	base := x.InitGlobals(NewState(), spPkg)
	type kase struct {
		typ, ctor string
		setup     func(st *State, b *StrBase) []Val
	}
	x.Stubs["(*regexp.Regexp).FindAllStringIndex"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		o, isO := a[0].(OpaqueV)
		n, isC := st.P.Reduce(a[2].(IntV).L).Const()
		m := x.spMatches
		s, _ := a[1].(StrV)
		x.Obl(rMatch, "expression used", x.Prog.Pos(c.Pos()), isO && o.Tag == x.spTag, "the matches asked for are those of %v", a[0])
		x.Obl(rMatch, "whole text searched", x.Prog.Pos(c.Pos()), x.isSub(st, s, x.spText, K(0), x.spText.N), "the expression is applied to %s", showVal(st, s))
		x.Obl(rMatch, "all matches asked for", x.Prog.Pos(c.Pos()), isC && n < 0, "only %s matches are asked for", st.P.Reduce(a[2].(IntV).L))
		src := &Source{Name: "matches", N: m.N, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
			_, _, ps, pe := m.at(x, st, x.spText, i)
			id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sElems, Elems: []Val{IntV{L: ps}, IntV{L: pe}}}}}, Elem: types.Typ[types.Int], Name: "match", Shared: true})
			return []ElemOut{{st, SliceV{id, K(0), K(2)}}}
		}}
		id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: m.N}}}, Elem: types.NewSlice(types.Typ[types.Int]), Name: "matches", Shared: true})
		return one(st, SliceV{id, K(0), m.N})
	}
	nth := func(st *State, i Lin) []Outcome {
		m := x.spMatches
		var out []Outcome
		yes, no := x.ForkBool(st, FGE(m.N.Sub(i).AddK(-1)))
		for _, s := range no {
			out = append(out, Outcome{St: s, Ret: TupleV{NilV{}, NilV{}}})
		}
		for _, s := range yes {
			out = append(out, Outcome{St: s.Clone(), Ret: TupleV{NilV{}, OpaqueV{Tag: "err:regexp2"}}})
			m.at(x, s, x.spText, i)
			out = append(out, Outcome{St: s, Ret: TupleV{OpaqueV{Tag: "match2", Idx: []Lin{i}}, NilV{}}})
		}
		return out
	}
	x.tagLoads["match2"] = func(x *Interp, st *State, o OpaqueV) PtrV {
		m := x.spMatches
		i := o.Idx[0]
		s, e, _, _ := m.at(x, st, x.spText, i)
		mt := x.Prog.ExtType("github.com/dlclark/regexp2", "Match")
		v := x.Havoc(st, mt, "match").(StructV)
		u := mt.Underlying().(*types.Struct)
		gi := FieldIdx(u, "Group")
		gt := u.Field(gi).Type()
		ci := FieldIdx(gt, "Capture")
		cty := gt.Underlying().(*types.Struct).Field(ci).Type()
		g := v.F[gi].(StructV)
		c := g.F[ci].(StructV)
		c.F[FieldIdx(cty, "Index")] = IntV{L: s}
		c.F[FieldIdx(cty, "Length")] = IntV{L: e.Sub(s)}
		return PtrV{Obj: x.NewObj(st, &Obj{V: v, Elem: mt, Name: "match", Shared: true})}
	}
	x.Stubs["(*github.com/dlclark/regexp2.Regexp).FindStringMatch"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		o, isO := a[0].(OpaqueV)
		s, _ := a[1].(StrV)
		x.Obl(rMatch, "expression used", x.Prog.Pos(c.Pos()), isO && o.Tag == x.spTag, "the matches asked for are those of %v", a[0])
		x.Obl(rMatch, "whole text searched", x.Prog.Pos(c.Pos()), x.isSub(st, s, x.spText, K(0), x.spText.N), "the expression is applied to %s", showVal(st, s))
		return nth(st, K(0))
	}
	x.Stubs["(*github.com/dlclark/regexp2.Regexp).FindNextMatch"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		o, isO := a[1].(OpaqueV)
		if !isO || o.Tag != "match2" {
			return one(st, TupleV{NilV{}, NilV{}})
		}
		return nth(st, o.Idx[0].AddK(1))
	}
	x.Stubs["(*github.com/dlclark/regexp2.Capture).String"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		es := x.load(st, a[0].(PtrV), nil, 0)
		if len(es) != 1 {
			x.Unsupported("Capture.String", "unknown capture")
			return one(st, x.someStr(x.FreshNat(st, "len")))
		}
		cty := x.Prog.ExtType("github.com/dlclark/regexp2", "Capture")
		f := es[0].V.(StructV).F
		k, n := f[FieldIdx(cty, "Index")].(IntV).L, f[FieldIdx(cty, "Length")].(IntV).L
		s := es[0].St
		p, q := x.App(s, x.spText.posFam(), k), x.App(s, x.spText.posFam(), k.Add(n))
		return one(s, x.substr(s, x.spText.Whole(), p, q))
	}
	regex := func(pre string) func(st *State, b *StrBase) []Val {
		return func(st *State, b *StrBase) []Val {
			x.spTag = pre
			x.spMatches = x.newMatches(st, b, "m")
			return []Val{OpaqueV{Tag: pre}}
		}
	}
	kases := []kase{
		{"FuncSplitPattern", "FromFunc", func(st *State, b *StrBase) []Val {
			x.spPred = func(x *Interp, st *State, r Lin) *Formula { return x.predicate(st, "p", r) }
			return []Val{x.Pred("p")}
		}},
		{"RuneSplitPattern", "FromRune", func(st *State, b *StrBase) []Val {
			r0 := x.Fresh("r0")
			x.addSet(st, r0, ValidRunes)
			x.spPred = func(x *Interp, st *State, r Lin) *Formula { return FEQ(r.Sub(r0)) }
			return []Val{IntV{L: r0}}
		}},
		{"RegexpSplitPattern", "FromRegexp", regex("user regexp")},
		{"Regexp2SplitPattern", "FromRegexp2", regex("user regexp2")},
		{"StringSplitPattern", "FromString", func(st *State, b *StrBase) []Val {
			lit := x.NewBase(st, "literal")
			x.spTag = "regexp:quoted:" + lit.posFam()
			x.spLit = lit
			x.spMatches = x.newMatches(st, b, "m")
			return []Val{lit.Whole()}
		}},
	}
	for _, k := range kases {
		if c := os.Getenv("GTCASE"); c != "" && c != k.typ {
			continue
		}
		x.spMatches, x.spTag, x.spPred, x.spLit = nil, "", nil, nil
		st := base.Clone()
		b := x.NewBase(st, "text")
		x.spText = b
		args := k.setup(st, b)
		starts := []*State{st}
		if x.spPred != nil {
			// the number of accepted runes before rune i
			x.Decl(&Fam{Name: "SP.acc", Lo: I64(0), N: &b.R, V0: L(K(0)), Link: func(x *Interp, st *State, i, v Lin) {
				n, ok := x.at(st, "SP.acc", i.AddK(1))
				r, ok2 := x.at(st, b.runeFam(), i)
				if !ok || !ok2 {
					return
				}
				f := x.spPred(x, st, r)
				switch x.Decide(st, f) {
				case 1:
					st.P.AddEq(n.Sub(v).AddK(-1))
				case -1:
					st.P.AddEq(n.Sub(v))
				}
			}})
		}
		x.OnReadRune = nil
		if x.spPred != nil {
			x.OnReadRune = func(x *Interp, st *State, t *StrBase, k, r Lin) {
				if t == b {
					x.App(st, "SP.acc", k)
					x.App(st, "SP.acc", k.AddK(1))
				}
			}
		}
		if x.spLit != nil {
			// an empty literal matches nowhere, by definition
			yes, no := x.ForkBool(st, FEQ(x.spLit.N))
			for _, s := range yes {
				s.P.AddEq(x.spMatches.N)
			}
			starts = append(yes, no...)
		}
		ctor := x.Func(spPkg, k.ctor)
		fm := x.Method(spPkg, k.typ, "FindMatches")
		pos := x.Prog.Pos(fm.Pos())
		for _, st := range starts {
			for _, o := range x.Run(st, ctor, args...) {
				if o.Panic {
					continue
				}
				x.splitRun(o.St, ct, k.typ, pos, fm, o.Ret, b, want1, want2)
			}
		}
	}
	x.OnReadRune = nil
	if want1 || want2 {
		x.checkInvert(base, ct, want1, want2)
	}
}

func (x *Interp) splitRun(st *State, ct captureT, typ, pos string, fm *ssa.Function, recv Val, b *StrBase, want1, want2 bool) {
	st.SetG("sp.m", K(0))
	x.Spec(ct.T, x.tileSpec(ct, typ, pos, b, want1, want2, func(x *Interp, st *State, _ Lin, v Val) {
		s, e, m := ct.parts(v)
		yes, no := x.ForkBool(st.Clone(), m)
		isMatch := len(no) == 0
		if len(yes) > 0 && len(no) > 0 {
			x.Obl(rMatch, typ+"|flag known", pos, false, "the flag of a capture is not decided where it is built")
			return
		}
		if x.spPred != nil {
			ks, ok := x.IndexAt(st, b, s)
			ke, ok2 := x.IndexAt(st, b, e)
			if !ok || !ok2 {
				x.Obl(rTile, typ+"|rune boundaries", pos, false, "a capture %s..%s is not on rune boundaries", st.P.Reduce(s), st.P.Reduce(e))
				return
			}
			a := x.App(st, "SP.acc", ke).Sub(x.App(st, "SP.acc", ks))
			x.relink(st)
			if isMatch {
				ok := x.ProveEQ(st, a.AddK(-1)) && x.ProveEQ(st, ke.Sub(ks).AddK(-1))
				if !st.dead && !st.P.bot && want2 {
					x.Obl(rMatch, typ+"|a match is one accepted rune", pos, ok, "the match %s..%s is not exactly one accepted rune", st.P.Reduce(s), st.P.Reduce(e))
				}
			} else {
				ok := x.ProveEQ(st, a)
				if !st.dead && !st.P.bot && want2 {
					x.Obl(rMatch, typ+"|no accepted rune in a non-match", pos, ok, "the non-match %s..%s may contain accepted runes", st.P.Reduce(s), st.P.Reduce(e))
				}
			}
			return
		}
		if x.spMatches == nil {
			return
		}
		ms := x.spMatches
		j := st.G("sp.m")
		if isMatch {
			ok := x.ProveGE(st, ms.N.Sub(j).AddK(-1))
			var ps, pe Lin
			if ok {
				_, _, ps, pe = ms.at(x, st, b, j)
				ok = x.ProveEQ(st, s.Sub(ps)) && x.ProveEQ(st, e.Sub(pe))
			}
			if !st.dead && !st.P.bot && want2 {
				x.Obl(rMatch, typ+"|a match is the next match of the expression", pos, ok, "the match %s..%s is not match %s of the expression (%s..%s)", st.P.Reduce(s), st.P.Reduce(e), st.P.Reduce(j), st.P.Reduce(ps), st.P.Reduce(pe))
			}
			st.SetG("sp.m", j.AddK(1))
			return
		}
		more, none := x.ForkBool(st.Clone(), FGE(ms.N.Sub(j).AddK(-1)))
		for _, q := range more {
			_, _, ps, _ := ms.at(x, q, b, j)
			ok := x.ProveEQ(q, e.Sub(ps))
			if !q.dead && !q.P.bot && want2 {
				x.Obl(rMatch, typ+"|a non-match ends at the next match", pos, ok, "the non-match %s..%s does not end where match %s of the expression starts", q.P.Reduce(s), q.P.Reduce(e), q.P.Reduce(j))
			}
		}
		for _, q := range none {
			ok := x.ProveEQ(q, e.Sub(b.N))
			if !q.dead && !q.P.bot && want2 {
				x.Obl(rMatch, typ+"|a non-match ends at the end", pos, ok, "the last non-match %s..%s does not end with the text", q.P.Reduce(s), q.P.Reduce(e))
			}
		}
	}))
	outs := x.Run(st, fm, recv, b.Whole())
	for _, o := range outs {
		if o.Panic {
			continue
		}
		t := o.Ret.(TupleV)
		if _, isNil := t[1].(NilV); !isNil {
			continue // an error
		}
		s := o.St
		sv, ok := t[0].(SliceV)
		if !ok {
			x.Obl(rTile, typ+"|result", pos, false, "no captures are returned")
			continue
		}
		// a list written down directly, without append?
		if o := s.heap[sv.Obj]; sv.Obj != 0 && o != nil && o.Name != "append" && o.Seq != nil && len(o.Seq.Segs) == 1 && o.Seq.Segs[0].Kind == sElems {
			for _, v := range o.Seq.Segs[0].Elems {
				x.Specs[types.TypeString(ct.T, nil)].Check(x, s, K(0), v)
			}
		}
		c := x.ChainOf(s, sv, ct.T)
		if c == nil {
			x.Obl(rTile, typ+"|result known", pos, false, "the captures returned are not known")
			continue
		}
		if want1 {
			x.CheckGE(s, rTile, typ+"|at least one capture", pos, c.N.AddK(-1), "there may be no capture at all")
			x.CheckEQ(s, rTile, typ+"|ends with the text", pos, c.R[0].(IntV).L.Sub(b.N), "the last capture ends at %s, the text at %s", s.P.Reduce(c.R[0].(IntV).L), s.P.Reduce(b.N))
		}
		if !want2 {
			continue
		}
		x.Obl(rMatch, typ+"|the captures are those built", pos, true, "")
		if x.spMatches != nil && !x.ProveEQ(s, b.N) {
			ok := x.ProveEQ(s, s.G("sp.m").Sub(x.spMatches.N))
			if !s.dead && !s.P.bot {
				x.Obl(rMatch, typ+"|every match is reported", pos, ok, "%s of the %s matches are reported", s.P.Reduce(s.G("sp.m")), s.P.Reduce(x.spMatches.N))
			}
		}
	}
}

// tileSpec summarises captures by the end of the last one.
func (x *Interp) tileSpec(ct captureT, typ, pos string, b *StrBase, want1, want2 bool, check func(x *Interp, st *State, n Lin, v Val)) *ChainSpec {
	return &ChainSpec{
		Name:  "tile",
		Init:  func(x *Interp, st *State) []Val { return []Val{IntV{L: K(0)}} },
		Check: check,
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			s, e, _ := ct.parts(v)
			acc := r[0].(IntV).L
			if want1 {
				x.CheckEQ(st, rTile, typ+"|contiguous", pos, s.Sub(acc), "a capture ends at %s and the next starts at %s", st.P.Reduce(acc), st.P.Reduce(s))
				x.CheckGE(st, rTile, typ+"|forward", pos, e.Sub(s), "the capture %s..%s may go backwards", st.P.Reduce(s), st.P.Reduce(e))
			}
			return []Val{IntV{L: e}}
		},
	}
}

// checkInvert checks InvertedPattern against an arbitrary list of captures.
func (x *Interp) checkInvert(base *State, ct captureT, want1, want2 bool) {
	st := base.Clone()
	b := x.NewBase(st, "text")
	x.spText = b
	n := x.FreshNat(st, "captures")
	x.Decl(&Fam{Name: "IV.start"})
	x.Decl(&Fam{Name: "IV.end"})
	elem := func(x *Interp, st *State, i Lin) (s, e Lin, m *Formula) {
		return x.App(st, "IV.start", i), x.App(st, "IV.end", i), x.predicate(st, "IV.match", i)
	}
	src := &Source{Name: "captures", N: n, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
		s, e, m := elem(x, st, i)
		var out []ElemOut
		yes, no := x.ForkBool(st, m)
		for _, q := range yes {
			out = append(out, ElemOut{q, ct.mk(s, e, FBool(true))})
		}
		for _, q := range no {
			out = append(out, ElemOut{q, ct.mk(s, e, FBool(false))})
		}
		return out
	}}
	x.Stubs["invoke:pattern.FindMatches"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		x.Obl(rInv, "same text", x.Prog.Pos(c.Pos()), x.isSub(st, a[1].(StrV), b, K(0), b.N), "the inner pattern gets %s", showVal(st, a[1]))
		err := st.Clone()
		id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: n}}}, Elem: ct.T, Name: "captures"})
		return []Outcome{{St: err, Ret: TupleV{NilV{}, OpaqueV{Tag: "err:inner"}}}, {St: st, Ret: TupleV{SliceV{id, K(0), n}, NilV{}}}}
	}
	fm := x.Method(spPkg, "InvertedPattern", "FindMatches")
	pos := x.Prog.Pos(fm.Pos())
	x.Spec(ct.T, &ChainSpec{
		Name: "inverted",
		Init: func(x *Interp, st *State) []Val { return nil },
		Push: func(x *Interp, st *State, r []Val, i Lin, v Val) []Val {
			a, z, m := ct.parts(v)
			s0, e0, m0 := elem(x, st, i)
			ok := x.ProveEQ(st, a.Sub(s0)) && x.ProveEQ(st, z.Sub(e0))
			if st.unreachable() {
				return nil
			}
			if want1 {
				x.Obl(rTile, "InvertedPattern|same offsets", pos, ok, "capture %s..%s becomes %s..%s", st.P.Reduce(s0), st.P.Reduce(e0), st.P.Reduce(a), st.P.Reduce(z))
			}
			if want2 {
				x.Obl(rInv, "same offsets", pos, ok, "capture %s..%s becomes %s..%s", st.P.Reduce(s0), st.P.Reduce(e0), st.P.Reduce(a), st.P.Reduce(z))
				same := FOr(FAnd(m, FNot(m0)), FAnd(FNot(m), m0))
				x.Obl(rInv, "flag flipped", pos, x.Prove(st, same), "the flag of a capture may stay the same")
			}
			return nil
		},
	})
	for _, c := range x.Run(st, x.Func(spPkg, "Invert"), OpaqueV{Tag: "pattern"}) {
		for _, o := range x.Run(c.St, fm, c.Ret, b.Whole()) {
			if o.Panic {
				continue
			}
			t := o.Ret.(TupleV)
			if _, isNil := t[1].(NilV); !isNil {
				continue
			}
			s := o.St
			sv, ok := t[0].(SliceV)
			ok = ok && x.ProveEQ(s, sv.Len.Sub(n))
			if s.dead || s.P.bot {
				continue
			}
			if want1 {
				x.Obl(rTile, "InvertedPattern|same number", pos, ok, "the number of captures changes")
			}
			if want2 {
				x.Obl(rInv, "same number", pos, ok, "the number of captures changes")
			}
			if ok && !x.ProveEQ(s, n) && !s.unreachable() {
				c := x.ChainOf(s, sv, ct.T)
				x.Obl(rInv, "every capture inverted", pos, c != nil && x.ProveEQ(s, c.N.Sub(n)), "not every capture is inverted")
			}
		}
	}
}
