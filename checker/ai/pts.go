package ai

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// Pre-tokenized strings and encodings.

const (
	ptsPkg    = "pretokenizedstring"
	rVisit    = "every untokenized split is visited once, in order, and no other"
	rKept     = "the new splits are the tokenized ones and the pieces of the others, in order"
	rPiece    = "only empty pieces are dropped"
	rFail     = "the first error stops the operation and is returned"
	rIntact   = "a failing split leaves the splits as they were"
	rTokens   = "tokens are stored in the split they belong to"
	rRow      = "each column holds one value of each token, in order"
	rUntok    = "encoding fails exactly when a split has no tokens"
	rOffset   = "token offsets are moved to the outermost original text"
	rByteSpl  = "byte splits describe the splits in order"
	rPtsOther = "nothing else of the string changes"
)

// PTS is an arbitrary pre-tokenized string: any number of splits, each with or
// without tokens.
type PTS struct {
	T, ST, TT    types.Type
	Ptr          PtrV
	Orig         *StrBase
	N            Lin
	Obj          ObjID
	fo, fs       int // fields of PreTokenizedString
	sn, st       int // fields of Split
	tid, tv, tof int // fields of Token
	os, oe       int // fields of ByteOffsets
	OT           types.Type
	// Split functions give these
	Items ObjID
}

func (x *Interp) newPTS(st *State) *PTS {
	p := &PTS{}
	p.T = x.Type(ptsPkg, "PreTokenizedString")
	p.ST = x.Type(ptsPkg, "Split")
	p.TT = x.Type("models", "Token")
	p.OT = x.Type(suPkg, "ByteOffsets")
	p.fo, p.fs = FieldIdx(p.T, "original"), FieldIdx(p.T, "splits")
	p.sn, p.st = FieldIdx(p.ST, "NormalizedString"), FieldIdx(p.ST, "Tokens")
	p.tid, p.tv, p.tof = FieldIdx(p.TT, "ID"), FieldIdx(p.TT, "Value"), FieldIdx(p.TT, "Offsets")
	p.os, p.oe = FieldIdx(p.OT, "Start"), FieldIdx(p.OT, "End")
	p.Orig = x.NewBase(st, "pts.orig")
	p.N = x.FreshNat(st, "splits")
	st.SetG("@splits", p.N)
	x.countIdx("T", p.N, func(x *Interp, st *State, i Lin) *Formula { return x.predicate(st, "tokenized", i) })
	src := &Source{Name: "splits", N: p.N, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
		x.App(st, "T", i)
		x.App(st, "T", i.AddK(1))
		var out []ElemOut
		yes, no := x.ForkBool(st, x.predicate(st, "tokenized", i))
		for _, s := range yes {
			x.relink(s)
			out = append(out, ElemOut{s, p.mkSplit(OpaqueV{"ns", []Lin{i}}, OpaqueV{"tokptr", []Lin{i}})})
		}
		for _, s := range no {
			x.relink(s)
			out = append(out, ElemOut{s, p.mkSplit(OpaqueV{"ns", []Lin{i}}, NilV{})})
		}
		return out
	}}
	p.Obj = x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: p.N}}}, Elem: p.ST, Name: "splits", Shared: true})
	f := make([]Val, 2)
	f[p.fo], f[p.fs] = p.Orig.Whole(), SliceV{p.Obj, K(0), p.N}
	p.Ptr = PtrV{Obj: x.NewObj(st, &Obj{V: StructV{f}, Elem: p.T, Name: "pts", Shared: true})}
	x.Roots = []ObjID{p.Ptr.Obj, p.Obj}
	// normalized strings, seen from outside
	for _, t := range []string{"len", "ostart", "oend"} {
		x.Decl(&Fam{Name: "ns." + t, OnNew: func(x *Interp, st *State, i, v Lin) { st.P.AddGE(v) }})
	}
	x.nsMethods(p)
	return p
}

func (p *PTS) mkSplit(ns, toks Val) Val {
	f := make([]Val, 2)
	f[p.sn], f[p.st] = ns, toks
	return StructV{f}
}

func (p *PTS) mkOffsets(s, e Lin) Val {
	f := make([]Val, 2)
	f[p.os], f[p.oe] = IntV{L: s}, IntV{L: e}
	return StructV{f}
}

func (p *PTS) offsets(v Val) (s, e Lin, ok bool) {
	f, isS := v.(StructV)
	if !isS {
		return
	}
	a, ok1 := f.F[p.os].(IntV)
	b, ok2 := f.F[p.oe].(IntV)
	if !ok1 || !ok2 {
		return
	}
	return a.L, b.L, true
}

// countIdx declares the number of indices below one for which pred holds.
func (x *Interp) countIdx(name string, n Lin, pred func(x *Interp, st *State, i Lin) *Formula) {
	link := func(x *Interp, st *State, i, v, n Lin) {
		switch x.Decide(st, pred(x, st, i)) {
		case 1:
			st.P.AddEq(n.Sub(v).AddK(-1))
		case -1:
			st.P.AddEq(n.Sub(v))
		}
	}
	x.Decl(&Fam{Name: name, Lo: I64(0), Hi: I64(1), N: &n, V0: L(K(0)), Keep: true, Link: func(x *Interp, st *State, i, v Lin) {
		if n, ok := x.at(st, name, i.AddK(1)); ok {
			link(x, st, i, v, n)
		}
	}, OnNew: func(x *Interp, st *State, i, v Lin) {
		if p, ok := x.at(st, name, i.AddK(-1)); ok {
			link(x, st, i.AddK(-1), p, v)
		}
	}})
}

const nsMethod = "(*" + core.ModPath + "/normalizedstring.NormalizedString)."

// nsMethods replaces the methods of normalized strings by what they mean for
// unknown ones: those of the splits and those that split functions give.
func (x *Interp) nsMethods(p *PTS) {
	is := func(v Val) (tag string, i Lin, ok bool) {
		o, isO := v.(OpaqueV)
		if !isO || o.Tag != "ns" && o.Tag != "item" {
			return "", Lin{}, false
		}
		return o.Tag, o.Idx[0], true
	}
	stub := func(name string, f func(st *State, c *ssa.CallCommon, tag string, i Lin, a []Val) []Outcome) {
		x.Stubs[nsMethod+name] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			tag, i, ok := is(a[0])
			if !ok {
				x.Unsupported("receiver of "+name, "an unknown normalized string")
				return one(st, x.Havoc(st, resultType(c.Signature()), name))
			}
			return f(st, c, tag, i, a)
		}
	}
	length := func(st *State, tag string, i Lin) Lin {
		if tag == "item" {
			var l Lin
			if v, ok := x.Find(st, "item.len", i); ok {
				l = v
			} else {
				l = x.App(st, "item.len", i)
			}
			return l
		}
		x.App(st, "CL", i)
		x.App(st, "CL", i.AddK(1))
		return x.App(st, "ns.len", i)
	}
	stub("Len", func(st *State, c *ssa.CallCommon, tag string, i Lin, a []Val) []Outcome {
		return one(st, IntV{L: length(st, tag, i)})
	})
	stub("IsEmpty", func(st *State, c *ssa.CallCommon, tag string, i Lin, a []Val) []Outcome {
		return one(st, BoolV{FEQ(length(st, tag, i))})
	})
	stub("Get", func(st *State, c *ssa.CallCommon, tag string, i Lin, a []Val) []Outcome {
		return one(st, StrV{[]Piece{{Kind: pTag, Lit: tag, Lo: i, Hi: length(st, tag, i)}}})
	})
	stub("GetOriginal", func(st *State, c *ssa.CallCommon, tag string, i Lin, a []Val) []Outcome {
		return one(st, StrV{[]Piece{{Kind: pTag, Lit: tag + ".orig", Lo: i, Hi: x.FreshNat(st, "len")}}})
	})
	stub("OriginalOffsets", func(st *State, c *ssa.CallCommon, tag string, i Lin, a []Val) []Outcome {
		if tag != "ns" {
			return one(st, x.Havoc(st, p.OT, "offsets"))
		}
		return one(st, p.mkOffsets(x.App(st, "ns.ostart", i), x.App(st, "ns.oend", i)))
	})
}

// view is the pre-tokenized string as found in a state.
func (x *Interp) viewPTS(st *State, p *PTS) (orig StrV, splits SliceV, ok bool) {
	o := st.heap[p.Ptr.Obj]
	if o == nil || o.Bad != "" {
		return
	}
	s, isS := o.V.(StructV)
	if !isS {
		return
	}
	orig, ok1 := s.F[p.fo].(StrV)
	switch v := s.F[p.fs].(type) {
	case SliceV:
		splits = v
	case NilV:
		splits = SliceV{}
	default:
		return
	}
	return orig, splits, ok1
}

// sameSplits checks that the splits are those of the start, untouched.
func (x *Interp) sameSplits(st *State, p *PTS, rule, key, pos string) {
	orig, sp, ok := x.viewPTS(st, p)
	ok = ok && x.isSub(st, orig, p.Orig, K(0), p.Orig.N)
	n := st.G("@splits")
	same := ok && sp.Obj == p.Obj && x.ProveEQ(st, sp.Off) && x.ProveEQ(st, sp.Len.Sub(n)) && x.pristine(st, p)
	if !st.unreachable() {
		x.Obl(rule, key, pos, same || ok && x.ProveEQ(st, n) && x.ProveEQ(st, sp.Len), "the list of splits changes")
	}
}

// pristine reports whether the list of splits was never written.
func (x *Interp) pristine(st *State, p *PTS) bool {
	o := st.heap[p.Obj]
	return o != nil && o.Bad == "" && o.Seq != nil && len(o.Seq.Segs) == 1 && o.Seq.Segs[0].Kind == sSrc && x.st0(st, o.Seq.Segs[0].Lo)
}

// visit checks that the call of a function for v is the next one due.
func (x *Interp) visit(st *State, p *PTS, v Val, key, pos string) (Lin, bool) {
	o, ok := v.(OpaqueV)
	if !ok || o.Tag != "ns" {
		x.Obl(rVisit, key+"|a split", pos, false, "the function is applied to something that is not a split")
		return Lin{}, false
	}
	if st.HasG("failed") {
		x.Obl(rFail, key+"|stops", pos, false, "the function is called again after an error")
		return Lin{}, false
	}
	i := o.Idx[0]
	seen := st.G("@visited")
	ok = x.Prove(st, FNot(x.predicate(st, "tokenized", i)))
	if !st.unreachable() {
		x.Obl(rVisit, key+"|untokenized", pos, ok, "the function is applied to split %s, which may have tokens", st.P.Reduce(i))
	}
	t := x.App(st, "T", i)
	x.CheckEQ(st, rVisit, key+"|next", pos, i.Sub(t).Sub(seen), "the function is applied to split %s, the untokenized split number %s, after %s others", st.P.Reduce(i), st.P.Reduce(i.Sub(t)), st.P.Reduce(seen))
	st.SetG("@visited", seen.AddK(1))
	return i, true
}

// allVisited checks, after success, that no split was left out.
func (x *Interp) allVisited(st *State, p *PTS, key, pos string) {
	n := st.G("@splits")
	t := x.App(st, "T", n)
	x.CheckEQ(st, rVisit, key+"|all", pos, n.Sub(t).Sub(st.G("@visited")), "%s splits are visited, %s have no tokens", st.P.Reduce(st.G("@visited")), st.P.Reduce(n.Sub(t)))
}

// failed handles an outcome after an error; true if there was one.
func (x *Interp) ptsErr(st *State, ret Val, key, pos string) bool {
	o, isO := ret.(OpaqueV)
	if st.HasG("failed") {
		x.Obl(rFail, key+"|returned", pos, isO && o.Tag == "err:callback", "the error of the function is not returned")
		return true
	}
	_, isNil := ret.(NilV)
	x.Obl(rFail, key+"|no error", pos, isNil, "an error is returned although nothing failed")
	return false
}

// CheckC10 decides how pre-tokenized strings are processed.
func CheckC10(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	x.Tidy = true
	x.NoPanics, x.RulePanic = true, rNoPanic
	base := x.InitGlobals(NewState(), ptsPkg)
	c := os.Getenv("GTCASE")
	for _, k := range []struct {
		name string
		f    func(st *State)
	}{{"Split", x.ptsSplit}, {"Normalize", x.ptsNormalize}, {"Tokenize", x.ptsTokenize}, {"SplitsFromNormalizedStrings", x.ptsWrap}, {"FromString", x.ptsNew}, {"Splits", x.ptsSplits}} {
		if c == "" || c == k.name {
			x.Specs = nil
			k.f(base.Clone())
		}
	}
	x.Close("pre-tokenized strings")
	if c == "" {
		r.Min[rVisit], r.Min[rKept], r.Min[rPiece], r.Min[rFail], r.Min[rTokens] = 6, 2, 1, 6, 2
	}
}

// ptsSplits checks that the splits can be seen as they are.
func (x *Interp) ptsSplits(st *State) {
	p := x.newPTS(st)
	fn := x.Method(ptsPkg, "PreTokenizedString", "Splits")
	pos := x.Prog.Pos(fn.Pos())
	st.Ambient()
	for _, o := range x.Run(st, fn, p.Ptr) {
		s := o.St
		if o.Panic || s.unreachable() {
			continue
		}
		v, ok := o.Ret.(SliceV)
		N := s.G("@splits")
		switch {
		case ok && x.ProveEQ(s, v.Len) && x.ProveEQ(s, N):
		case ok && v.Obj == p.Obj:
			ok = x.ProveEQ(s, v.Off) && x.ProveEQ(s, v.Len.Sub(N))
		case ok:
			// a copy
			ob := s.heap[v.Obj]
			ok = ob != nil && ob.Seq != nil && len(ob.Seq.Segs) == 1 && ob.Bad == ""
			if ok {
				g := ob.Seq.Segs[0]
				ok = g.Kind == sSrc && g.Src.Name == "splits" && x.ProveEQ(s, v.Off) && x.ProveEQ(s, g.Lo) && x.ProveEQ(s, g.Hi.Sub(N)) && x.ProveEQ(s, v.Len.Sub(N))
			}
		}
		if !s.unreachable() {
			x.Obl(rKept, "Splits|all", pos, ok, "the splits seen are not those of the string")
		}
	}
}

func (x *Interp) ptsSplit(st *State) {
	p := x.newPTS(st)
	fn := x.Method(ptsPkg, "PreTokenizedString", "Split")
	pos := x.Prog.Pos(fn.Pos())
	st.SetG("@visited", K(0))
	// the pieces of all calls in one row: those of call v are IB(v)..IB(v+1)
	x.Decl(&Fam{Name: "IB", Lo: I64(0), V0: L(K(0)), Keep: true})
	x.Decl(&Fam{Name: "item.len", OnNew: func(x *Interp, st *State, i, v Lin) { st.P.AddGE(v) }})
	many := x.FreshNat(st, "items")
	nonEmpty := func(x *Interp, st *State, g Lin) *Formula {
		if l, ok := x.Find(st, "item.len", g); ok {
			return FGE(l.AddK(-1))
		}
		return FGE(x.Fresh("unknown"))
	}
	x.countIdx("NE", many, nonEmpty)
	src := &Source{Name: "items", N: many, Elem: func(x *Interp, st *State, g Lin) []ElemOut {
		x.App(st, "NE", g)
		x.App(st, "NE", g.AddK(1))
		var out []ElemOut
		yes, no := x.ForkBool(st, x.predicate(st, "item.tokenized", g))
		for _, s := range yes {
			out = append(out, ElemOut{s, p.mkSplit(OpaqueV{"item", []Lin{g}}, OpaqueV{"itemtok", []Lin{g}})})
		}
		for _, s := range no {
			out = append(out, ElemOut{s, p.mkSplit(OpaqueV{"item", []Lin{g}}, NilV{})})
		}
		return out
	}}
	p.Items = x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: many}}}, Elem: p.ST, Name: "items", Shared: true})
	x.Roots = append(x.Roots, p.Items)
	// splits are summarised by how many old ones with tokens (r0) and how
	// many pieces that are not empty (r1) are accounted for
	x.Spec(p.ST, &ChainSpec{
		Name: "new splits",
		All:  true,
		Init: func(x *Interp, st *State) []Val { return []Val{IntV{L: K(0)}, IntV{L: K(0)}} },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			nt, ne := r[0].(IntV).L, r[1].(IntV).L
			f, ok := v.(StructV)
			var o OpaqueV
			if ok {
				o, ok = f.F[p.sn].(OpaqueV)
			}
			if !ok {
				x.Obl(rKept, "Split|known", pos, false, "a split of unknown origin is added")
				return r
			}
			toks, hasToks := f.F[p.st].(OpaqueV)
			x.relink(st)
			switch o.Tag {
			case "ns":
				j := o.Idx[0]
				same := hasToks && toks.Tag == "tokptr" && x.ProveEQ(st, toks.Idx[0].Sub(j))
				if !st.unreachable() {
					x.Obl(rKept, "Split|tokens kept", pos, same, "an old split is kept without its tokens, or although it has none")
				}
				u := j.Sub(x.App(st, "T", j))
				x.relink(st)
				x.CheckEQ(st, rKept, "Split|no tokenized split left out", pos, x.App(st, "T", j).Sub(nt), "before split %s another one with tokens may be left out", st.P.Reduce(j))
				ib := x.App(st, "IB", u)
				x.CheckEQ(st, rPiece, "Split|pieces before a tokenized split", pos, x.App(st, "NE", ib).Sub(ne), "before split %s a piece that is not empty may be left out", st.P.Reduce(j))
				return []Val{IntV{L: nt.AddK(1)}, r[1]}
			case "item":
				h := o.Idx[0]
				same := true
				if hasToks {
					same = toks.Tag == "itemtok" && x.ProveEQ(st, toks.Idx[0].Sub(h))
				} else {
					_, isNil := f.F[p.st].(NilV)
					same = isNil && x.Prove(st, FNot(x.predicate(st, "item.tokenized", h)))
				}
				if !st.unreachable() {
					x.Obl(rKept, "Split|piece intact", pos, same, "a piece does not keep its tokens")
				}
				// the call that gave the piece is the last one; its split is before the next one to come
				v := st.G("@visited").AddK(-1)
				j := st.G("@split.cur")
				ok := x.ProveGE(st, h.Sub(x.App(st, "IB", v))) && x.ProveGE(st, x.App(st, "IB", v.AddK(1)).Sub(h).AddK(-1))
				if !st.unreachable() {
					x.Obl(rKept, "Split|piece of the last call", pos, ok, "piece %s is added out of order", st.P.Reduce(h))
				}
				x.CheckEQ(st, rKept, "Split|no tokenized split left out", pos, x.App(st, "T", j).Sub(nt), "before the pieces of split %s one with tokens may be left out", st.P.Reduce(j))
				x.CheckEQ(st, rPiece, "Split|pieces in order", pos, x.App(st, "NE", h).Sub(ne), "before piece %s another one may be left out", st.P.Reduce(h))
				ok = x.Prove(st, nonEmpty(x, st, h))
				if !st.unreachable() {
					x.Obl(rPiece, "Split|no empty piece", pos, ok, "an empty piece is kept")
				}
				return []Val{r[0], IntV{L: ne.AddK(1)}}
			}
			x.Obl(rKept, "Split|known", pos, false, "a split of unknown origin is added")
			return r
		},
	})
	f := &OpaqueFn{Name: "splitFunc", Fn: func(x *Interp, st *State, a []Val) []Outcome {
		i, ok := x.visit(st, p, a[1], "Split", pos)
		if !ok {
			return nil
		}
		if ix, isI := a[0].(IntV); isI {
			x.CheckEQ(st, rVisit, "Split|index", pos, ix.L.Sub(i), "split %s gets the index %s", st.P.Reduce(i), st.P.Reduce(ix.L))
		}
		bad := st.Clone()
		bad.SetG("failed", K(1))
		st.SetG("@split.cur", i)
		v := st.G("@visited").AddK(-1)
		g0, g1 := x.App(st, "IB", v), x.App(st, "IB", v.AddK(1))
		st.SetG("@pieces", g1)
		st.P.AddGE(many.Sub(g1))
		x.App(st, "NE", g0)
		x.App(st, "NE", g1)
		x.Saturate(st)
		return []Outcome{{St: bad, Ret: TupleV{SliceV{}, OpaqueV{Tag: "err:callback"}}}, {St: st, Ret: TupleV{SliceV{p.Items, g0, g1.Sub(g0)}, NilV{}}}}
	}}
	st.SetG("@split.cur", K(-1))
	st.SetG("@pieces", K(0))
	x.App(st, "IB", K(0))
	x.App(st, "NE", K(0))
	x.App(st, "T", K(0))
	st.Ambient()
	n := 0
	for _, o := range x.Run(st, fn, p.Ptr, f) {
		s := o.St
		if o.Panic || s.unreachable() {
			continue
		}
		if x.ptsErr(s, o.Ret, "Split", pos) {
			x.sameSplits(s, p, rIntact, "Split", pos)
			continue
		}
		n++
		x.allVisited(s, p, "Split", pos)
		orig, sp, ok := x.viewPTS(s, p)
		ok = ok && x.isSub(s, orig, p.Orig, K(0), p.Orig.N)
		x.Obl(rPtsOther, "Split", pos, ok, "the original text of the string changes")
		if !ok {
			continue
		}
		c := x.ChainOf(s, sp, p.ST)
		if c == nil && sp.Obj == p.Obj && x.pristine(s, p) {
			c = &Chain{N: s.G("@splits"), R: []Val{IntV{L: K(0)}, IntV{L: K(0)}}}
			// left as it was: right when there is nothing to split
			x.CheckEQ(s, rKept, "Split|nothing to do", pos, x.App(s, "T", c.N).Sub(c.N), "the splits stay as they were")
			continue
		}
		x.Obl(rKept, "Split|result", pos, c != nil || s.unreachable(), "the new list of splits is not known")
		if c == nil {
			continue
		}
		x.CheckEQ(s, rKept, "Split|all tokenized splits kept", pos, x.App(s, "T", s.G("@splits")).Sub(c.R[0].(IntV).L), "a split with tokens may be left out")
		ib := s.G("@pieces")
		x.CheckEQ(s, rPiece, "Split|all pieces kept", pos, x.App(s, "NE", ib).Sub(c.R[1].(IntV).L), "a piece that is not empty may be left out")
	}
	x.Obl(rKept, "Split|succeeds", pos, n > 0, "Split never succeeds")
}

func (x *Interp) ptsNormalize(st *State) {
	p := x.newPTS(st)
	fn := x.Method(ptsPkg, "PreTokenizedString", "Normalize")
	pos := x.Prog.Pos(fn.Pos())
	st.SetG("@visited", K(0))
	f := &OpaqueFn{Name: "normalize", Fn: func(x *Interp, st *State, a []Val) []Outcome {
		if _, ok := x.visit(st, p, a[0], "Normalize", pos); !ok {
			return nil
		}
		bad := st.Clone()
		bad.SetG("failed", K(1))
		return []Outcome{{St: bad, Ret: OpaqueV{Tag: "err:callback"}}, {St: st, Ret: NilV{}}}
	}}
	st.Ambient()
	n := 0
	for _, o := range x.Run(st, fn, p.Ptr, f) {
		if o.Panic || o.St.unreachable() {
			continue
		}
		x.sameSplits(o.St, p, rPtsOther, "Normalize", pos)
		if !x.ptsErr(o.St, o.Ret, "Normalize", pos) {
			n++
			x.allVisited(o.St, p, "Normalize", pos)
		}
	}
	x.Obl(rVisit, "Normalize|succeeds", pos, n > 0, "Normalize never succeeds")
}

func (x *Interp) ptsTokenize(st *State) {
	p := x.newPTS(st)
	fn := x.Method(ptsPkg, "PreTokenizedString", "Tokenize")
	pos := x.Prog.Pos(fn.Pos())
	st.heap[p.Obj].Shared = false
	st.SetG("@visited", K(0))
	// element n must be old split n, with its tokens or those just made
	check := func(x *Interp, st *State, n Lin, v Val) {
		f, ok := v.(StructV)
		var o OpaqueV
		if ok {
			o, ok = f.F[p.sn].(OpaqueV)
		}
		ok = ok && o.Tag == "ns" && x.ProveEQ(st, o.Idx[0].Sub(n))
		if st.unreachable() {
			return
		}
		x.Obl(rTokens, "Tokenize|same split", pos, ok, "split %s becomes another one", st.P.Reduce(n))
		if !ok {
			return
		}
		for i, b := range [][]*State{nil, nil} {
			_ = b
			f0 := x.predicate(st, "tokenized", n)
			if i == 1 {
				f0 = FNot(f0)
			}
			for _, s := range x.Assume(st.Clone(), f0) {
				x.relink(s)
				if s.unreachable() || x.Saturated(s) {
					continue
				}
				if i == 0 {
					t, isO := f.F[p.st].(OpaqueV)
					x.Obl(rTokens, "Tokenize|tokens kept", pos, isO && t.Tag == "tokptr" && x.ProveEQ(s, t.Idx[0].Sub(n)), "split %s, which has tokens, gets others", s.P.Reduce(n))
					continue
				}
				ok := false
				if q, isP := f.F[p.st].(PtrV); isP {
					es := x.load(s, q, nil, 0)
					if len(es) == 1 {
						t, isO := es[0].V.(OpaqueV)
						ok = isO && t.Tag == "newtoks" && x.ProveEQ(s, t.Idx[0].Sub(n))
						if sv, isS := es[0].V.(SliceV); isS && sv.Obj == 0 {
							ok = x.Prove(s, x.predicate(s, "notokens", n))
						}
					}
				}
				x.Obl(rTokens, "Tokenize|tokens stored", pos, ok, "split %s does not get the tokens made for it", s.P.Reduce(n))
			}
		}
	}
	x.Spec(p.ST, &ChainSpec{
		Name:  "tokenized splits",
		Index: true, // the register is the next index
		Init:  func(x *Interp, st *State) []Val { return []Val{IntV{L: K(0)}} },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			check(x, st, n, v)
			x.App(st, "T", n.AddK(1))
			return []Val{IntV{L: n.AddK(1)}}
		},
		PushSrc: func(x *Interp, st *State, r []Val, n Lin, s Seg) ([]Val, bool) {
			if s.Kind != sSrc || s.Src.Name != "splits" {
				return nil, false
			}
			x.relink(st)
			// unchanged splits: right for those that have tokens
			return []Val{IntV{L: s.Hi}}, x.ProveEQ(st, s.Lo.Sub(n)) && x.ProveEQ(st, x.App(st, "T", s.Hi).Sub(x.App(st, "T", s.Lo)).Sub(s.Hi.Sub(s.Lo)))
		},
	})
	f := &OpaqueFn{Name: "tokenize", Fn: func(x *Interp, st *State, a []Val) []Outcome {
		i, ok := x.visit(st, p, a[0], "Tokenize", pos)
		if !ok {
			return nil
		}
		bad := st.Clone()
		bad.SetG("failed", K(1))
		out := []Outcome{{St: bad, Ret: TupleV{SliceV{}, OpaqueV{Tag: "err:callback"}}}}
		yes, no := x.ForkBool(st, x.predicate(st, "notokens", i))
		for _, s := range yes {
			out = append(out, Outcome{St: s, Ret: TupleV{SliceV{}, NilV{}}})
		}
		for _, s := range no {
			out = append(out, Outcome{St: s, Ret: TupleV{OpaqueV{"newtoks", []Lin{i}}, NilV{}}})
		}
		return out
	}}
	st.Ambient()
	n := 0
	for _, o := range x.Run(st, fn, p.Ptr, f) {
		s := o.St
		if o.Panic || s.unreachable() {
			continue
		}
		if x.ptsErr(s, o.Ret, "Tokenize", pos) {
			continue
		}
		n++
		x.allVisited(s, p, "Tokenize", pos)
		orig, sp, ok := x.viewPTS(s, p)
		ok = ok && x.isSub(s, orig, p.Orig, K(0), p.Orig.N) && x.ProveEQ(s, sp.Len.Sub(s.G("@splits")))
		x.Obl(rPtsOther, "Tokenize", pos, ok, "the original text or the number of splits changes")
		if !ok || x.ProveEQ(s, s.G("@splits")) {
			continue
		}
		c := x.ChainOf(s, sp, p.ST)
		x.Obl(rTokens, "Tokenize|result", pos, c != nil || s.unreachable(), "not every split has its tokens")
	}
	x.Obl(rTokens, "Tokenize|succeeds", pos, n > 0, "Tokenize never succeeds")
}

// Saturated saturates st and reports whether it is impossible.
func (x *Interp) Saturated(st *State) bool {
	x.Saturate(st)
	return st.unreachable()
}

// ptsWrap checks SplitsFromNormalizedStrings.
func (x *Interp) ptsWrap(st *State) {
	p := x.newPTS(st)
	fn := x.Func(ptsPkg, "SplitsFromNormalizedStrings")
	pos := x.Prog.Pos(fn.Pos())
	n := x.FreshNat(st, "strings")
	st.SetG("@n", n)
	src := &Source{Name: "strings", N: n, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
		return []ElemOut{{st, OpaqueV{"item", []Lin{i}}}}
	}}
	et := types.NewPointer(x.Type(nsPkg, "NormalizedString"))
	id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: n}}}, Elem: et, Name: "strings", Shared: true})
	x.Spec(p.ST, &ChainSpec{
		Name: "wrapped",
		Init: func(x *Interp, st *State) []Val { return nil },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			f, ok := v.(StructV)
			if ok {
				var o OpaqueV
				o, ok = f.F[p.sn].(OpaqueV)
				ok = ok && o.Tag == "item" && x.ProveEQ(st, o.Idx[0].Sub(n))
				_, isNil := f.F[p.st].(NilV)
				ok = ok && isNil
			}
			if !st.unreachable() {
				x.Obl(rKept, "SplitsFromNormalizedStrings|split", pos, ok, "split %s is not string %s without tokens", st.P.Reduce(n), st.P.Reduce(n))
			}
			return nil
		},
	})
	st.Ambient()
	for _, o := range x.Run(st, fn, SliceV{id, K(0), n}) {
		s := o.St
		if o.Panic || s.unreachable() || x.ProveEQ(s, s.G("@n")) {
			continue
		}
		sp, ok := o.Ret.(SliceV)
		ok = ok && x.ProveEQ(s, sp.Len.Sub(s.G("@n")))
		if ok {
			c := x.ChainOf(s, sp, p.ST)
			ok = c != nil
		}
		if !s.unreachable() {
			x.Obl(rKept, "SplitsFromNormalizedStrings|all", pos, ok, "not every string becomes a split")
		}
	}
}

// ptsNew checks the constructors.
func (x *Interp) ptsNew(st *State) {
	p := x.newPTS(st)
	for _, c := range []string{"FromString", "FromNormalizedString"} {
		fn := x.Func(ptsPkg, c)
		pos := x.Prog.Pos(fn.Pos())
		st := st.Clone()
		b := x.NewBase(st, "text")
		var arg Val = OpaqueV{"ns", []Lin{K(0)}}
		if c == "FromString" {
			arg = b.Whole()
			x.Stubs[core.ModPath+"/normalizedstring.FromString"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
				x.Obl(rKept, "FromString|text", pos, x.isSub(st, a[0].(StrV), b, K(0), b.N), "the text is %s", showVal(st, a[0]))
				return one(st, OpaqueV{"ns", []Lin{K(0)}})
			}
		}
		n := 0
		for _, o := range x.Run(st, fn, arg) {
			if o.Panic || o.St.unreachable() {
				continue
			}
			n++
			q := *p
			ok := false
			if ptr, isP := o.Ret.(PtrV); isP && len(ptr.Path) == 0 {
				q.Ptr = ptr
				orig, sp, k := x.viewPTS(o.St, &q)
				if c == "FromString" && k {
					// the original text is that of the normalized string
					k = x.isSub(o.St, orig, b, K(0), b.N) || len(orig.P) == 1 && orig.P[0].Kind == pTag && orig.P[0].Lit == "ns.orig"
				} else if k {
					k = len(orig.P) == 1 && orig.P[0].Kind == pTag && orig.P[0].Lit == "ns.orig"
				}
				es, k2 := x.sliceElems(o.St, sp)
				if k && k2 && len(es) == 1 {
					f := es[0].(StructV).F
					ns, isNS := f[p.sn].(OpaqueV)
					_, isNil := f[p.st].(NilV)
					ok = isNS && ns.Tag == "ns" && isNil
				}
			}
			x.Obl(rKept, c+"|one split", pos, ok, "the result is not one split without tokens, of the string given")
		}
		x.Obl(rKept, c+"|returns", pos, n > 0, "it never returns")
	}
}
