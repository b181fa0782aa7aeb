package ai

import (
	"golang.org/x/tools/go/ssa"
)

// captures is an arbitrary list of captures that tiles a text: capture i goes
// from rune CB(i) to rune CB(i+1), is a match iff CM(i) = 1, and is preceded by
// MC(i) matches.
type captures struct {
	B          *StrBase
	N          Lin
	CB, CM, MC string
	src        *Source
}

func (x *Interp) newCaptures(st *State, b *StrBase, ct captureT) *captures {
	c := &captures{B: b, CB: "C.start", CM: "C.match", MC: "C.matches"}
	c.N = x.FreshNat(st, "captures")
	st.P.AddGE(c.N.AddK(-1))
	n1 := c.N.AddK(1)
	r := b.R
	x.Decl(&Fam{Name: c.CB, Lo: I64(0), N: &n1, V0: L(K(0)), VN: &r, Link: func(x *Interp, st *State, i, v Lin) {
		st.P.AddGE(v)
		st.P.AddGE(b.R.Sub(v))
		if st.P.Reduce(i.Sub(c.N)).IsK(0) {
			st.P.AddEq(b.R.Sub(v))
		}
		if n, ok := x.at(st, c.CB, i.AddK(1)); ok {
			st.P.AddGE(n.Sub(v))
		}
	}})
	x.Decl(&Fam{Name: c.CM, N: &c.N, Link: func(x *Interp, st *State, i, v Lin) {
		st.P.AddGE(v)
		st.P.AddGE(K(1).Sub(v))
	}})
	x.Decl(&Fam{Name: c.MC, Lo: I64(0), N: &n1, V0: L(K(0)), Link: func(x *Interp, st *State, i, v Lin) {
		st.P.AddGE(v)
		n, ok := x.at(st, c.MC, i.AddK(1))
		m, ok2 := x.at(st, c.CM, i)
		if ok && ok2 {
			st.P.AddEq(n.Sub(v).Sub(m))
		}
	}})
	c.src = &Source{Name: "captures", N: c.N, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
		s, e := x.App(st, c.CB, i), x.App(st, c.CB, i.AddK(1))
		m := x.App(st, c.CM, i)
		x.App(st, c.MC, i)
		x.App(st, c.MC, i.AddK(1))
		x.relink(st)
		ps, pe := x.App(st, b.posFam(), s), x.App(st, b.posFam(), e)
		x.relink(st)
		yes, no := x.ForkBool(st, FGE(m.AddK(-1)))
		var out []ElemOut
		for _, q := range yes {
			q.P.AddEq(m.AddK(-1))
			x.relink(q)
			out = append(out, ElemOut{q, ct.mk(ps, pe, FBool(true))})
		}
		for _, q := range no {
			q.P.AddEq(m)
			x.relink(q)
			out = append(out, ElemOut{q, ct.mk(ps, pe, FBool(false))})
		}
		return out
	}}
	return c
}

// stub makes FindMatches of the pattern report the captures, or fail.
func (c *captures) stub(x *Interp, ct captureT, rule, key string) {
	x.Stubs["invoke:pattern.FindMatches"] = func(x *Interp, st *State, cc *ssa.CallCommon, a []Val) []Outcome {
		x.Obl(rule, key+"|text searched", x.Prog.Pos(cc.Pos()), x.isSub(st, a[1].(StrV), c.B, K(0), c.B.N), "the pattern is looked for in %s", showVal(st, a[1]))
		err := st.Clone()
		id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: c.src, Lo: K(0), Hi: c.N}}}, Elem: ct.T, Name: "captures", Shared: true})
		return []Outcome{{St: err, Ret: TupleV{NilV{}, OpaqueV{Tag: "err:pattern"}}}, {St: st, Ret: TupleV{SliceV{id, K(0), c.N}, NilV{}}}}
	}
}

// checkReplace verifies Replace: the transforms it asks for replace, from left
// to right, exactly the matches by the content.
func (x *Interp) checkReplace(base *State) {
	st := base.Clone()
	fn := x.Method(nsPkg, "NormalizedString", "Replace")
	o := x.newEdit(st, "Replace", rReplace, fn)
	ct := x.captureType()
	b := o.ns.Norm
	cs := x.newCaptures(st, b, ct)
	content := x.NewBase(st, "content")
	content.Track = true
	// matches replaced, where the last one ended, and how much longer the text
	// has become
	st.SetG("rp.count", K(0))
	st.SetG("rp.done", K(0))
	st.SetG("rp.more", K(0))
	o.text = func(x *Interp, st *State, n, t Lin, r IntV) (Lin, bool) {
		ok := r.P != nil && r.P.B == content && r.P.Tag == ""
		return t.AddK(1), ok && x.ProveEQ(st, r.P.K.Sub(t))
	}
	cs.stub(x, ct, rReplace, "Replace")
	defer delete(x.Stubs, "invoke:pattern.FindMatches")
	x.Stubs[trName] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		o.replaceCall(x, st, cs, content, a)
		return one(st, TupleV{})
	}
	st.Ambient()
	outs := x.Run(st, fn, o.ns.Ptr, OpaqueV{Tag: "pattern"}, content.Whole())
	n := 0
	for _, out := range outs {
		s := out.St
		if out.Panic || s.unreachable() {
			continue
		}
		v, ok := x.ViewNS(s, o.ns, o.ns.Ptr)
		o.obl(x, s, rOnly, "only transforms", ok && x.ProveEQ(s, strLen0(v.Norm).Sub(b.N).Sub(s.G("rp.more"))) && o.endsWith(x, s, v.Norm, s.G("rp.done")), "the text is changed other than by a transform")
		x.unchangedNS(s, o.ns, o.name, o.pos)
		if _, isNil := out.Ret.(NilV); !isNil {
			continue
		}
		n++
		o.obl(x, s, o.rule, "all matches", x.ProveEQ(s, x.App(s, cs.MC, cs.N).Sub(s.G("rp.count"))), "only %s matches are replaced", s.P.Reduce(s.G("rp.count")))
	}
	x.Obl(o.rule, o.name+"|succeeds", o.pos, n > 0, "%s never succeeds", o.name)
}

// endsWith reports whether v ends with the original text from byte lo on.
func (o *editOp) endsWith(x *Interp, st *State, v StrV, lo Lin) bool {
	v = x.concat(st, v)
	if x.ProveEQ(st, o.ns.Norm.N.Sub(lo)) {
		return true
	}
	if len(v.P) == 0 {
		return false
	}
	p := v.P[len(v.P)-1]
	return p.Kind == pSub && p.Base == o.ns.Norm && x.ProveGE(st, lo.Sub(p.Lo)) && x.ProveEQ(st, o.ns.Norm.N.Sub(p.Hi))
}

func (o *editOp) replaceCall(x *Interp, st *State, cs *captures, content *StrBase, a []Val) {
	p, ok := a[0].(PtrV)
	if !ok || p.Obj != o.ns.Ptr.Obj {
		o.obl(x, st, o.rule, "same string", false, "another string is transformed")
		return
	}
	lo, hi, ok := x.rangeOf(st, a[1])
	if !ok {
		o.obl(x, st, rPre, "range", false, "the range transformed is not known")
		return
	}
	b := o.ns.Norm
	count, done, more := st.G("rp.count"), st.G("rp.done"), st.G("rp.more")
	// which match?
	var i Lin
	found := false
	for _, e := range append([]memoEnt(nil), st.memo[cs.CM]...) {
		m, ok := x.at(st, cs.MC, e.idx)
		if !ok || !x.ProveEQ(st, m.Sub(count)) || !x.ProveEQ(st, e.v.AddK(-1)) {
			continue
		}
		i, found = e.idx, true
	}
	o.obl(x, st, o.rule, "the next match", found, "the text at %s..%s that is replaced is not known to be the next match", st.P.Reduce(lo), st.P.Reduce(hi))
	if !found {
		return
	}
	k0, k1 := x.App(st, cs.CB, i), x.App(st, cs.CB, i.AddK(1))
	p0, p1 := x.App(st, b.posFam(), k0), x.App(st, b.posFam(), k1)
	x.relink(st)
	o.obl(x, st, o.rule, "the whole match", x.ProveEQ(st, lo.Sub(p0).Sub(more)) && x.ProveEQ(st, hi.Sub(p1).Sub(more)), "%s..%s is replaced where the match is at %s..%s, moved by %s", st.P.Reduce(lo), st.P.Reduce(hi), st.P.Reduce(p0), st.P.Reduce(p1), st.P.Reduce(more))
	init := a[3].(IntV).L
	sv, _ := a[2].(SliceV)
	ch := x.ChainOf(st, sv, x.Type(nsPkg, "RuneChange"))
	if ch == nil {
		o.obl(x, st, o.rule, "script known", false, "the script is not known")
		return
	}
	used := ch.R[0].(IntV).L
	o.obl(x, st, rPre, "initial offset", x.ProveGE(st, init), "the initial offset %s may be negative", st.P.Reduce(init))
	o.obl(x, st, rPre, "enough runes", x.ProveGE(st, k1.Sub(k0).Sub(init).Sub(used)), "the script consumes %s runes after the first %s, the range has %s", st.P.Reduce(used), st.P.Reduce(init), st.P.Reduce(k1.Sub(k0)))
	o.obl(x, st, o.rule, "the whole content", x.ProveEQ(st, ch.N.Sub(content.R)) && x.ProveEQ(st, ch.R[1].(IntV).L.Sub(content.R)), "%s runes are written, the content has %s", st.P.Reduce(ch.N), st.P.Reduce(content.R))
	o.obl(x, st, rPre, "in order", x.ProveGE(st, p0.Sub(done)), "a match is replaced after a later one")
	more = more.Add(content.N).Sub(p1.Sub(p0))
	st.SetG("rp.count", count.AddK(1))
	st.SetG("rp.done", p1)
	st.SetG("rp.more", more)
	st.P.AddGE(p1.Add(more))
	// the new text and alignments
	es := x.load(st, p, nil, 0)
	f := append([]Val(nil), es[0].V.(StructV).F...)
	f[o.ns.fn] = StrV{append(append([]Piece(nil), x.someStr(p1.Add(more)).P...), x.substr(st, b.Whole(), p1, b.N).P...)}
	n := b.N.Add(more)
	f[o.ns.fa] = SliceV{x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sTop, N: n}}}, Elem: o.ns.AT, Name: "new alignments"}), K(0), n}
	no := *st.heap[p.Obj]
	no.V = StructV{f}
	st.heap[p.Obj] = &no
}
