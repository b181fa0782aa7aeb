package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// BPE: from characters to symbols and from symbols to tokens.
//
// Rune k of the text is in the vocabulary, decorated as configured, with the
// id CID(k), or it is not. The ghost q is the rune that is looked up next, u
// the first one that no symbol stands for yet; jf says that rune q-1 was found
// and has no symbol yet. After the merges there are symbols with the ids
// MID(i) that end at MO(i+1).

const (
	rBpeTile = "symbols and tokens stand for all bytes of the text, in order"
	rBpeUnk  = "characters out of vocabulary become unknown tokens as configured"
	rTotal   = "merging keeps the bytes that symbols stand for"
	bpePkg   = "models/bpemodel"
)

const bpePath = core.ModPath + "/models/bpemodel."

type bpe struct {
	x              *Interp
	b              *StrBase
	tt             tokenT
	wordT          types.Type
	unkLen         Lin
	preLen, sufLen Lin
	unkID          Lin
	nsym           Lin
	hasUnk, fuse   bool
	sfield         map[string][]int
	name           string
}

// CheckC13 decides the offsets of BPE tokens, CheckC15 how characters are
// looked up, CheckC17 that ids and values agree.
func CheckC13(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	x.Only = map[string]bool{rBpeTile: true, rTotal: true, rNoPanic: true}
	x.bpeModel(x.InitGlobals(NewState(), bpePkg))
	x.Close("BPE")
	r.Min[rBpeTile] = 4
}

func CheckC15(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	x.Only = map[string]bool{rDecor: true, rBpeUnk: true}
	x.bpeModel(x.InitGlobals(NewState(), bpePkg))
	x.Close("BPE")
	r.Min[rDecor], r.Min[rBpeUnk] = 3, 3
}

func CheckC17(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	x.Only = map[string]bool{rAgree: true}
	x.bpeModel(x.InitGlobals(NewState(), bpePkg))
	x.Specs = nil
	x.Stubs = map[string]Stub{}
	x.wordPiece(x.InitGlobals(NewState(), wpPkg))
	x.Close("models")
	r.Min[rAgree] = 5
}

func (x *Interp) bpeModel(base *State) {
	for _, c := range []struct {
		name      string
		unk, fuse bool
	}{{"unknown tokens fused", true, true}, {"unknown tokens", true, false}, {"no unknown token", false, false}, {"no unknown token, fusion", false, true}} {
		m := &bpe{x: x, tt: x.tokenType(), hasUnk: c.unk, fuse: c.fuse, name: c.name}
		m.run(base.Clone())
	}
}

// field finds a field of a word symbol.
func fieldPath(t types.Type, name string) []int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				if p := fieldPath(f.Type(), name); p != nil {
					return append([]int{i}, p...)
				}
			}
		}
	}
	return nil
}

// mkStruct makes a struct of type t with the fields given by f.
func (x *Interp) mkStruct(st *State, t types.Type, f map[string]Val) Val {
	v := x.zero(t)
	for n, fv := range f {
		p := fieldPath(t, n)
		if p == nil {
			panic("field " + n + " not found in " + t.String())
		}
		v = setPath(v, p, fv)
	}
	return v
}

func setPath(v Val, p []int, f Val) Val {
	if len(p) == 0 {
		return f
	}
	s := v.(StructV)
	n := append([]Val(nil), s.F...)
	n[p[0]] = setPath(n[p[0]], p[1:], f)
	return StructV{n}
}

func getPath(v Val, p []int) Val {
	for _, i := range p {
		s, ok := v.(StructV)
		if !ok {
			return nil
		}
		v = s.F[i]
	}
	return v
}

// symbols installs a row of word symbols, read through pointers.
func (x *Interp) symbols(st *State, tag string, n Lin, field func(st *State, name string, i Lin) Val) ObjID {
	t := x.Type(bpePkg, "WordSymbol")
	x.tagLoads[tag] = func(x *Interp, st *State, o OpaqueV) PtrV {
		i := o.Idx[0]
		for _, m := range st.mats[tag] {
			if !st.P.EntailsNE(m.idx.Sub(i)) {
				x.Unsupported("alias "+tag, "symbols that may be the same")
			}
		}
		f := map[string]Val{}
		for _, n := range []string{"ID", "Length", "Prev", "Next"} {
			f[n] = field(st, n, i)
		}
		return PtrV{Obj: x.NewObj(st, &Obj{V: x.mkStruct(st, t, f), Elem: t, Name: tag, Shared: true})}
	}
	src := &Source{Name: tag, N: n, Split: tag == "csym", Elem: func(x *Interp, st *State, i Lin) []ElemOut {
		return []ElemOut{{st, OpaqueV{Tag: tag, Idx: []Lin{i}}}}
	}}
	obj := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: n}}}, Elem: types.NewPointer(t), Name: tag})
	x.Roots = append(x.Roots, obj)
	return obj
}

func (m *bpe) run(st *State) {
	x := m.x
	m.b = x.NewBase(st, "text")
	b := m.b
	m.unkLen, m.preLen, m.sufLen = x.FreshNat(st, "length of the unknown token"), x.FreshNat(st, "length of the prefix"), x.FreshNat(st, "length of the suffix")
	if m.hasUnk {
		st.P.AddGE(m.unkLen.AddK(-1))
	} else {
		st.P.AddEq(m.unkLen)
	}
	m.unkID, m.nsym = x.Fresh("id of the unknown token"), x.FreshNat(st, "symbols")
	st.SetG("@unk", m.unkID)
	st.SetG("@ul", m.unkLen)
	st.SetG("@pl", m.preLen)
	st.SetG("@sl", m.sufLen)
	st.SetG("@nsym", m.nsym)
	x.Decl(&Fam{Name: "CID", Keep: true})
	x.Decl(&Fam{Name: "MID"})
	total := b.N
	if !m.hasUnk {
		total = x.FreshNat(st, "bytes of symbols")
		st.SetG("@total", total)
	}
	x.Decl(&Fam{Name: "MO", Lo: I64(0), N: &m.nsym, V0: L(K(0)), VN: &total})
	syms := x.symbols(st, "msym", m.nsym, func(st *State, n string, i Lin) Val {
		switch n {
		case "ID":
			return IntV{L: x.App(st, "MID", i)}
		case "Length":
			return IntV{L: x.App(st, "MO", i.AddK(1)).Sub(x.App(st, "MO", i))}
		}
		return IntV{L: x.Fresh(n)}
	})
	ctor := x.Func(bpePkg, "New")
	fn := x.Method(bpePkg, "BPEModel", "Tokenize")
	pos := x.Prog.Pos(fn.Pos())
	x.Stubs[vocMethod+"GetID"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return m.getID(st, c, a, pos) }
	x.Stubs[vocMethod+"GetString"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return m.getString(st, c, a, pos) }
	x.Stubs["(*"+bpePath+"Word).Add"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return m.add(st, a, pos) }
	x.Stubs["(*"+bpePath+"Word).MergeAll"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		return m.mergeAll(st, a, syms, pos)
	}
	x.RulePanic, x.NoPanics = rNoPanic, true
	st.Ambient()
	suffix := Val(tagStr("suffix", m.sufLen))
	unk := Val(tagStr("unknown", m.unkLen))
	if !m.hasUnk {
		unk = Lit("")
	}
	outs := x.Run(st, ctor, OpaqueV{Tag: "vocab"}, OpaqueV{Tag: "merges"}, IntV{L: x.Fresh("capacity")}, FloatV{"dropout"},
		unk, tagStr("prefix", m.preLen), suffix, BConst(m.fuse))
	x.Spec(m.tt.T, &ChainSpec{
		Name: "tokens",
		All:  true,
		// agreeing ids, agreeing offsets
		Init: func(x *Interp, st *State) []Val { return []Val{IntV{L: K(0)}, IntV{L: K(0)}} },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			out := []Val{IntV{L: K(-1)}, IntV{L: K(-1)}}
			id, value, s, e, ok := m.tt.parts(v)
			if !ok {
				return out
			}
			if x.ProveEQ(st, n.Sub(r[0].(IntV).L)) && x.ProveEQ(st, id.Sub(x.App(st, "MID", n))) && len(value.P) == 1 && value.P[0].Kind == pTag && value.P[0].Lit == "term" && x.ProveEQ(st, value.P[0].Lo.Sub(id)) {
				out[0] = IntV{L: n.AddK(1)}
			}
			if x.ProveEQ(st, n.Sub(r[1].(IntV).L)) && x.ProveEQ(st, s.Sub(x.App(st, "MO", n))) && x.ProveEQ(st, e.Sub(x.App(st, "MO", n.AddK(1)))) {
				out[1] = IntV{L: n.AddK(1)}
			}
			return out
		},
		PushSrc: func(x *Interp, st *State, r []Val, n Lin, s Seg) ([]Val, bool) {
			if s.Kind != sFill {
				return nil, false
			}
			return []Val{IntV{L: K(-1)}, IntV{L: K(-1)}}, true
		},
	})
	defer x.Spec(m.tt.T, nil)
	defer func(b func(*State, int) []*State) { x.Back = b }(x.Back)
	x.Back = func(st *State, depth int) []*State {
		// characters that wait for their symbol are told apart from none
		if depth != 1 || !st.HasG("u") {
			return []*State{st}
		}
		var out []*State
		wait, none := x.ForkBool(st, FGE(st.G("q").Sub(st.G("u")).AddK(-1)))
		for _, s := range wait {
			s.P.AddGE(s.G("pq").Sub(s.G("pu")).AddK(-1))
			s.SetGV("wait", OpaqueV{Tag: "yes"})
			out = append(out, s)
		}
		for _, s := range none {
			if x.ProveEQ(s, s.G("q").Sub(s.G("u"))) {
				s.P.AddEq(s.G("pq").Sub(s.G("pu")))
			}
			s.SetGV("wait", OpaqueV{Tag: "no"})
			out = append(out, s)
		}
		return out
	}
	ret := 0
	for _, rc := range outs {
		if rc.Panic || rc.St.unreachable() {
			continue
		}
		s := rc.St
		s.SetG("q", K(0))
		s.SetG("u", K(0))
		s.SetG("pq", K(0))
		s.SetG("pu", K(0))
		s.SetGV("jf", OpaqueV{Tag: "no"})
		s.SetGV("merged", OpaqueV{Tag: "no"})
		s.SetGV("wait", OpaqueV{Tag: "no"})
		for _, o := range x.Run(s, fn, rc.Ret, b.Whole()) {
			if o.Panic || o.St.unreachable() {
				continue
			}
			ret++
			m.outcome(o, pos)
		}
	}
	x.Obl(rBpeTile, m.name+"|returns", pos, ret > 0, "it never returns")
}

func (m *bpe) flag(st *State, n string) bool { return st.GV(n).(OpaqueV).Tag == "yes" }

func (m *bpe) getID(st *State, c *ssa.CallCommon, a []Val, pos string) []Outcome {
	x, b := m.x, m.b
	s, ok := a[1].(StrV)
	if v, isV := a[0].(OpaqueV); !ok || !isV || v.Tag != "vocab" {
		x.Obl(rDecor, m.name+"|vocabulary", pos, false, "something else than the given vocabulary is asked")
		return one(st, x.Havoc(st, resultType(c.Signature()), "id"))
	}
	found := func(s *State, id Lin) Outcome { return Outcome{St: s, Ret: TupleV{IntV{L: id}, BConst(true)}} }
	missing := func(s *State) Outcome { return Outcome{St: s, Ret: TupleV{IntV{L: K(0)}, BConst(false)}} }
	var out []Outcome
	if isTag(s, "unknown") {
		yes, no := x.ForkBool(st, x.predicate(st, "unknown in vocabulary", K(0)))
		for _, s := range yes {
			out = append(out, found(s, m.unkID))
		}
		for _, s := range no {
			out = append(out, missing(s))
		}
		return out
	}
	q := st.G("q")
	x.ends(st, b)
	bad := m.decorated(st, s, q)
	if st.unreachable() {
		return nil
	}
	x.Obl(rDecor, m.name+"|character", pos, bad == "", "the lookup of %s, where rune %s comes next: %s", showVal(st, s), st.P.Reduce(q), bad)
	if m.flag(st, "jf") {
		x.Obl(rBpeTile, m.name+"|found", pos, false, "a character that was found has no symbol")
	}
	if bad != "" {
		return one(st, x.Havoc(st, resultType(c.Signature()), "id"))
	}
	no := st.Clone()
	id := x.Fresh("id")
	x.Bind(st, "CID", q, id)
	st.SetG("q", q.AddK(1))
	st.SetG("pq", x.App(st, b.posFam(), q.AddK(1)))
	st.SetGV("jf", OpaqueV{Tag: "yes"})
	no.SetG("q", q.AddK(1))
	no.SetG("pq", x.App(no, b.posFam(), q.AddK(1)))
	return append(out, found(st, id), missing(no))
}

// impossible reports whether f cannot hold.
func (x *Interp) impossible(st *State, f *Formula) bool {
	for _, t := range x.Assume(st.Clone(), f) {
		x.Saturate(t)
		if !t.unreachable() {
			return false
		}
	}
	return true
}

// decorated says what is wrong with s as the lookup of rune q.
func (m *bpe) decorated(st *State, s StrV, q Lin) string {
	x, b := m.x, m.b
	pre, mid, post := x.splitTags(st, s)
	lo := x.App(st, b.posFam(), q)
	if !x.ProveGE(st, b.R.Sub(q).AddK(-1)) {
		return "there is no such rune"
	}
	hi := x.App(st, b.posFam(), q.AddK(1))
	isRune := len(mid.P) == 1 && mid.P[0].Kind == pRune && x.ProveEQ(st, mid.P[0].Lo.Sub(x.RuneAt(st, b, q)))
	if !isRune && !x.isSub(st, mid, b, lo, hi) {
		return "it is not that rune"
	}
	// an empty decoration is none
	need := func(n Lin, l Lin) bool {
		for _, t := range x.Assume(st.Clone(), FGE(n.AddK(-1))) {
			if !x.impossible(t, FGE(l.AddK(-1))) {
				return true
			}
		}
		return false
	}
	last := b.R.Sub(q).AddK(-1)
	switch {
	case len(pre) == 0 && need(m.preLen, q):
		return "it may be without the prefix behind the first"
	case len(pre) > 1 || len(pre) == 1 && (pre[0] != "prefix" || !x.impossible(st, FEQ(q))):
		return "it has the wrong prefix"
	case len(post) > 1 || len(post) == 1 && (post[0] != "suffix" || !x.impossible(st, FGE(last.AddK(-1)))):
		return "it has the wrong suffix"
	case len(post) == 0:
		for _, t := range x.Assume(st.Clone(), FGE(m.sufLen.AddK(-1))) {
			if !x.impossible(t, FEQ(last)) {
				return "the last one may be without the suffix"
			}
		}
	}
	return ""
}

func (m *bpe) getString(st *State, c *ssa.CallCommon, a []Val, pos string) []Outcome {
	x := m.x
	id, ok := a[1].(IntV)
	if v, isV := a[0].(OpaqueV); !ok || !isV || v.Tag != "vocab" {
		x.Obl(rAgree, m.name+"|vocabulary", pos, false, "something else than the given vocabulary is asked")
		return one(st, x.Havoc(st, resultType(c.Signature()), "term"))
	}
	var out []Outcome
	yes, no := x.ForkBool(st, x.predicate(st, "term", id.L))
	for _, s := range yes {
		out = append(out, Outcome{St: s, Ret: TupleV{StrV{[]Piece{{Kind: pTag, Lit: "term", Lo: id.L, Hi: x.FreshNat(s, "len")}}}, BConst(true)}})
	}
	for _, s := range no {
		s.SetGV("noterm", OpaqueV{Tag: "yes"})
		out = append(out, Outcome{St: s, Ret: TupleV{Lit(""), BConst(false)}})
	}
	return out
}

// isWord notes and compares the word that is built.
func (m *bpe) isWord(st *State, v Val) bool {
	p, ok := v.(PtrV)
	if !ok || len(p.Path) != 0 {
		return false
	}
	w, ok := st.GV("word").(PtrV)
	if !ok {
		st.SetGV("word", p)
		return true
	}
	return m.x.resolve(st, w).Obj == m.x.resolve(st, p).Obj
}

// add is Word.Add.
func (m *bpe) add(st *State, a []Val, pos string) []Outcome {
	x, b := m.x, m.b
	id, ok1 := a[1].(IntV)
	n, ok2 := a[2].(IntV)
	if !ok1 || !ok2 || !m.isWord(st, a[0]) || m.flag(st, "merged") {
		x.Obl(rBpeTile, m.name+"|add", pos, false, "an unknown symbol is added, or to something else than the word")
		return one(st, TupleV{})
	}
	q, u, jf := st.G("q"), st.G("u"), m.flag(st, "jf")
	x.ends(st, b)
	P := func(k Lin) Lin { return x.App(st, b.posFam(), k) }
	if jf {
		if c, ok := x.Find(st, "CID", q.AddK(-1)); ok && x.ProveEQ(st, id.L.Sub(c)) {
			gap := x.ProveEQ(st, u.Sub(q).AddK(1))
			okL := x.ProveEQ(st, n.L.Sub(P(q)).Add(P(q.AddK(-1))))
			if st.unreachable() {
				return nil
			}
			if m.hasUnk {
				x.Obl(rBpeUnk, m.name+"|all", pos, gap, "characters before one that is found have no symbol")
			}
			m.gap(st, gap, pos)
			x.Obl(rBpeTile, m.name+"|found", pos, okL, "the symbol of rune %s stands for %s bytes", st.P.Reduce(q.AddK(-1)), st.P.Reduce(n.L))
			st.SetG("u", q)
			st.SetG("pu", P(q))
			st.SetGV("jf", OpaqueV{Tag: "no"})
			return one(st, TupleV{})
		}
	}
	if !m.hasUnk || !x.ProveEQ(st, id.L.Sub(m.unkID)) {
		if !st.unreachable() {
			x.Obl(rBpeUnk, m.name+"|symbol", pos, false, "the symbol added is neither the unknown token nor that of the character just found")
		}
		return one(st, TupleV{})
	}
	end := q
	if jf {
		end = q.AddK(-1)
	}
	var to Lin
	var ok bool
	if m.fuse {
		to = end
		ok = jf || x.ProveEQ(st, q.Sub(b.R))
	} else {
		to = u.AddK(1)
		ok = true
	}
	ok = ok && x.ProveGE(st, end.Sub(u).AddK(-1))
	okL := ok && x.ProveEQ(st, n.L.Sub(P(to)).Add(P(u)))
	if st.unreachable() {
		return nil
	}
	x.Obl(rBpeUnk, m.name+"|run", pos, ok, "an unknown token is added where the characters %s to %s are to become one", st.P.Reduce(u), st.P.Reduce(to))
	x.Obl(rBpeTile, m.name+"|unknown", pos, okL, "the unknown token for the runes %s to %s stands for %s bytes", st.P.Reduce(u), st.P.Reduce(to), st.P.Reduce(n.L))
	if m.fuse {
		x.Obl(rBpeUnk, m.name+"|bytes", pos, okL, "the unknown token does not stand for the whole run of unknown characters")
	} else {
		x.Obl(rBpeUnk, m.name+"|bytes", pos, okL, "the unknown token does not stand for one character")
	}
	st.SetG("u", to)
	st.SetG("pu", P(to))
	return one(st, TupleV{})
}

func (m *bpe) gap(st *State, ok bool, pos string) {
	if m.hasUnk {
		m.x.Obl(rBpeTile, m.name+"|all", pos, ok, "characters have no symbol")
	} else {
		m.x.Obl(rBpeTile, "no unknown token|dropped", pos, ok, "characters out of vocabulary have no symbol: the offsets behind them are too low, and do not reach the end of the text")
	}
}

// mergeAll is Word.MergeAll.
func (m *bpe) mergeAll(st *State, a []Val, syms ObjID, pos string) []Outcome {
	x, b := m.x, m.b
	mv, isM := a[1].(OpaqueV)
	f, isF := a[2].(FloatV)
	ok := m.isWord(st, a[0]) && isM && mv.Tag == "merges" && isF && f.Key == "dropout" && !m.flag(st, "merged")
	x.Obl(rBpeTile, m.name+"|merge", pos, ok, "the merges of something else, with another table, or with another dropout")
	x.Obl(rOption, m.name+"|merge", pos, isM && mv.Tag == "merges" && isF && f.Key == "dropout", "merges with another table, or with another dropout")
	q, u := st.G("q"), st.G("u")
	all := x.ProveEQ(st, q.Sub(b.R))
	ok = all && x.ProveEQ(st, u.Sub(b.R))
	if st.unreachable() {
		return nil
	}
	x.Obl(rDecor, m.name+"|all characters", pos, all, "only the runes up to %s were looked up", st.P.Reduce(q))
	if m.hasUnk {
		x.Obl(rBpeUnk, m.name+"|all", pos, ok, "the runes from %s on have no symbol", st.P.Reduce(u))
	}
	m.gap(st, ok && !m.flag(st, "jf"), pos)
	st.SetGV("merged", OpaqueV{Tag: "yes"})
	var out []Outcome
	for _, s := range x.store(st, a[0], SliceV{syms, K(0), m.nsym}, 0) {
		out = append(out, Outcome{St: s, Ret: TupleV{}})
	}
	return out
}

func (m *bpe) outcome(o Outcome, pos string) {
	x, b := m.x, m.b
	t, ok := o.Ret.(TupleV)
	if !ok || len(t) != 2 {
		x.Obl(rBpeTile, m.name+"|result", pos, false, "unknown result")
		return
	}
	x.ends(o.St, b)
	st := o.St
	e := isErr(t[1])
	in := 1
	if m.hasUnk {
		in = x.Decide(st, x.predicate(st, "unknown in vocabulary", K(0)))
	}
	merged := m.flag(st, "merged")
	if e > 0 {
		x.Obl(rBpeUnk, m.name+"|error", pos, in < 0 || st.HasG("noterm"), "an error is returned although every lookup succeeded")
		return
	}
	empty := x.ProveEQ(st, b.N)
	if st.unreachable() {
		return
	}
	if !empty {
		x.Obl(rBpeUnk, m.name+"|no error", pos, e < 0 && in > 0, "no error is returned although the unknown token may be out of vocabulary")
		x.Obl(rAgree, m.name+"|no error", pos, e < 0 && !st.HasG("noterm"), "no error is returned although a symbol has no term")
		x.Obl(rBpeTile, m.name+"|merged", pos, merged, "tokens are returned without merges")
	}
	var n, r0, r1 Lin
	switch s := t[0].(type) {
	case NilV:
		n, r0, r1 = K(0), K(0), K(0)
	case SliceV:
		if s.Obj == 0 || st.P.Reduce(s.Len).IsK(0) {
			n, r0, r1 = K(0), K(0), K(0)
			break
		}
		c := x.ChainOf(st, s, m.tt.T)
		if c == nil {
			x.Obl(rBpeTile, m.name+"|known", pos, false, "the tokens returned are not known")
			return
		}
		n, r0, r1 = c.N, c.R[0].(IntV).L, c.R[1].(IntV).L
	default:
		x.Obl(rBpeTile, m.name+"|known", pos, false, "the tokens returned are not known")
		return
	}
	count := m.nsym
	if empty && !merged {
		count = K(0)
	}
	okN := x.ProveEQ(st, n.Sub(count))
	ok0, ok1 := okN && x.ProveEQ(st, r0.Sub(count)), okN && x.ProveEQ(st, r1.Sub(count))
	if st.unreachable() {
		return
	}
	x.Obl(rAgree, m.name+"|tokens", pos, ok0, "not every token has the id of its symbol and the term of that id")
	x.Obl(rBpeTile, m.name+"|offsets", pos, ok1, "not every token has the offsets of its symbol")
}
