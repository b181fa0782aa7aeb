package ai

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// Encodings and byte splits of arbitrary pre-tokenized strings.
//
// The tokens of all splits are numbered through: those of split i are
// TB(i)..TB(i+1). Token t has the id tok.id(t), the offsets tok.start(t) and
// tok.end(t), and the value #t. Converting its range to the original
// referential of its split gives co.s(t) and co.e(t), or fails.

type encoding struct {
	x          *Interp
	p          *PTS
	wordIndex  Lin
	typeID     Lin
	many       Lin
	ET         types.Type // EncodableToken
	eid, etok  int
	eoff, eidx int
	etype      int
}

func (x *Interp) tokenFams(st *State, p *PTS) Lin {
	many := x.FreshNat(st, "tokens")
	x.Decl(&Fam{Name: "TB", Lo: I64(0), N: &p.N, V0: L(K(0)), VN: &many, Keep: true})
	x.Decl(&Fam{Name: "word"})
	for _, f := range []string{"id", "start", "end"} {
		x.Decl(&Fam{Name: "tok." + f})
	}
	for _, f := range []string{"co.s", "co.e", "off.s", "off.e"} {
		x.Decl(&Fam{Name: f})
	}
	src := &Source{Name: "tokens", N: many, Elem: func(x *Interp, st *State, t Lin) []ElemOut {
		f := make([]Val, 3)
		f[p.tid] = IntV{L: x.App(st, "tok.id", t)}
		f[p.tv] = StrV{[]Piece{{Kind: pTag, Lit: "token", Lo: t, Hi: x.FreshNat(st, "len")}}}
		f[p.tof] = p.mkOffsets(x.App(st, "tok.start", t), x.App(st, "tok.end", t))
		return []ElemOut{{st, StructV{f}}}
	}}
	obj := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: many}}}, Elem: p.TT, Name: "tokens", Shared: true})
	x.Roots = append(x.Roots, obj)
	x.tagLoads["tokptr"] = func(x *Interp, st *State, o OpaqueV) PtrV {
		i := o.Idx[0]
		a, b := x.App(st, "TB", i), x.App(st, "TB", i.AddK(1))
		return PtrV{Obj: x.NewObj(st, &Obj{V: SliceV{obj, a, b.Sub(a)}, Elem: types.NewSlice(p.TT), Name: "tokptr", Shared: true})}
	}
	return many
}

// tokenAt finds the token with the offsets s and e.
func (x *Interp) tokenAt(st *State, s, e Lin) (Lin, bool) {
	for _, m := range st.memo["tok.start"] {
		if x.ProveEQ(st, m.v.Sub(s)) && x.ProveEQ(st, x.App(st, "tok.end", m.idx).Sub(e)) {
			return m.idx, true
		}
	}
	return Lin{}, false
}

// inWord reports whether token t is one of split i.
func (x *Interp) inWord(st *State, t, i Lin) bool {
	return x.ProveGE(st, t.Sub(x.App(st, "TB", i))) && x.ProveGE(st, x.App(st, "TB", i.AddK(1)).Sub(t).AddK(-1))
}

func (x *Interp) stubTokenRange(p *PTS, key, pos string) {
	rt := x.Type(nsPkg, "OriginalRange")
	x.Stubs[nsMethod+"CoerceRangeToOriginal"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		ns, isNS := a[0].(OpaqueV)
		iv, isI := a[1].(IfaceV)
		var s, e Lin
		ok := isNS && ns.Tag == "ns" && isI && types.Identical(iv.T, x.Type(nsPkg, "NormalizedRange"))
		if ok {
			f, isS := iv.V.(StructV)
			ok = isS && len(f.F) == 2
			if ok {
				a, ok1 := f.F[FieldIdx(iv.T, "start")].(IntV)
				b, ok2 := f.F[FieldIdx(iv.T, "end")].(IntV)
				s, e, ok = a.L, b.L, ok1 && ok2
			}
		}
		var t Lin
		if ok {
			t, ok = x.tokenAt(st, s, e)
		}
		if !ok || !x.inWord(st, t, ns.Idx[0]) {
			if st.unreachable() {
				return nil
			}
			x.Obl(rOffset, key+"|range converted", pos, false, "the range that is converted is not that of a token of the split, in the normalized referential")
			return one(st, x.Havoc(st, resultType(c.Signature()), "range"))
		}
		mk := func(s, e Lin) Val {
			f := make([]Val, 2)
			f[FieldIdx(rt, "start")], f[FieldIdx(rt, "end")] = IntV{L: s}, IntV{L: e}
			return StructV{f}
		}
		var out []Outcome
		yes, no := x.ForkBool(st, x.predicate(st, "co.ok", t))
		for _, s := range yes {
			out = append(out, Outcome{St: s, Ret: TupleV{mk(x.App(s, "co.s", t), x.App(s, "co.e", t)), BoolV{FBool(true)}}})
		}
		for _, s := range no {
			out = append(out, Outcome{St: s, Ret: TupleV{mk(K(0), K(0)), BoolV{FBool(false)}}})
		}
		return out
	}
}

// CheckC11 decides what an encoding holds; CheckC12 what its offsets are.
func CheckC11(p *core.Program, r *core.Report) { checkEncoding(p, r, false) }
func CheckC12(p *core.Program, r *core.Report) { checkEncoding(p, r, true) }

func checkEncoding(p *core.Program, r *core.Report, offsets bool) {
	x := newRun(p, r)
	x.Tidy = true
	x.NoPanics, x.RulePanic = true, rNoPanic
	base := x.InitGlobals(NewState(), ptsPkg)
	c := os.Getenv("GTCASE")
	if offsets {
		x.Only = map[string]bool{rOffset: true, rByteSpl: true}
		r.Min[rOffset], r.Min[rByteSpl] = 2, 4
	} else {
		x.Skip = map[string]bool{rOffset: true}
		r.Min[rRow], r.Min[rUntok] = 8, 2
	}
	if c == "" || c == "IntoEncoding" {
		if !offsets {
			x.newEncoding(base.Clone())
		}
		x.Specs = nil
		x.intoEncoding(base.Clone())
	}
	if offsets && c != "IntoEncoding" {
		x.byteSplits(base.Clone())
	}
	x.Close("encodings")
	if offsets && c == "" {
		// where splits are in the outermost text, and what comes from where
		y := nsRun(p, r, rPlace, rConv, rOrig)
		base := y.InitGlobals(NewState(), nsPkg)
		y.newStrings(base)
		y.CheckConvert(base)
		y.CheckAccessors(base)
		y.Close("normalized strings")
		r.Min[rPlace], r.Min[rConv] = 4, 4
	}
}

// wordOK: v is the word index of token n.
func (e *encoding) wordOK(st *State, n, v Lin) bool {
	x := e.x
	if w, ok := x.Find(st, "word", n); ok && x.ProveEQ(st, v.Sub(w)) {
		return true
	}
	for i, f := range []*Formula{FGE(e.wordIndex), FNot(FGE(e.wordIndex))} {
		for _, s := range x.Assume(st.Clone(), f) {
			if s.unreachable() || x.Saturated(s) {
				continue
			}
			if i == 0 {
				if !x.ProveEQ(s, v.Sub(e.wordIndex)) {
					return false
				}
			} else if !x.inWord(s, n, v) {
				return false
			}
		}
	}
	return true
}

// offOK: s and t are the offsets of token n in the outermost text.
func (e *encoding) offOK(st *State, n, a, b Lin) bool {
	x := e.x
	if v, ok := x.Find(st, "off.s", n); ok && x.ProveEQ(st, a.Sub(v)) {
		v, ok := x.Find(st, "off.e", n)
		return ok && x.ProveEQ(st, b.Sub(v))
	}
	for i := 0; i < 2; i++ {
		s := st.Clone()
		f := x.predicate(s, "co.ok", n)
		if i == 1 {
			f = FNot(f)
		}
		for _, s := range x.Assume(s, f) {
			if s.unreachable() || x.Saturated(s) {
				continue
			}
			ok := false
			if i == 1 {
				ok = x.ProveEQ(s, a.Sub(x.App(s, "tok.start", n))) && x.ProveEQ(s, b.Sub(x.App(s, "tok.end", n)))
			} else {
				for _, m := range append([]memoEnt(nil), s.memo["ns.ostart"]...) {
					if x.ProveEQ(s, a.Sub(m.v).Sub(x.App(s, "co.s", n))) && x.ProveEQ(s, b.Sub(m.v).Sub(x.App(s, "co.e", n))) && x.inWord(s, n, m.idx) {
						ok = true
						break
					}
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

func (e *encoding) textOK(st *State, n Lin, v Val) bool {
	s, ok := v.(StrV)
	return ok && len(s.P) == 1 && s.P[0].Kind == pTag && s.P[0].Lit == "token" && e.x.ProveEQ(st, s.P[0].Lo.Sub(n))
}

// newEncoding checks that an encoding made from columns has these columns.
func (x *Interp) newEncoding(st *State) {
	fn := x.Func("encodings", "NewEncoding")
	et := x.Type("encodings", "Encoding")
	pos := x.Prog.Pos(fn.Pos())
	names := []string{"IDs", "TypeIDs", "Tokens", "Words", "Offsets", "SpecialTokensMask", "AttentionMask", "Overflowing"}
	x.Obl(rRow, "NewEncoding|columns", pos, len(names) == len(fn.Params), "there are %d columns", len(fn.Params))
	if len(names) != len(fn.Params) {
		return
	}
	var args []Val
	for i, n := range names {
		t, ok := fn.Params[i].Type().Underlying().(*types.Slice)
		x.Obl(rRow, "NewEncoding|"+n, pos, ok, "a column is not a list")
		if !ok {
			return
		}
		N := x.FreshNat(st, n)
		k := fmt.Sprintf("column %d", i)
		src := &Source{Name: k, N: N, Elem: func(x *Interp, st *State, i Lin) []ElemOut { return []ElemOut{{st, OpaqueV{k, []Lin{i}}}} }}
		ob := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: N}}}, Elem: t.Elem(), Name: k, Shared: true})
		args = append(args, SliceV{ob, K(0), N})
	}
	for _, o := range x.Run(st, fn, args...) {
		if o.Panic || o.St.unreachable() {
			continue
		}
		var f StructV
		ptr, ok := o.Ret.(PtrV)
		if ok && len(ptr.Path) == 0 && o.St.heap[ptr.Obj] != nil {
			f, ok = o.St.heap[ptr.Obj].V.(StructV)
		}
		x.Obl(rRow, "NewEncoding|known", pos, ok, "the encoding is unknown")
		for i, n := range names {
			if !ok {
				break
			}
			a, b := f.F[FieldIdx(et, n)], args[i].(SliceV)
			v, same := a.(SliceV)
			same = same && v.Obj == b.Obj && x.ProveEQ(o.St, v.Off) && x.ProveEQ(o.St, v.Len.Sub(b.Len))
			x.Obl(rRow, "NewEncoding|"+n+" kept", pos, same, "the column %s is not the one given", n)
		}
	}
}

func (x *Interp) intoEncoding(st *State) {
	p := x.newPTS(st)
	fn := x.Method(ptsPkg, "PreTokenizedString", "IntoEncoding")
	pos := x.Prog.Pos(fn.Pos())
	e := &encoding{x: x, p: p}
	e.many = x.tokenFams(st, p)
	e.wordIndex, e.typeID = x.Fresh("wordIndex"), x.Fresh("typeID")
	st.SetG("@tokens", e.many)
	st.SetG("wordIndex", e.wordIndex)
	st.SetG("typeID", e.typeID)
	x.stubTokenRange(p, "IntoEncoding", pos)
	num := func(v Val) (Lin, bool) { i, ok := v.(IntV); return i.L, ok }
	off := func(st *State, n Lin, v Val) bool {
		a, b, ok := p.offsets(v)
		return ok && e.offOK(st, n, a, b)
	}
	if o := x.Pkg("encodings").Type("EncodableToken"); o != nil {
		et := o.Type()
		e.eid, e.etok, e.eoff = FieldIdx(et, "ID"), FieldIdx(et, "Token"), FieldIdx(et, "Offsets")
		e.eidx, e.etype = FieldIdx(et, "WordIndex"), FieldIdx(et, "TypeID")
		x.Spec(et, &ChainSpec{
			Name: "encodable tokens",
			All:  true,
			Init: func(x *Interp, st *State) []Val { return nil },
			Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
				f, ok := v.(StructV)
				x.Obl(rRow, "token|known", pos, ok, "an unknown token is added")
				if !ok {
					return nil
				}
				id, ok := num(f.F[e.eid])
				ok = ok && x.ProveEQ(st, id.Sub(x.App(st, "tok.id", n)))
				ty, ok2 := num(f.F[e.etype])
				ok2 = ok2 && x.ProveEQ(st, ty.Sub(e.typeID))
				w, ok3 := num(f.F[e.eidx])
				ok3 = ok3 && e.wordOK(st, n, w)
				ok4 := e.textOK(st, n, f.F[e.etok])
				ok5 := off(st, n, f.F[e.eoff])
				if st.unreachable() {
					return nil
				}
				i := st.P.Reduce(n)
				x.Obl(rRow, "token|id", pos, ok, "element %s does not have the id of token %s", i, i)
				x.Obl(rRow, "token|type", pos, ok2, "element %s does not have the type id given", i)
				x.Obl(rRow, "token|word", pos, ok3, "element %s does not have the word index given or that of its split", i)
				x.Obl(rRow, "token|value", pos, ok4, "element %s does not have the value of token %s", i, i)
				x.Obl(rOffset, "token|offsets", pos, ok5, "element %s has the offsets %s", i, showVal(st, f.F[e.eoff]))
				return nil
			},
			Elem: func(x *Interp, st *State, r []Val, n Lin, j Lin) []ElemOut {
				f := make([]Val, 5)
				f[e.eid], f[e.etype] = IntV{L: x.App(st, "tok.id", j)}, IntV{L: e.typeID}
				f[e.eidx] = IntV{L: x.App(st, "word", j)}
				f[e.etok] = StrV{[]Piece{{Kind: pTag, Lit: "token", Lo: j, Hi: x.FreshNat(st, "len")}}}
				f[e.eoff] = p.mkOffsets(x.App(st, "off.s", j), x.App(st, "off.e", j))
				return []ElemOut{{st, StructV{f}}}
			},
		})
	}
	// a column of numbers counts for each meaning how many elements have it
	means := []struct {
		name string
		ok   func(st *State, n, v Lin) bool
	}{
		{"ids", func(st *State, n, v Lin) bool { return x.ProveEQ(st, v.Sub(x.App(st, "tok.id", n))) }},
		{"type ids", func(st *State, n, v Lin) bool { return x.ProveEQ(st, v.Sub(e.typeID)) }},
		{"words", e.wordOK},
		{"zeros", func(st *State, n, v Lin) bool { return x.ProveEQ(st, v) }},
		{"ones", func(st *State, n, v Lin) bool { return x.ProveEQ(st, v.AddK(-1)) }},
	}
	x.Spec(types.Typ[types.Int], &ChainSpec{
		Name: "numbers",
		All:  true,
		Init: func(x *Interp, st *State) []Val {
			return []Val{IntV{L: K(0)}, IntV{L: K(0)}, IntV{L: K(0)}, IntV{L: K(0)}, IntV{L: K(0)}}
		},
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			out := append([]Val(nil), r...)
			l, ok := num(v)
			for i, m := range means {
				if ok && x.ProveEQ(st, n.Sub(r[i].(IntV).L)) && m.ok(st, n, l) {
					out[i] = IntV{L: n.AddK(1)}
				} else {
					out[i] = IntV{L: K(-1)}
				}
			}
			return out
		},
		PushSrc: func(x *Interp, st *State, r []Val, n Lin, s Seg) ([]Val, bool) {
			if z, ok := s.Zero.(IntV); s.Kind != sFill || !ok || !st.P.Reduce(z.L).IsK(0) {
				return nil, false
			}
			out := make([]Val, len(r))
			for i := range out {
				out[i] = IntV{L: K(-1)}
			}
			if x.ProveEQ(st, n.Sub(r[3].(IntV).L)) {
				out[3] = IntV{L: n.Add(s.Len())}
			}
			return out, true
		},
	})
	x.Spec(types.Typ[types.String], &ChainSpec{
		Name: "values",
		All:  true,
		Init: func(x *Interp, st *State) []Val { return nil },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			ok := e.textOK(st, n, v)
			if !st.unreachable() {
				x.Obl(rRow, "column|value", pos, ok, "element %s is not the value of token %s", st.P.Reduce(n), st.P.Reduce(n))
			}
			return nil
		},
	})
	x.Spec(p.OT, &ChainSpec{
		Name: "offsets",
		All:  true,
		Init: func(x *Interp, st *State) []Val { return nil },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			ok := off(st, n, v)
			if !st.unreachable() {
				x.Obl(rOffset, "column|offsets", pos, ok, "element %s is %s", st.P.Reduce(n), showVal(st, v))
			}
			return nil
		},
	})
	x.App(st, "TB", K(0))
	x.App(st, "TB", p.N)
	x.App(st, "T", p.N)
	st.Ambient()
	good, fails := 0, 0
	et := x.Type("encodings", "Encoding")
	var outs []Outcome
	for _, f := range []*Formula{FGE(e.wordIndex), FNot(FGE(e.wordIndex))} {
		for _, s := range x.Assume(st.Clone(), f) {
			outs = append(outs, x.Run(s, fn, p.Ptr, IntV{L: e.wordIndex}, IntV{L: e.typeID})...)
		}
	}
	for _, o := range outs {
		s := o.St
		if o.Panic || s.unreachable() {
			continue
		}
		ret, ok := o.Ret.(TupleV)
		if !ok || len(ret) != 2 {
			x.Obl(rUntok, "result", pos, false, "the result is unknown")
			continue
		}
		N, T := s.G("@splits"), x.App(s, "T", s.G("@splits"))
		if _, isNil := ret[1].(NilV); !isNil {
			_, isErr := ret[1].(OpaqueV)
			ok := isErr && x.ProveGE(s, N.Sub(T).AddK(-1))
			if !s.unreachable() {
				fails++
				x.Obl(rUntok, "error", pos, ok, "an error is returned although all splits may have tokens")
			}
			continue
		}
		ok = x.ProveEQ(s, N.Sub(T))
		if s.unreachable() || x.Saturated(s) {
			continue
		}
		good++
		x.Obl(rUntok, "success", pos, ok, "no error is returned although a split may have no tokens")
		var f StructV
		ptr, ok := ret[0].(PtrV)
		if ok && len(ptr.Path) == 0 {
			if ob := s.heap[ptr.Obj]; ob != nil && ob.Bad == "" {
				f, ok = ob.V.(StructV)
			} else {
				ok = false
			}
		}
		x.Obl(rRow, "encoding known", pos, ok, "the encoding is unknown")
		if !ok {
			continue
		}
		M := s.G("@tokens")
		for _, c := range []struct {
			name string
			elem types.Type
			mean int
		}{{"IDs", types.Typ[types.Int], 0}, {"TypeIDs", types.Typ[types.Int], 1}, {"Words", types.Typ[types.Int], 2}, {"SpecialTokensMask", types.Typ[types.Int], 3}, {"AttentionMask", types.Typ[types.Int], 4},
			{"Tokens", types.Typ[types.String], -1}, {"Offsets", p.OT, -1}} {
			rule := rRow
			if c.name == "Offsets" && x.Only != nil {
				rule = rOffset
			}
			v := f.F[FieldIdx(et, c.name)]
			sl, ok := v.(SliceV)
			if _, isNil := v.(NilV); isNil {
				sl, ok = SliceV{}, true
			}
			if !ok {
				x.Obl(rule, "column "+c.name, pos, false, "the column %s is unknown", c.name)
				continue
			}
			if x.ProveEQ(s, sl.Len) {
				// empty
				z := x.ProveEQ(s, M) || x.ProveEQ(s, N)
				if !s.unreachable() {
					x.Obl(rule, "column "+c.name+"|all", pos, z, "the column %s is empty, but there may be tokens", c.name)
				}
				continue
			}
			ch := x.ChainOf(s, sl, c.elem)
			ok = ch != nil && x.ProveEQ(s, ch.N.Sub(M))
			if !s.unreachable() {
				x.Obl(rule, "column "+c.name+"|all", pos, ok, "the column %s does not have one entry for each token", c.name)
			}
			if ok && c.mean >= 0 {
				x.CheckEQ(s, rule, "column "+c.name+"|values", pos, ch.R[c.mean].(IntV).L.Sub(M), "the column %s does not hold the %s", c.name, means[c.mean].name)
			}
		}
		// nothing overflows, and the encoding knows its length
		switch v := f.F[FieldIdx(et, "Overflowing")].(type) {
		case NilV:
		case SliceV:
			ok := x.ProveEQ(s, v.Len)
			x.Obl(rRow, "overflowing", pos, ok, "there may be overflowing encodings")
		default:
			x.Obl(rRow, "overflowing", pos, false, "the overflowing encodings are unknown")
		}
		if x.Only != nil {
			continue
		}
		zero := FEQ(M)
		if x.ProveEQ(s, N) {
			zero = FBool(true)
		}
		for _, o := range x.Run(s.Clone(), x.Method("encodings", "Encoding", "Len"), ptr) {
			n, ok := num(o.Ret)
			ok = ok && (x.ProveEQ(o.St, n.Sub(M)) || x.ProveEQ(o.St, n) && x.ProveEQ(o.St, N))
			if !o.Panic && !o.St.unreachable() {
				x.Obl(rRow, "length", pos, ok, "the length of the encoding may not be the number of tokens")
			}
		}
		for _, o := range x.Run(s.Clone(), x.Method("encodings", "Encoding", "IsEmpty"), ptr) {
			if o.Panic || o.St.unreachable() {
				continue
			}
			yes, no := x.ForkBool(o.St, x.boolOf(o.Ret))
			for _, q := range yes {
				ok := x.Prove(q, zero)
				if !q.unreachable() {
					x.Obl(rRow, "empty", pos, ok, "an encoding may be said to be empty although it has tokens")
				}
			}
			for _, q := range no {
				ok := x.Prove(q, FNot(zero))
				if !q.unreachable() {
					x.Obl(rRow, "empty", pos, ok, "an encoding may be said not to be empty although it has no tokens")
				}
			}
		}
	}
	x.Obl(rUntok, "succeeds", pos, good > 0, "no encoding is ever made")
	x.Obl(rUntok, "fails", pos, fails > 0, "it never fails")
}

// byteSplits checks what is reported about all splits.
func (x *Interp) byteSplits(base *State) {
	for _, c := range []struct {
		name, typ string
		orig      bool
	}{{"GetOriginalByteSplits", "OriginalByteSplit", true}, {"GetNormalizedByteSplits", "NormalizedByteSplit", false}} {
		c := c
		x.Specs = nil
		st := base.Clone()
		p := x.newPTS(st)
		x.cumulative(p)
		fn := x.Method(ptsPkg, "PreTokenizedString", c.name)
		pos := x.Prog.Pos(fn.Pos())
		bt := x.Type(ptsPkg, c.typ)
		x.Spec(bt, &ChainSpec{
			Name:  c.name,
			All:   true,
			Index: true,
			Init:  func(x *Interp, st *State) []Val { return []Val{IntV{L: K(0)}} },
			Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
				f, ok := v.(StructV)
				x.Obl(rByteSpl, c.name+"|known", pos, ok, "an unknown element is added")
				if !ok {
					return []Val{IntV{L: n.AddK(1)}}
				}
				t, ok := f.F[FieldIdx(bt, "String")].(StrV)
				ok = ok && len(t.P) == 1 && t.P[0].Kind == pTag && t.P[0].Lit == "ns" && x.ProveEQ(st, t.P[0].Lo.Sub(n))
				a, b, ok2 := p.offsets(f.F[FieldIdx(bt, "Offsets")])
				want := "ns.ostart(n)..ns.oend(n)"
				if c.orig {
					ok2 = ok2 && x.ProveEQ(st, a.Sub(x.App(st, "ns.ostart", n))) && x.ProveEQ(st, b.Sub(x.App(st, "ns.oend", n)))
				} else {
					want = "CL(n)..CL(n+1)"
					lo, hi := x.App(st, "CL", n), x.App(st, "CL", n.AddK(1))
					ok2 = ok2 && x.ProveEQ(st, a.Sub(lo)) && x.ProveEQ(st, b.Sub(hi))
				}
				ok3 := true
				for i := 0; i < 2 && ok3; i++ {
					s := st.Clone()
					g := x.predicate(s, "tokenized", n)
					if i == 1 {
						g = FNot(g)
					}
					for _, s := range x.Assume(s, g) {
						x.relink(s)
						if s.unreachable() || x.Saturated(s) {
							continue
						}
						switch q := f.F[FieldIdx(bt, "Tokens")].(type) {
						case OpaqueV:
							ok3 = ok3 && i == 0 && q.Tag == "tokptr" && x.ProveEQ(s, q.Idx[0].Sub(n))
						case NilV:
							ok3 = ok3 && i == 1
						default:
							ok3 = false
						}
					}
				}
				if !st.unreachable() {
					i := st.P.Reduce(n)
					x.Obl(rByteSpl, c.name+"|text", pos, ok, "element %s does not have the text of split %s", i, i)
					x.Obl(rByteSpl, c.name+"|offsets", pos, ok2, "element %s has the offsets %s, not %s", i, showVal(st, f.F[FieldIdx(bt, "Offsets")]), want)
					x.Obl(rByteSpl, c.name+"|tokens", pos, ok3, "element %s does not have the tokens of split %s", i, i)
				}
				return []Val{IntV{L: n.AddK(1)}}
			},
		})
		x.App(st, "T", K(0))
		x.App(st, "CL", K(0))
		st.Ambient()
		n := 0
		for _, o := range x.Run(st, fn, p.Ptr) {
			s := o.St
			if o.Panic || s.unreachable() {
				continue
			}
			n++
			sl, ok := o.Ret.(SliceV)
			ok = ok && x.ProveEQ(s, sl.Len.Sub(s.G("@splits")))
			if ok && !x.ProveEQ(s, sl.Len) {
				ok = x.ChainOf(s, sl, bt) != nil
			}
			if !s.unreachable() {
				x.Obl(rByteSpl, c.name+"|all", pos, ok, "the result does not have one element for each split")
			}
			x.sameSplits(s, p, rByteSpl, c.name, pos)
		}
		x.Obl(rByteSpl, c.name+"|returns", pos, n > 0, "it never returns")
	}
}

// cumulative declares the length of the text of the first splits.
func (x *Interp) cumulative(p *PTS) {
	link := func(x *Interp, st *State, i Lin) {
		a, ok1 := x.at(st, "CL", i)
		b, ok2 := x.at(st, "CL", i.AddK(1))
		l, ok3 := x.at(st, "ns.len", i)
		if ok1 && ok2 && ok3 {
			st.P.AddEq(b.Sub(a).Sub(l))
		}
	}
	x.Decl(&Fam{Name: "CL", Lo: I64(0), V0: L(K(0)), Keep: true, Link: func(x *Interp, st *State, i, v Lin) {
		link(x, st, i)
		link(x, st, i.AddK(-1))
	}})
	x.Decl(&Fam{Name: "ns.len", OnNew: func(x *Interp, st *State, i, v Lin) { st.P.AddGE(v) }, Link: func(x *Interp, st *State, i, v Lin) { link(x, st, i) }})
}
