package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// WordPiece.
//
// The longest term that starts at rune k of the text ends at LE(k) and has the
// id LID(k). The ghosts sk and ck say which lookup comes next: the candidate
// of the runes sk to ck.

const (
	rLookup  = "candidates are tried longest first, decorated as configured"
	rLongest = "tokens are the longest matches, one behind the other"
	rUnknown = "a text that cannot be tokenized becomes the unknown token or an error"
	rAgree   = "the id and the value of a token belong together"
	rDecor   = "each character is looked up with its decoration"
	wpPkg    = "models/wordpiecemodel"
	vocPkg   = "vocabulary"
)

const vocMethod = "(*" + core.ModPath + "/vocabulary.Vocabulary)."

func tagStr(name string, n Lin) StrV { return StrV{[]Piece{{Kind: pTag, Lit: name, Lo: K(0), Hi: n}}} }

// splitTags separates tagged pieces at the ends of s from the middle.
func (x *Interp) splitTags(st *State, s StrV) (pre []string, mid StrV, post []string) {
	p := x.concat(st, s).P
	for len(p) > 0 && p[0].Kind == pTag {
		pre = append(pre, p[0].Lit)
		p = p[1:]
	}
	for len(p) > 0 && p[len(p)-1].Kind == pTag {
		post = append([]string{p[len(p)-1].Lit}, post...)
		p = p[:len(p)-1]
	}
	return pre, StrV{p}, post
}

// tokenT gives access to tokens.
type tokenT struct {
	T, OT                  types.Type
	id, value, off, st, en int
}

func (x *Interp) tokenType() tokenT {
	t := tokenT{T: x.Type("models", "Token"), OT: x.Type("strutils", "ByteOffsets")}
	t.id, t.value, t.off = FieldIdx(t.T, "ID"), FieldIdx(t.T, "Value"), FieldIdx(t.T, "Offsets")
	t.st, t.en = FieldIdx(t.OT, "Start"), FieldIdx(t.OT, "End")
	return t
}

func (t tokenT) parts(v Val) (id Lin, value StrV, s, e Lin, ok bool) {
	f, ok := v.(StructV)
	if !ok {
		return
	}
	i, ok1 := f.F[t.id].(IntV)
	value, ok2 := f.F[t.value].(StrV)
	o, ok3 := f.F[t.off].(StructV)
	if !ok1 || !ok2 || !ok3 {
		return id, value, s, e, false
	}
	a, ok1 := o.F[t.st].(IntV)
	b, ok2 := o.F[t.en].(IntV)
	return i.L, value, a.L, b.L, ok1 && ok2
}

// isTag reports whether s is the text of that name.
func isTag(s StrV, name string) bool {
	return len(s.P) == 1 && s.P[0].Kind == pTag && s.P[0].Lit == name
}

// isErr: 1 an error, -1 none, 0 unknown.
func isErr(v Val) int {
	switch v.(type) {
	case NilV:
		return -1
	case nil:
		return 0
	}
	return 1
}

type wordPiece struct {
	x                 *Interp
	b                 *StrBase
	tt                tokenT
	max               Lin
	unkLen, prefixLen Lin
	unkID             Lin
}

// CheckC16 decides what the tokens of WordPiece are.
func CheckC16(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	x.Skip = map[string]bool{rAgree: true}
	x.wordPiece(x.InitGlobals(NewState(), wpPkg))
	x.Close("WordPiece")
	r.Min[rLookup], r.Min[rLongest], r.Min[rUnknown] = 1, 3, 2
}

func (x *Interp) wordPiece(st *State) {
	w := &wordPiece{x: x, b: x.NewBase(st, "text"), tt: x.tokenType()}
	w.max, w.unkID = x.Fresh("max"), x.Fresh("id of the unknown token")
	w.unkLen, w.prefixLen = x.FreshNat(st, "length of the unknown token"), x.FreshNat(st, "length of the prefix")
	b := w.b
	st.SetG("@max", w.max)
	st.SetG("@unk", w.unkID)
	st.SetG("@ul", w.unkLen)
	st.SetG("@pl", w.prefixLen)
	for _, f := range []string{"LE", "LID"} {
		x.Decl(&Fam{Name: f, Keep: true})
	}
	ctor := x.Func(wpPkg, "New")
	fn := x.Method(wpPkg, "WordPieceModel", "Tokenize")
	pos := x.Prog.Pos(fn.Pos())
	x.Stubs[vocMethod+"GetID"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		return w.getID(st, c, a, pos)
	}
	x.RulePanic, x.NoPanics = rNoPanic, true
	st.Ambient()
	var recv []Outcome
	for _, o := range x.Run(st, ctor, OpaqueV{Tag: "vocab"}, tagStr("unknown", w.unkLen), tagStr("prefix", w.prefixLen), IntV{L: w.max}) {
		if !o.Panic && !o.St.unreachable() {
			recv = append(recv, o)
		}
	}
	x.Obl(rUnknown, "New|returns", x.Prog.Pos(ctor.Pos()), len(recv) > 0, "the constructor never returns")
	x.Spec(w.tt.T, &ChainSpec{
		Name: "tokens",
		All:  true,
		Init: func(x *Interp, st *State) []Val { return []Val{IntV{L: K(0)}} },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			k := r[0].(IntV).L
			if k.IsK(-1) {
				return r
			}
			if n.IsK(0) && w.isUnknown(st, v) {
				return []Val{IntV{L: K(-2)}}
			}
			if k.IsK(-2) {
				return []Val{IntV{L: K(-1)}}
			}
			if e, ok := w.match(st, k, v); ok {
				return []Val{IntV{L: e}}
			}
			return []Val{IntV{L: K(-1)}}
		},
	})
	defer x.Spec(w.tt.T, nil)
	ret := 0
	for _, rc := range recv {
		s := rc.St
		s.SetG("sk", K(0))
		s.SetG("ck", b.R)
		for _, o := range x.Run(s, fn, rc.Ret, b.Whole()) {
			if o.Panic || o.St.unreachable() {
				continue
			}
			ret++
			w.outcome(o, pos)
		}
	}
	x.Obl(rLongest, "returns", pos, ret > 0, "it never returns")
}

// match: v is the token of the longest match at rune k; e is where it ends.
func (w *wordPiece) match(st *State, k Lin, v Val) (e Lin, ok bool) {
	x, b := w.x, w.b
	id, value, s, t, ok := w.tt.parts(v)
	if !ok {
		return e, false
	}
	e, ok = x.Find(st, "LE", k)
	if !ok {
		return e, false
	}
	lid, ok := x.Find(st, "LID", k)
	if !ok || !x.ProveEQ(st, id.Sub(lid)) {
		return e, false
	}
	lo, hi := x.App(st, b.posFam(), k), x.App(st, b.posFam(), e)
	if !x.ProveEQ(st, s.Sub(lo)) || !x.ProveEQ(st, t.Sub(hi)) || !w.decorated(st, value, lo, hi) {
		return e, false
	}
	return e, true
}

// decorated: s is the text lo to hi, behind the prefix unless it comes first.
func (w *wordPiece) decorated(st *State, s StrV, lo, hi Lin) bool {
	x := w.x
	pre, mid, post := x.splitTags(st, s)
	if len(post) != 0 || !x.isSub(st, mid, w.b, lo, hi) {
		return false
	}
	switch len(pre) {
	case 0:
		// an empty prefix is none
		for _, t := range x.Assume(st.Clone(), FGE(w.prefixLen.AddK(-1))) {
			if !t.unreachable() && !x.ProveEQ(t, lo) && !t.unreachable() {
				return false
			}
		}
		return true
	case 1:
		return pre[0] == "prefix" && x.ProveGE(st, lo.AddK(-1))
	}
	return false
}

func (w *wordPiece) getID(st *State, c *ssa.CallCommon, a []Val, pos string) []Outcome {
	x, b := w.x, w.b
	s, ok := a[1].(StrV)
	if v, isV := a[0].(OpaqueV); !ok || !isV || v.Tag != "vocab" {
		x.Obl(rLookup, "vocabulary", pos, false, "something else than the given vocabulary is asked")
		return one(st, x.Havoc(st, resultType(c.Signature()), "id"))
	}
	found := func(s *State, id Lin) Outcome { return Outcome{St: s, Ret: TupleV{IntV{L: id}, BConst(true)}} }
	missing := func(s *State) Outcome { return Outcome{St: s, Ret: TupleV{IntV{L: K(0)}, BConst(false)}} }
	var out []Outcome
	if isTag(s, "unknown") {
		yes, no := x.ForkBool(st, x.predicate(st, "unknown in vocabulary", K(0)))
		for _, s := range yes {
			out = append(out, found(s, w.unkID))
		}
		for _, s := range no {
			out = append(out, missing(s))
		}
		return out
	}
	sk, ck := st.G("sk"), st.G("ck")
	x.ends(st, b)
	lo, hi := x.App(st, b.posFam(), sk), x.App(st, b.posFam(), ck)
	left := x.ProveGE(st, hi.Sub(lo).AddK(-1))
	if left {
		st.P.AddGE(ck.Sub(sk).AddK(-1))
	}
	ok = left && w.decorated(st, s, lo, hi)
	if st.unreachable() {
		return nil
	}
	x.Obl(rLookup, "candidate", pos, ok, "the lookup of %s, where the runes %s to %s come next", showVal(st, s), st.P.Reduce(sk), st.P.Reduce(ck))
	if !ok {
		return one(st, x.Havoc(st, resultType(c.Signature()), "id"))
	}
	no := st.Clone()
	id := x.Fresh("id")
	x.Bind(st, "LE", sk, ck)
	x.Bind(st, "LID", sk, id)
	st.SetG("sk", ck)
	st.SetG("ck", b.R)
	out = append(out, found(st, id))
	no.SetG("ck", ck.AddK(-1))
	x.App(no, b.posFam(), ck.AddK(-1))
	return append(out, missing(no))
}

func (w *wordPiece) outcome(o Outcome, pos string) {
	x, b := w.x, w.b
	t, ok := o.Ret.(TupleV)
	if !ok || len(t) != 2 {
		x.Obl(rLongest, "result", pos, false, "unknown result")
		return
	}
	x.ends(o.St, b)
	long, rest := x.ForkBool(o.St, FGE(b.R.Sub(o.St.G("@max")).AddK(-1)))
	for _, s := range long {
		w.unknown(s, t, "too long", pos)
	}
	for _, s := range rest {
		sk, ck := s.G("sk"), s.G("ck")
		lo, hi := x.App(s, b.posFam(), sk), x.App(s, b.posFam(), ck)
		bad, good := x.ForkBool(s, FAnd(FGE(lo.Sub(hi)), FGE(b.N.Sub(lo).AddK(-1))))
		for _, s := range bad {
			w.unknown(s, t, "no match", pos)
		}
		for _, s := range good {
			if s.unreachable() {
				continue
			}
			e := isErr(t[1])
			x.Obl(rLongest, "no error", pos, e < 0, "an error is returned although the text can be tokenized")
			if e >= 0 {
				continue
			}
			n, k, ok := w.tokens(s, t[0])
			if s.unreachable() {
				continue
			}
			x.Obl(rLongest, "known", pos, ok, "the tokens returned are not known")
			if ok {
				ok = !k.IsK(-1) && x.ProveEQ(s, k.Sub(b.R))
				if s.unreachable() {
					continue
				}
				x.Obl(rLongest, "tile", pos, ok, "the %s tokens returned are not the longest matches one behind the other up to the end (%s of %s)", s.P.Reduce(n), s.P.Reduce(k), b.R)
				x.Obl(rAgree, "WordPiece|tokens", pos, ok, "the ids of the tokens are not those found for their values")
			}
		}
	}
}

func (w *wordPiece) tokens(st *State, v Val) (n, k Lin, ok bool) {
	switch s := v.(type) {
	case NilV:
		return K(0), K(0), true
	case SliceV:
		if s.Obj == 0 || st.P.Reduce(s.Len).IsK(0) {
			return K(0), K(0), true
		}
		if c := w.x.ChainOf(st, s, w.tt.T); c != nil {
			return c.N, c.R[0].(IntV).L, true
		}
	}
	return n, k, false
}

// unknown: the result is the unknown token alone, or an error.
func (w *wordPiece) unknown(st *State, t TupleV, what, pos string) {
	x := w.x
	if st.unreachable() {
		return
	}
	in := x.Decide(st, x.predicate(st, "unknown in vocabulary", K(0)))
	e := isErr(t[1])
	x.Obl(rUnknown, what+"|error", pos, e != 0 && e == -in, "an error is returned although the unknown token is in the vocabulary, or none although it is not, or without a lookup")
	if e != -1 || in != 1 {
		return
	}
	n, k, ok := w.tokens(st, t[0])
	ok = ok && k.IsK(-2) && x.ProveEQ(st, n.AddK(-1))
	if !st.unreachable() {
		x.Obl(rAgree, "WordPiece|"+what, pos, ok, "the result is not the unknown token with its id")
		x.Obl(rUnknown, what+"|token", pos, ok, "the result is not the unknown token over the whole text")
	}
}

// isUnknown: v is the unknown token over the whole text.
func (w *wordPiece) isUnknown(st *State, v Val) bool {
	x := w.x
	id, value, a, b, ok := w.tt.parts(v)
	return ok && isTag(value, "unknown") && x.ProveEQ(st, id.Sub(w.unkID)) && x.ProveEQ(st, a) && x.ProveEQ(st, b.Sub(w.b.N))
}
