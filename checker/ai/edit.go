package ai

import (
	"fmt"

	"os"

	"gtcheck/core"

	"golang.org/x/tools/go/ssa"
)

// The editing operations, given the contract of TransformRange: each builds a
// script, which is judged by what the contract says it does.

const (
	rFilter  = "filtering keeps exactly the accepted runes"
	rMap     = "mapping replaces each rune by its image"
	rTrim    = "trimming removes exactly the white space asked for"
	rAdd     = "the text is added at its end and the rest stays"
	rReplace = "every match is replaced by the content, in order, and the rest stays"
	rKeepAl  = "a surviving rune keeps its alignment, added text takes that of the rune next to it"
	rOnly    = "the text and the alignments are only changed by transforms"
	rPre     = "scripts stay within their range"
)

// editOp describes what an operation should do.
type editOp struct {
	name, rule string
	pos        string
	ns         *NS
	B          Lin // prophecy: index of the first rune that the script consumes
	fr, fc     int
	// text checks that rune n of the script is right; t is the number of runes
	// of the text dealt with so far, and its new value is returned.
	text func(x *Interp, st *State, n, t Lin, r IntV) (Lin, bool)
	// src is the rune whose alignment rune n of the script should have.
	src func(x *Interp, st *State, r IntV) (Lin, bool)
	// done checks a call; c is nil for an empty script.
	done func(x *Interp, st *State, c *scriptCall)
	// none checks that nothing has to be done.
	none func(x *Interp, st *State)
	keys map[string]bool
}

// scriptCall is a call of TransformRange.
type scriptCall struct {
	ka, kb, init Lin
	n            Lin // runes written
	used         Lin // runes consumed
	text         Lin // last value of text
}

func (o *editOp) obl(x *Interp, st *State, rule, key string, ok bool, format string, a ...interface{}) {
	if !st.unreachable() {
		if !ok && x.Trace && !x.Muted() {
			dbg("FAILED %s %s: %s\n%s\n", o.name, key, fmt.Sprintf(format, a...), st)
		}
		x.Obl(rule, o.name+"|"+key, o.pos, ok, o.name+": "+format, a...)
	}
}

// spec is the summary of the script of o: runes consumed, and text.
func (o *editOp) spec(x *Interp) *ChainSpec {
	return &ChainSpec{
		Name:  "script",
		Index: true,
		Init:  func(x *Interp, st *State) []Val { return []Val{IntV{L: K(0)}, IntV{L: K(0)}} },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			f := v.(StructV).F
			rv, ch := f[o.fr].(IntV), f[o.fc].(IntV).L
			used, t := r[0].(IntV).L, r[1].(IntV).L
			used0 := t
			if o.text != nil {
				nt, ok := o.text(x, st, n, t, rv)
				o.obl(x, st, o.rule, "text", ok, "rune %s of the script is not the right one (%s, expected rune %s on)", st.P.Reduce(n), showVal(st, rv), st.P.Reduce(used0))
				t = nt
			}
			ins, rep := x.ForkBool(st.Clone(), FGE(ch.AddK(-1)))
			if o.src != nil {
				want, ok := o.src(x, st, rv)
				o.obl(x, st, rKeepAl, "source", ok, "cannot tell where rune %s of the script comes from (%s)", st.P.Reduce(n), showVal(st, rv))
				if ok && n.IsK(0) {
					if st.HasG("script") {
						o.obl(x, st, rKeepAl, "one script", false, "more than one script is built")
					}
					st.SetG("script", K(1))
					switch {
					case len(ins) == 0:
						st.P.AddEq(o.B.Sub(want))
					case len(rep) == 0:
						st.P.AddEq(o.B.AddK(-1).Sub(want))
					default:
						o.obl(x, st, rKeepAl, "kind known", false, "the first rune of the script may be inserted or replaced")
					}
				} else if ok {
					for _, s := range rep {
						o.obl(x, s, rKeepAl, "aligned", x.ProveEQ(s, o.B.Add(used).Sub(want)), "a rune takes the alignment of rune %s instead of %s", s.P.Reduce(o.B.Add(used)), s.P.Reduce(want))
					}
					for _, s := range ins {
						o.obl(x, s, rKeepAl, "aligned", x.ProveEQ(s, o.B.Add(used).AddK(-1).Sub(want)), "an inserted rune takes the alignment of rune %s instead of %s", s.P.Reduce(o.B.Add(used).AddK(-1)), s.P.Reduce(want))
					}
				}
			}
			// 1 - ch runes are consumed
			u := used.Add(K(1)).Sub(ch)
			return []Val{IntV{L: u}, IntV{L: t}}
		},
		KeyOf: func(x *Interp, st *State, v Val) string {
			f := v.(StructV).F
			switch ch := st.P.Reduce(f[o.fc].(IntV).L); {
			case ch.IsK(0):
				return "0"
			case ch.IsK(1):
				return "+"
			}
			return "-"
		},
		Check: func(x *Interp, st *State, n Lin, v Val) {
			ch := v.(StructV).F[o.fc].(IntV).L
			o.obl(x, st, rPre, "change", x.ProveGE(st, K(1).Sub(ch)), "the change %s may be greater than 1", st.P.Reduce(ch))
		},
	}
}

const trName = "(*" + core.ModPath + "/normalizedstring.NormalizedString).TransformRange"

// stubTR replaces TransformRange by its contract.
func (o *editOp) stubTR(x *Interp) {
	x.Stubs[trName] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		x.trCall(st, o, a)
		return one(st, TupleV{})
	}
}

func (x *Interp) trCall(st *State, o *editOp, a []Val) {
	p, ok := a[0].(PtrV)
	if !ok || p.Obj != o.ns.Ptr.Obj {
		o.obl(x, st, o.rule, "same string", false, "another string is transformed")
		return
	}
	if st.HasG("tr.calls") {
		o.obl(x, st, o.rule, "one transform", false, "the string may be transformed more than once")
		return
	}
	st.SetG("tr.calls", K(1))
	sc := &scriptCall{}
	lo, hi, ok := x.rangeOf(st, a[1])
	if !ok {
		o.obl(x, st, rPre, "range", false, "the range transformed is not known")
		return
	}
	var ok2 bool
	sc.ka, ok = x.IndexAt(st, o.ns.Norm, lo)
	sc.kb, ok2 = x.IndexAt(st, o.ns.Norm, hi)
	o.obl(x, st, rPre, "range", ok && ok2, "the range %s..%s is not known to be on rune boundaries", st.P.Reduce(lo), st.P.Reduce(hi))
	if !ok || !ok2 {
		return
	}
	sc.init = a[3].(IntV).L
	sv, _ := a[2].(SliceV)
	ch := x.ChainOf(st, sv, x.Type(nsPkg, "RuneChange"))
	if ch == nil {
		o.obl(x, st, o.rule, "script known", false, "the script is not known")
		return
	}
	sc.n, sc.used, sc.text = ch.N, ch.R[0].(IntV).L, ch.R[1].(IntV).L
	o.obl(x, st, rPre, "initial offset", x.ProveGE(st, sc.init), "the initial offset %s may be negative", st.P.Reduce(sc.init))
	o.obl(x, st, rPre, "enough runes", x.ProveGE(st, sc.kb.Sub(sc.ka).Sub(sc.init).Sub(sc.used)), "the script consumes %s runes after the first %s, the range has %s", st.P.Reduce(sc.used), st.P.Reduce(sc.init), st.P.Reduce(sc.kb.Sub(sc.ka)))
	if o.src != nil && !x.ProveEQ(st, sc.n) {
		o.obl(x, st, rKeepAl, "initial offset", x.ProveEQ(st, o.B.Sub(sc.ka).Sub(sc.init)), "the first rune taken into account is rune %s, not rune %s", st.P.Reduce(sc.ka.Add(sc.init)), st.P.Reduce(o.B))
	}
	o.done(x, st, sc)
}

// rangeOf is the start and end of a NormalizedRange.
func (x *Interp) rangeOf(st *State, v Val) (lo, hi Lin, ok bool) {
	i, isI := v.(IfaceV)
	if !isI || i.T.String() != x.Type(nsPkg, "NormalizedRange").String() {
		return
	}
	s, isS := i.V.(StructV)
	for isS && len(s.F) == 1 {
		s, isS = s.F[0].(StructV)
	}
	if !isS || len(s.F) != 2 {
		return
	}
	t := i.T
	k := FieldIdx(t, "start")
	a, ok1 := s.F[k].(IntV)
	b, ok2 := s.F[1-k].(IntV)
	return a.L, b.L, ok1 && ok2
}

// newEdit prepares the analysis of one operation.
func (x *Interp) newEdit(st *State, name, rule string, fn *ssa.Function) *editOp {
	o := &editOp{name: name, rule: rule, pos: x.Prog.Pos(fn.Pos())}
	o.ns = x.NewNS(st, "ns")
	o.B = x.FreshNat(st, "first")
	et := x.Type(nsPkg, "RuneChange")
	o.fr, o.fc = FieldIdx(et, "Rune"), FieldIdx(et, "Change")
	x.Spec(et, o.spec(x))
	o.stubTR(x)
	x.watchShared(o.ns, name)
	return o
}

// run analyses the operation.
func (o *editOp) run(x *Interp, st *State, fn *ssa.Function, args ...Val) {
	st.Ambient()
	outs := x.Run(st, fn, append([]Val{o.ns.Ptr}, args...)...)
	n := 0
	for _, out := range outs {
		s := out.St
		if out.Panic || s.unreachable() {
			continue
		}
		n++
		if !s.HasG("tr.calls") {
			o.none(x, s)
		}
		v, ok := x.ViewNS(s, o.ns, o.ns.Ptr)
		ok = ok && x.isSub(s, v.Norm, o.ns.Norm, K(0), o.ns.Norm.N) && v.Al.Obj == o.ns.Al && x.ProveEQ(s, v.Al.Len.Sub(o.ns.Norm.N))
		o.obl(x, s, rOnly, "only transforms", ok, "the text or the alignments are changed other than by a transform")
		x.unchangedNS(s, o.ns, o.name, o.pos)
	}
	x.Obl(o.rule, o.name+"|returns", o.pos, n > 0, "%s never returns", o.name)
}

// fromNorm is the index of the rune of the normalized text that r is, or is
// the image of.
func (o *editOp) fromNorm(x *Interp, st *State, r IntV) (Lin, bool) {
	if r.P == nil || r.P.B != o.ns.Norm {
		return Lin{}, false
	}
	return r.P.K, true
}

// count declares the number of runes of b before an index that satisfy pred.
// A rune that does is imagined behind the end.
func (x *Interp) count(name string, b *StrBase, pred func(x *Interp, st *State, r Lin) *Formula) {
	x.countDir(name, b, pred, false)
}

// countRev declares the number of the last so many runes of b that satisfy
// pred. A rune that does is imagined before the start.
func (x *Interp) countRev(name string, b *StrBase, pred func(x *Interp, st *State, r Lin) *Formula) {
	x.countDir(name, b, pred, true)
}

func (x *Interp) countDir(name string, b *StrBase, pred func(x *Interp, st *State, r Lin) *Formula, rev bool) {
	n1 := b.R.AddK(1)
	link := func(x *Interp, st *State, i, v, n Lin) {
		if st.P.Reduce(i.Sub(b.R)).IsK(0) {
			st.P.AddEq(n.Sub(v).AddK(-1))
			return
		}
		k := i
		if rev {
			k = b.R.Sub(i).AddK(-1)
		}
		r, ok := x.at(st, b.runeFam(), k)
		if !ok {
			return
		}
		switch x.Decide(st, pred(x, st, r)) {
		case 1:
			st.P.AddEq(n.Sub(v).AddK(-1))
		case -1:
			st.P.AddEq(n.Sub(v))
		}
	}
	x.Decl(&Fam{Name: name, Lo: I64(0), N: &n1, V0: L(K(0)), Rev: &b.R, Link: func(x *Interp, st *State, i, v Lin) {
		if n, ok := x.at(st, name, i.AddK(1)); ok {
			link(x, st, i, v, n)
		}
	}, OnNew: func(x *Interp, st *State, i, v Lin) {
		if p, ok := x.at(st, name, i.AddK(-1)); ok {
			link(x, st, i.AddK(-1), p, v)
		}
	}})
	prev := x.OnReadRune
	x.OnReadRune = func(x *Interp, st *State, t *StrBase, k, r Lin) {
		if prev != nil {
			prev(x, st, t, k, r)
		}
		if t == b {
			if rev {
				k = b.R.Sub(k).AddK(-1)
			}
			x.App(st, name, k)
			x.App(st, name, k.AddK(1))
		}
	}
}

// between is the number of counted runes with index in [a,b).
func (x *Interp) between(st *State, name string, a, b Lin) Lin {
	l := x.App(st, name, b).Sub(x.App(st, name, a))
	x.relink(st)
	return l
}

// CheckEdits verifies the editing operations.
func (x *Interp) CheckEdits(base *State) {
	for _, c := range []struct {
		name string
		f    func(base *State)
	}{
		{"Filter", x.checkFilter},
		{"Map", func(b *State) { x.checkMap(b, "Map", "f", x.RuneFn("f")) }},
		{"ToUpper", func(b *State) { x.checkMap(b, "ToUpper", "unicode.ToUpper") }},
		{"ToLower", func(b *State) { x.checkMap(b, "ToLower", "unicode.ToLower") }},
		{"Trim", x.checkTrim},
		{"Prepend", func(b *State) { x.checkAdd(b, "Prepend") }},
		{"Append", func(b *State) { x.checkAdd(b, "Append") }},
		{"PrependToEmpty", func(b *State) { x.addToEmpty(b, "Prepend") }},
		{"AppendToEmpty", func(b *State) { x.addToEmpty(b, "Append") }},
		{"Replace", x.checkReplace},
	} {
		if g := os.Getenv("GTCASE"); g == "" || g == c.name {
			c.f(base)
		}
	}
}

func (x *Interp) checkFilter(base *State) {
	st := base.Clone()
	fn := x.Method(nsPkg, "NormalizedString", "Filter")
	o := x.newEdit(st, "Filter", rFilter, fn)
	b := o.ns.Norm
	pred := func(x *Interp, st *State, r Lin) *Formula { return x.predicate(st, "keep", r) }
	x.count("kept", b, pred)
	defer func() { x.OnReadRune = nil }()
	o.src = o.fromNorm
	o.text = func(x *Interp, st *State, n, t Lin, r IntV) (Lin, bool) {
		k, ok := o.fromNorm(x, st, r)
		if !ok || r.P.Tag != "" {
			return t, false
		}
		// the next accepted rune
		// (more runes are accepted before k+1 than before t, or k >= t outright)
		ok = x.ProveGE(st, x.between(st, "kept", t, k.AddK(1)).AddK(-1)) || x.ProveGE(st, k.Sub(t))
		ok = ok && x.ProveEQ(st, x.between(st, "kept", t, k)) && x.ProveEQ(st, x.between(st, "kept", k, k.AddK(1)).AddK(-1))
		return k.AddK(1), ok
	}
	o.done = func(x *Interp, st *State, c *scriptCall) {
		o.whole(x, st, c)
		o.obl(x, st, o.rule, "none forgotten", x.ProveEQ(st, x.between(st, "kept", c.text, b.R)), "accepted runes at the end may be dropped")
	}
	o.none = func(x *Interp, st *State) {
		o.obl(x, st, o.rule, "nothing to remove", x.ProveEQ(st, x.between(st, "kept", K(0), b.R).Sub(b.R)), "nothing is done though runes may have to be removed")
	}
	o.run(x, st, fn, x.Pred("keep"))
}

// whole requires that the whole text is transformed.
func (o *editOp) whole(x *Interp, st *State, c *scriptCall) {
	o.obl(x, st, o.rule, "whole text", x.ProveEQ(st, c.ka) && x.ProveEQ(st, c.kb.Sub(o.ns.Norm.R)), "only runes %s..%s are transformed", st.P.Reduce(c.ka), st.P.Reduce(c.kb))
}

// checkMap verifies an operation that maps the runes by the function tag.
func (x *Interp) checkMap(base *State, name, tag string, args ...Val) {
	st := base.Clone()
	fn := x.Method(nsPkg, "NormalizedString", name)
	o := x.newEdit(st, name, rMap, fn)
	o.src = o.fromNorm
	o.text = func(x *Interp, st *State, n, t Lin, r IntV) (Lin, bool) {
		k, ok := o.fromNorm(x, st, r)
		return k.AddK(1), ok && r.P.Tag == tag && x.ProveEQ(st, k.Sub(t))
	}
	o.done = func(x *Interp, st *State, c *scriptCall) {
		o.whole(x, st, c)
		o.obl(x, st, o.rule, "all runes", x.ProveEQ(st, c.text.Sub(o.ns.Norm.R)), "only %s of %s runes are mapped", st.P.Reduce(c.text), st.P.Reduce(o.ns.Norm.R))
	}
	o.none = func(x *Interp, st *State) {
		o.obl(x, st, o.rule, "something is done", x.ProveEQ(st, o.ns.Norm.R), "nothing is done")
	}
	o.run(x, st, fn, args...)
}

func (x *Interp) checkTrim(base *State) {
	ws := Table("White_Space")
	for m := 0; m < 4; m++ {
		left, right := m&1 != 0, m&2 != 0
		name := []string{"TrimLeftRight(false, false)", "TrimLeftRight(true, false)", "TrimLeftRight(false, true)", "TrimLeftRight(true, true)"}[m]
		x.trim(base, name, ws, left, right, x.Method(nsPkg, "NormalizedString", "TrimLeftRight"), BConst(left), BConst(right))
	}
	x.trim(base, "Trim", ws, true, true, x.Method(nsPkg, "NormalizedString", "Trim"))
	x.trim(base, "TrimLeft", ws, true, false, x.Method(nsPkg, "NormalizedString", "TrimLeft"))
	x.trim(base, "TrimRight", ws, false, true, x.Method(nsPkg, "NormalizedString", "TrimRight"))
}

func (x *Interp) trim(base *State, name string, ws *RuneSet, left, right bool, fn *ssa.Function, args ...Val) {
	st := base.Clone()
	o := x.newEdit(st, name, rTrim, fn)
	b := o.ns.Norm
	solid := func(x *Interp, st *State, r Lin) *Formula { return FNot(FIn(r, ws)) }
	x.count("solid", b, solid)
	x.countRev("solidR", b, solid)
	defer func() { x.OnReadRune, x.MakeHint = nil, nil }()
	// the runes counted from the start and those counted from the end add up
	x.MakeHint = func(st *State) {
		all := x.App(st, "solid", b.R)
		st.P.AddEq(x.App(st, "solidR", b.R).Sub(all))
		for _, m := range append([]memoEnt(nil), st.memo["solid"]...) {
			if x.ProveGE(st, m.idx) && x.ProveGE(st, b.R.Sub(m.idx)) {
				st.P.AddEq(x.App(st, "solidR", b.R.Sub(m.idx)).Add(m.v).Sub(all))
			}
		}
	}
	o.src = o.fromNorm
	o.text = func(x *Interp, st *State, n, t Lin, r IntV) (Lin, bool) {
		k, ok := o.fromNorm(x, st, r)
		if !ok || r.P.Tag != "" {
			return t, false
		}
		if n.IsK(0) {
			return k.AddK(1), true
		}
		return k.AddK(1), x.ProveEQ(st, k.Sub(t))
	}
	// lo..hi are the runes kept
	check := func(x *Interp, st *State, lo, hi Lin) {
		none, some := x.ForkBool(st.Clone(), FGE(lo.Sub(hi)))
		for _, s := range none {
			ok := false
			if left || right {
				ok = x.ProveEQ(s, x.between(s, "solid", K(0), b.R)) || x.ProveEQ(s, x.between(s, "solidR", K(0), b.R))
			} else {
				ok = x.ProveEQ(s, b.R)
			}
			o.obl(x, s, o.rule, "nothing left", ok, "everything is removed though there may be other runes than white space")
		}
		for _, s := range some {
			if left {
				ok := x.ProveEQ(s, x.between(s, "solid", K(0), lo)) && x.ProveEQ(s, x.between(s, "solid", lo, lo.AddK(1)).AddK(-1))
				o.obl(x, s, o.rule, "left", ok, "the runes removed at the start are not exactly its white space")
			} else {
				o.obl(x, s, o.rule, "left", x.ProveEQ(s, lo), "runes are removed at the start")
			}
			if right {
				t := b.R.Sub(hi)
				ok := x.ProveEQ(s, x.between(s, "solidR", K(0), t)) && x.ProveEQ(s, x.between(s, "solidR", t, t.AddK(1)).AddK(-1))
				o.obl(x, s, o.rule, "right", ok, "the runes removed at the end are not exactly its white space")
			} else {
				o.obl(x, s, o.rule, "right", x.ProveEQ(s, hi.Sub(b.R)), "runes are removed at the end")
			}
		}
	}
	o.done = func(x *Interp, st *State, c *scriptCall) {
		o.whole(x, st, c)
		check(x, st, c.text.Sub(c.n), c.text)
	}
	o.none = func(x *Interp, st *State) { check(x, st, K(0), b.R) }
	o.run(x, st, fn, args...)
}

// addToEmpty verifies that adding to an empty text does nothing or adds exactly
// the text given.
func (x *Interp) addToEmpty(base *State, name string) {
	st := base.Clone()
	fn := x.Method(nsPkg, "NormalizedString", name)
	o := x.newEdit(st, name+"ToEmpty", rAdd, fn)
	b := o.ns.Norm
	s := x.NewBase(st, "added")
	s.Track = true
	st.P.AddEq(b.R)
	st.P.AddEq(b.N)
	o.src = func(x *Interp, st *State, r IntV) (Lin, bool) {
		return K(0), r.P != nil && r.P.B == s && r.P.Tag == ""
	}
	o.text = func(x *Interp, st *State, n, t Lin, r IntV) (Lin, bool) {
		if r.P == nil || r.P.Tag != "" || r.P.B != s {
			return t, false
		}
		return r.P.K.AddK(1), n.IsK(0) || x.ProveEQ(st, r.P.K.Sub(t))
	}
	o.done = func(x *Interp, st *State, c *scriptCall) {
		o.obl(x, st, o.rule, "all or nothing", x.ProveEQ(st, c.n) || x.ProveEQ(st, c.n.Sub(s.R)), "a part of the text is added")
	}
	o.none = func(x *Interp, st *State) {}
	o.run(x, st, fn, s.Whole())
}

func (x *Interp) checkAdd(base *State, name string) {
	st := base.Clone()
	fn := x.Method(nsPkg, "NormalizedString", name)
	o := x.newEdit(st, name, rAdd, fn)
	b := o.ns.Norm
	s := x.NewBase(st, "added")
	s.Track = true
	st.P.AddGE(b.R.AddK(-1))
	st.P.AddGE(b.N.AddK(-1))
	front := name == "Prepend"
	o.src = func(x *Interp, st *State, r IntV) (Lin, bool) {
		if r.P != nil && r.P.B == s && r.P.Tag == "" {
			if front {
				return K(0), true
			}
			return b.R.AddK(-1), true
		}
		return o.fromNorm(x, st, r)
	}
	// t counts the runes of the result, from that of the first rune written
	o.text = func(x *Interp, st *State, n, t Lin, r IntV) (Lin, bool) {
		if r.P == nil || r.P.Tag != "" {
			return t, false
		}
		var i Lin // index in the result
		switch {
		case front && r.P.B == s:
			i = r.P.K
		case front && r.P.B == b:
			i = s.R.Add(r.P.K)
		case r.P.B == b:
			i = r.P.K
		case r.P.B == s:
			i = b.R.Add(r.P.K)
		default:
			return t, false
		}
		return i.AddK(1), n.IsK(0) || x.ProveEQ(st, i.Sub(t))
	}
	o.done = func(x *Interp, st *State, c *scriptCall) {
		// the result is norm[:ka] + runes + norm[kb:]
		lo, hi := c.text.Sub(c.n), c.text
		no, yes := x.ForkBool(st.Clone(), FEQ(c.n))
		for _, q := range no {
			o.obl(x, q, o.rule, "result", x.ProveEQ(q, c.kb.Sub(c.ka)) && x.ProveEQ(q, s.R), "nothing is added")
		}
		for _, q := range yes {
			ok := false
			if front {
				ok = x.ProveEQ(q, lo) && x.ProveEQ(q, c.ka) && x.ProveEQ(q, hi.Sub(s.R).Sub(c.kb))
			} else {
				ok = x.ProveEQ(q, lo.Sub(c.ka)) && x.ProveEQ(q, c.kb.Sub(b.R)) && x.ProveEQ(q, hi.Sub(b.R).Sub(s.R))
			}
			o.obl(x, q, o.rule, "result", ok, "runes %s..%s of the result are written over runes %s..%s of the text", q.P.Reduce(lo), q.P.Reduce(hi), q.P.Reduce(c.ka), q.P.Reduce(c.kb))
		}
	}
	o.none = func(x *Interp, st *State) {
		o.obl(x, st, o.rule, "nothing to add", x.ProveEQ(st, s.N) || x.ProveEQ(st, s.R), "nothing is done though there is text to add")
	}
	o.run(x, st, fn, s.Whole())
}
