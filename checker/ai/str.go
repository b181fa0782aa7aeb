package ai

import (
	"fmt"
	"go/token"
	"unicode/utf8"
)

// strLen0 is the length of a string in bytes.
func strLen0(s StrV) Lin {
	l := K(0)
	for _, p := range s.P {
		l = l.Add(pieceLen(p))
	}
	return l
}

func pieceLen(p Piece) Lin {
	switch p.Kind {
	case pSub:
		return p.Hi.Sub(p.Lo)
	case pLit:
		return K(int64(len(p.Lit)))
	}
	return p.Hi // pRune, pSeq
}

// Lit is a constant string.
func Lit(s string) StrV {
	if s == "" {
		return StrV{}
	}
	return StrV{[]Piece{{Kind: pLit, Lit: s}}}
}

// asLit returns the text of a constant string.
func asLit(s StrV) (string, bool) {
	t := ""
	for _, p := range s.P {
		if p.Kind != pLit {
			return "", false
		}
		t += p.Lit
	}
	return t, true
}

// widthSets gives, for each encoded length, the runes that have it. Values
// that are no code points are encoded as U+FFFD.
var widthSets = map[int64]*RuneSet{
	1: NewSet([2]int64{0, 0x7F}),
	2: NewSet([2]int64{0x80, 0x7FF}),
	4: NewSet([2]int64{0x10000, maxRune}),
}

func init() {
	widthSets[3] = widthSets[1].union(widthSets[2]).union(widthSets[4]).Complement()
}

func (x *Interp) declWidth() {
	x.Decl(&Fam{Name: "W", OnNew: func(x *Interp, st *State, r, v Lin) {
		lo, hi := int64(1), int64(4)
		if c, ok := st.P.Reduce(r).Const(); ok {
			for w, s := range widthSets {
				if s.Has(c) {
					lo, hi = w, w
				}
			}
		} else if set, _, sg, c, ok := x.setOf(st, r); ok {
			lo, hi = 5, 0
			if sg == -1 {
				set = set.Neg()
			}
			set = set.Shift(c)
			for w, s := range widthSets {
				if !s.Intersect(set).Empty() {
					if w < lo {
						lo = w
					}
					if w > hi {
						hi = w
					}
				}
			}
		}
		st.P.AddGE(v.AddK(-lo))
		if hi < 4 {
			st.P.AddGE(v.Neg().AddK(hi))
		}
	}})
}

// NewBase declares an unknown valid UTF-8 text.
func (x *Interp) NewBase(st *State, name string) *StrBase {
	x.nbase++
	b := &StrBase{ID: x.nbase, Name: name}
	b.N = x.FreshNat(st, name+".n")
	b.R = x.FreshNat(st, name+".runes")
	return x.declBase(st, b)
}

func (x *Interp) declBase(st *State, b *StrBase) *StrBase {
	z := K(0)
	x.Decl(&Fam{Name: b.posFam(), Lo: I64(1), N: &b.R, V0: &z, VN: &b.N, Inv: true})
	st.P.AddGE(b.N.Sub(b.R))
	return b
}

// Whole is the whole text of b.
func (b *StrBase) Whole() StrV { return StrV{[]Piece{{Kind: pSub, Base: b, Lo: K(0), Hi: b.N}}} }

// ReadRune is rune k of b.
func (x *Interp) RuneAt(st *State, b *StrBase, k Lin) Lin {
	k = st.P.Reduce(k)
	// the position is before the end of the text, hence the index too
	st.P.AddGE(k)
	st.P.AddGE(b.R.Sub(k).AddK(-1))
	r, ok := x.Find(st, b.runeFam(), k)
	if !ok {
		if b.Rune != nil {
			r = b.Rune(x, st, k)
		} else {
			r = x.Fresh("r")
			x.addSet(st, r, ValidRunes)
		}
		x.Bind(st, b.runeFam(), k, r)
	}
	p0 := x.App(st, b.posFam(), k)
	p1 := x.App(st, b.posFam(), k.AddK(1))
	w := p1.Sub(p0)
	if v, ok := x.Find(st, "W", r); ok {
		st.P.AddEq(v.Sub(w))
	} else {
		x.Bind(st, "W", r, w)
	}
	if x.OnReadRune != nil {
		x.OnReadRune(x, st, b, k, r)
	}
	return r
}

// IndexAt is the k with P(k) = pos; pos must be known to be a boundary.
func (x *Interp) IndexAt(st *State, b *StrBase, pos Lin) (Lin, bool) {
	if st.P.Reduce(pos).IsK(0) {
		return K(0), true
	}
	if st.P.EntailsEQ(pos.Sub(b.N)) {
		return b.R, true
	}
	r := st.P.Reduce(pos)
	es := st.memo[b.posFam()]
	for _, e := range es {
		if st.P.Reduce(e.v).Eq(r) {
			return e.idx, true
		}
	}
	for _, e := range es {
		d := st.P.Reduce(e.v).Sub(r)
		if _, c := d.Const(); !c && st.P.EntailsEQ(d) {
			return e.idx, true
		}
	}
	// widths that have become constant
	q := st.Clone()
	x.Saturate(q)
	for _, e := range q.memo[b.posFam()] {
		if q.P.EntailsEQ(e.v.Sub(pos)) {
			st.P = q.P
			return e.idx, true
		}
	}
	if st.P.EntailsEQ(pos) {
		return K(0), true
	}
	return Lin{}, false
}

// ends makes the length of a text without runes known.
func (x *Interp) ends(st *State, b *StrBase) {
	if !x.st0(st, b.R) && x.ProveEQ(st, b.R) {
		st.P.AddEq(b.R)
	}
	if x.st0(st, b.R) {
		st.P.AddEq(b.N)
	}
}

// width is the encoded length of a rune.
func (x *Interp) width(st *State, r Lin) Lin { return x.App(st, "W", r) }

// runeStr is string(v).
func (x *Interp) runeStr(st *State, v IntV) StrV {
	r := v.L
	if p := v.P; p != nil && p.Tag == "" {
		return StrV{[]Piece{{Kind: pSub, Base: p.B, Lo: x.App(st, p.B.posFam(), p.K), Hi: x.App(st, p.B.posFam(), p.K.AddK(1))}}}
	}
	if c, ok := st.P.Reduce(r).Const(); ok {
		return Lit(string(rune(c)))
	}
	return StrV{[]Piece{{Kind: pRune, Lo: r, Hi: x.width(st, r)}}}
}

// concat joins strings, merging neighbouring parts.
func (x *Interp) concat(st *State, ss ...StrV) StrV {
	var out []Piece
	for _, s := range ss {
		for _, p := range s.P {
			if n := len(out); n > 0 {
				q := &out[n-1]
				if q.Kind == pSub && p.Kind == pSub && q.Base == p.Base && st.P.EntailsEQ(q.Hi.Sub(p.Lo)) {
					q.Hi = p.Hi
					continue
				}
				if q.Kind == pLit && p.Kind == pLit {
					q.Lit += p.Lit
					continue
				}
			}
			if p.Kind == pSub && st.P.Reduce(p.Hi.Sub(p.Lo)).IsK(0) {
				continue
			}
			out = append(out, p)
		}
	}
	return StrV{out}
}

// substr is s[lo:hi] for 0 <= lo <= hi <= len(s).
func (x *Interp) substr(st *State, s StrV, lo, hi Lin) StrV {
	if x.st0(st, lo) && st.P.EntailsEQ(hi.Sub(strLen0(s))) {
		return s
	}
	if st.P.EntailsEQ(hi.Sub(lo)) {
		return StrV{}
	}
	start := K(0)
	var out []Piece
	for _, p := range s.P {
		end := start.Add(pieceLen(p))
		if x.ProveGE(st, lo.Sub(end)) || x.ProveGE(st, start.Sub(hi)) {
			start = end
			continue
		}
		a, b := K(0), pieceLen(p)
		if !x.ProveGE(st, start.Sub(lo)) {
			if !x.ProveGE(st, lo.Sub(start)) {
				return x.someStr(hi.Sub(lo))
			}
			a = lo.Sub(start)
		}
		if !x.ProveGE(st, hi.Sub(end)) {
			if !x.ProveGE(st, end.Sub(hi)) {
				return x.someStr(hi.Sub(lo))
			}
			b = hi.Sub(start)
		}
		a, b = st.P.Reduce(a), st.P.Reduce(b)
		switch p.Kind {
		case pSub:
			out = append(out, Piece{Kind: pSub, Base: p.Base, Lo: p.Lo.Add(a), Hi: p.Lo.Add(b)})
		case pLit:
			ca, ok1 := a.Const()
			cb, ok2 := b.Const()
			if !ok1 || !ok2 {
				return x.someStr(hi.Sub(lo))
			}
			out = append(out, Piece{Kind: pLit, Lit: p.Lit[ca:cb]})
		default:
			if a.IsK(0) && st.P.EntailsEQ(b.Sub(pieceLen(p))) {
				out = append(out, p)
			} else if q, ok := x.subTag(st, p, a, b); ok {
				out = append(out, q)
			} else {
				out = append(out, Piece{Kind: pSeq, Hi: b.Sub(a)})
			}
		}
		start = end
	}
	return StrV{out}
}

// subTag is a part of a named text.
func (x *Interp) subTag(st *State, p Piece, lo, hi Lin) (Piece, bool) {
	if x.SubTag == nil || p.Kind != pTag {
		return p, false
	}
	return x.SubTag(st, p, lo, hi)
}

func (x *Interp) st0(st *State, l Lin) bool { return st.P.Reduce(l).IsK(0) }

func (x *Interp) someStr(n Lin) StrV { return StrV{[]Piece{{Kind: pSeq, Hi: n}}} }

// asSub returns s as one part of one text whose ends are rune boundaries.
func (x *Interp) asSub(st *State, s StrV, what string, pos token.Pos) (b *StrBase, k, khi Lin, ok bool) {
	s = x.concat(st, s)
	if len(s.P) == 1 && s.P[0].Kind == pSub {
		p := s.P[0]
		k0, ok0 := x.IndexAt(st, p.Base, p.Lo)
		k1, ok1 := x.IndexAt(st, p.Base, p.Hi)
		if ok0 && ok1 {
			return p.Base, k0, k1, true
		}
		if !x.boundaryKnown(st, p.Base, p.Lo) && !ok0 || !ok1 {
			x.Obl("text cut on rune boundaries", x.key(pos)+"|"+what, x.Prog.Pos(pos), false, "%s of a part of the text that is not known to start and end on a rune boundary", what)
		}
	}
	// any text of that length
	nb := x.NewBase(st, "t")
	st.P.AddEq(nb.N.Sub(strLen0(s)))
	if len(s.P) == 1 && s.P[0].Kind == pRune {
		st.P.AddEq(nb.R.AddK(-1))
		x.Bind(st, nb.runeFam(), K(0), s.P[0].Lo)
	} else if t, isLit := asLit(s); isLit {
		st.P.AddEq(nb.R.AddK(-int64(utf8.RuneCountInString(t))))
		k := int64(0)
		for i, r := range t {
			x.Bind(st, nb.runeFam(), K(k), K(int64(r)))
			x.Bind(st, nb.posFam(), K(k), K(int64(i)))
			k++
		}
	}
	return nb, K(0), nb.R, true
}

func (x *Interp) boundaryKnown(st *State, b *StrBase, pos Lin) bool {
	_, ok := x.IndexAt(st, b, pos)
	return ok
}

// Lead and trail bytes of UTF-8.
var (
	leadBytes  = NewSet([2]int64{0, 0x7F}, [2]int64{0xC2, 0xF4})
	trailBytes = NewSet([2]int64{0x80, 0xBF})
)

// readByte reads byte i of a text (0 <= i < N is known).
func (x *Interp) readByte(st *State, b *StrBase, i Lin) []ElemOut {
	if v, ok := x.Find(st, b.byteFam(), i); ok {
		return []ElemOut{{st, IntV{L: v}}}
	}
	var out []ElemOut
	mk := func(s *State, set *RuneSet) {
		v := x.Fresh("byte")
		if x.addSet(s, v, set) && !s.P.bot {
			x.Bind(s, b.byteFam(), i, v)
			out = append(out, ElemOut{s, IntV{L: v}})
		}
	}
	if _, ok := x.IndexAt(st, b, i); ok {
		mk(st, leadBytes)
		return out
	}
	k := x.FreshNat(st, "k")
	st.P.AddGE(b.R.Sub(k).AddK(-1))
	p0 := x.App(st, b.posFam(), k)
	p1 := x.App(st, b.posFam(), k.AddK(1))
	st.P.AddGE(i.Sub(p0))
	st.P.AddGE(p1.Sub(i).AddK(-1))
	x.Saturate(st)
	o := st.Clone()
	for _, s := range x.Assume(st, FEQ(i.Sub(p0))) {
		mk(s, leadBytes)
	}
	for _, s := range x.Assume(o, FGE(i.Sub(p0).AddK(-1))) {
		mk(s, trailBytes)
	}
	return out
}

// strByte reads s[i] for a known 0 <= i < len(s).
func (x *Interp) strByte(st *State, s StrV, i Lin) []ElemOut {
	if t, ok := asLit(s); ok {
		if c, ok := st.P.Reduce(i).Const(); ok && c >= 0 && c < int64(len(t)) {
			return []ElemOut{{st, IntV{L: K(int64(t[c]))}}}
		}
	}
	start := K(0)
	cur := st
	var out []ElemOut
	for n, p := range s.P {
		end := start.Add(pieceLen(p))
		var in []*State
		if n == len(s.P)-1 {
			in = []*State{cur}
			cur = nil
		} else {
			yes, no := x.ForkBool(cur, FGE(end.Sub(i).AddK(-1)))
			in, cur = yes, nil
			if len(no) > 0 {
				cur = no[0]
			}
		}
		for _, s2 := range in {
			if p.Kind == pSub {
				out = append(out, x.readByte(s2, p.Base, p.Lo.Add(i).Sub(start))...)
				continue
			}
			v := x.Fresh("byte")
			if x.addSet(s2, v, NewSet([2]int64{0, 255})) {
				out = append(out, ElemOut{s2, IntV{L: v}})
			}
		}
		if cur == nil {
			break
		}
		start = end
	}
	return out
}

// runesOf is []rune(s).
func (x *Interp) runesOf(st *State, s StrV, pos token.Pos, elem typ) SliceV {
	b, k, khi, _ := x.asSub(st, s, "[]rune", pos)
	if n := strLen0(s); st.P.EntailsGE(n.AddK(-1)) {
		st.P.AddGE(khi.Sub(k).AddK(-1)) // a text with bytes has runes
	}
	src := &Source{Name: fmt.Sprintf("runes#%d", b.ID), N: b.R, RunesOf: b,
		Elem: func(x *Interp, st *State, i Lin) []ElemOut {
			return []ElemOut{{st, intAt(b, i, x.RuneAt(st, b, i))}}
		}}
	id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: k, Hi: khi}}}, Elem: elem, Name: "runes"})
	return SliceV{id, K(0), khi.Sub(k)}
}

// bytesOf is []byte(s).
func (x *Interp) bytesOf(st *State, s StrV, elem typ) SliceV {
	n := strLen0(s)
	s = x.concat(st, s)
	if len(s.P) == 1 && s.P[0].Kind == pSub {
		p := s.P[0]
		src := &Source{Name: fmt.Sprintf("bytes#%d", p.Base.ID), N: p.Base.N, BytesOf: p.Base,
			Elem: func(x *Interp, st *State, i Lin) []ElemOut { return x.readByte(st, p.Base, i) }}
		id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: p.Lo, Hi: p.Hi}}}, Elem: elem, Name: "bytes"})
		return SliceV{id, K(0), n}
	}
	id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sTop, N: n}}}, Elem: elem, Name: "bytes"})
	return SliceV{id, K(0), n}
}

// fromSlice is string(v) for a []rune or []byte.
func (x *Interp) fromSlice(st *State, v SliceV, runes bool) StrV {
	if v.Obj == 0 || st.P.EntailsEQ(v.Len) {
		return StrV{}
	}
	o := st.heap[v.Obj]
	if o.Bad == "" && o.Seq != nil {
		if segs, ok := x.sub(st, o.Seq, v.Off, v.Len); ok {
			var parts []StrV
			for _, s := range segs {
				switch {
				case s.Kind == sSrc && runes && s.Src.RunesOf != nil:
					b := s.Src.RunesOf
					parts = append(parts, StrV{[]Piece{{Kind: pSub, Base: b, Lo: x.App(st, b.posFam(), s.Lo), Hi: x.App(st, b.posFam(), s.Hi)}}})
				case s.Kind == sSrc && !runes && s.Src.BytesOf != nil:
					parts = append(parts, StrV{[]Piece{{Kind: pSub, Base: s.Src.BytesOf, Lo: s.Lo, Hi: s.Hi}}})
				case s.Kind == sElems && runes:
					for _, e := range s.Elems {
						parts = append(parts, x.runeStr(st, e.(IntV)))
					}
				case runes:
					n := x.FreshNat(st, "strlen")
					st.P.AddGE(n.Sub(s.Len()))
					st.P.AddGE(s.Len().Mul(4).Sub(n))
					parts = append(parts, x.someStr(n))
				default:
					parts = append(parts, x.someStr(s.Len()))
				}
			}
			return x.concat(st, parts...)
		}
	}
	n := x.FreshNat(st, "strlen")
	if runes {
		st.P.AddGE(n.Sub(v.Len))
		st.P.AddGE(v.Len.Mul(4).Sub(n))
	} else {
		st.P.AddEq(n.Sub(v.Len))
	}
	return x.someStr(n)
}
