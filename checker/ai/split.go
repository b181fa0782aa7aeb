package ai

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// NormalizedString.Split: the pieces are those the delimiter behaviour asks
// for. The captures are arbitrary; boundary i, before capture i, is a cut or
// not by the flags of the captures around it. Piece n has to go from cut n to
// cut n+1.

const (
	rPieces = "the pieces are those of the delimiter behaviour"
	rSplitT = "every piece is a slice of the string between two captures"
)

// CheckC09 decides what Split does.
func CheckC09(p *core.Program, r *core.Report) {
	x := nsRun(p, r, rPieces, rSplitT)
	base := x.InitGlobals(NewState(), nsPkg)
	for _, b := range behaviours {
		if c := os.Getenv("GTCASE"); c == "" || c == b {
			x.checkNSSplit(base, b)
		}
	}
	x.Close("split")
	r.Min[rPieces] = 15
}

const sliceName = "(*" + core.ModPath + "/normalizedstring.NormalizedString).Slice"

// checkNSSplit analyses one behaviour. A list of pieces may hold those that
// are removed, with a flag; both meanings of the flag are tried.
func (x *Interp) checkNSSplit(base *State, behaviour string) {
	modes := []string{""}
	if behaviour == "Removed" {
		modes = []string{"flag", "kept", "noflag"}
	}
	type attempt struct {
		rep   *core.Report
		unsup map[string]string
		bad   int
	}
	var best *attempt
	rep, unsup := x.Rep, x.Unsup
	for _, m := range modes {
		a := &attempt{rep: core.NewReport("C09"), unsup: map[string]string{}}
		x.Rep, x.Unsup = a.rep, a.unsup
		func() {
			defer func() {
				if e := recover(); e != nil {
					if len(modes) == 1 || os.Getenv("GTCHECK_PANIC") != "" {
						panic(e)
					}
					a.rep.Fail(rPieces, behaviour+"|analysis", "", "%v", e)
					a.bad += 100
				}
			}()
			x.splitCase(base.Clone(), behaviour, m)
		}()
		if os.Getenv("GTTRACE") != "" {
			dbg("== %s %s: %d bad, %d unsupported\n", behaviour, m, a.bad, len(a.unsup))
		}
		for _, o := range a.rep.Obls {
			if !o.OK {
				a.bad++
			}
		}
		a.bad += len(a.unsup)
		if best == nil || a.bad < best.bad {
			best = a
		}
		if a.bad == 0 {
			break
		}
	}
	x.Rep, x.Unsup = rep, unsup
	for _, o := range best.rep.Obls {
		rep.Add(o.Rule, o.Key, o.Pos, o.OK, o.Detail)
	}
	for k, v := range best.unsup {
		x.Unsupported(behaviour+"|"+k, v)
	}
}

// splitting is the analysis of one behaviour.
type splitting struct {
	x         *Interp
	ct        captureT
	N, T      Lin // captures, pieces
	behaviour string
	mode      string
	pos       string
}

// cuts declares the captures and what has to become of them.
//
//	P(i)  where capture i starts, in bytes; P(N) is the end of the text
//	M(i)  1 if capture i is a match
//	CUT(i) 1 if a piece starts, or the last ends, at P(i); for the behaviour
//	      that removes matches: 1 if capture i is kept
//	D(i)  the number of cuts before i
//	FC(n) the index of cut n
func (c *splitting) cuts(st *State, b *StrBase) *Source {
	x := c.x
	c.N = x.FreshNat(st, "captures")
	st.P.AddGE(c.N.AddK(-1))
	c.T = x.FreshNat(st, "pieces")
	removed := c.behaviour == "Removed"
	n := b.N
	x.Decl(&Fam{Name: "P", Lo: I64(1), N: &c.N, V0: L(K(0)), VN: &n, Inv: true, Keep: true})
	bit := func(st *State, v Lin) {
		st.P.AddGE(v)
		st.P.AddGE(K(1).Sub(v))
	}
	x.Decl(&Fam{Name: "M", Inst: true, N: &c.N, OnNew: func(x *Interp, st *State, i, v Lin) { bit(st, v) }})
	x.Decl(&Fam{Name: "CUT", Inst: true, N: &c.N, OnNew: func(x *Interp, st *State, i, v Lin) { bit(st, v) }, Link: func(x *Interp, st *State, i, v Lin) {
		m, ok := x.at(st, "M", i)
		if removed {
			if ok {
				st.P.AddEq(v.Add(m).AddK(-1))
			}
			return
		}
		if c.behaviour == "Isolated" || st.P.Reduce(i).IsK(0) || st.P.Reduce(i.Sub(c.N)).IsK(0) {
			st.P.AddEq(v.AddK(-1))
			return
		}
		l, ok2 := x.at(st, "M", i.AddK(-1))
		if !ok || !ok2 || !st.P.EntailsGE(i.AddK(-1)) || !st.P.EntailsGE(c.N.AddK(-1).Sub(i)) {
			return
		}
		switch c.behaviour {
		case "MergedWithPrevious": // no cut iff m and not l
			st.P.AddGE(v.AddK(-1).Add(m))
			st.P.AddGE(v.Sub(l))
			st.P.AddGE(K(1).Sub(m).Add(l).Sub(v))
		case "MergedWithNext": // no cut iff l and not m
			st.P.AddGE(v.AddK(-1).Add(l))
			st.P.AddGE(v.Sub(m))
			st.P.AddGE(K(1).Sub(l).Add(m).Sub(v))
		case "Contiguous": // a cut iff they differ
			st.P.AddGE(v.Sub(m).Add(l))
			st.P.AddGE(v.Sub(l).Add(m))
			st.P.AddGE(m.Add(l).Sub(v))
			st.P.AddGE(K(2).Sub(m).Sub(l).Sub(v))
		}
	}})
	end := c.T
	last := c.N
	if !removed {
		end, last = c.T.AddK(1), c.N.AddK(1)
	}
	x.Decl(&Fam{Name: "D", Inst: true, Lo: I64(0), Hi: I64(1), N: &last, V0: L(K(0)), VN: &end, Link: func(x *Interp, st *State, i, v Lin) {
		n, ok := x.at(st, "D", i.AddK(1))
		cut, ok2 := x.at(st, "CUT", i)
		if ok && ok2 {
			st.P.AddEq(n.Sub(v).Sub(cut))
		}
	}})
	fc := &Fam{Name: "FC", Lo: I64(1), N: &c.T, Link: func(x *Interp, st *State, i, v Lin) {
		if d, ok := x.at(st, "D", v); ok {
			st.P.AddEq(d.Sub(i))
		}
		if cut, ok := x.at(st, "CUT", v); ok && !(removed && st.P.Reduce(i.Sub(c.T)).IsK(0)) {
			st.P.AddEq(cut.AddK(-1))
		}
	}}
	if !removed {
		fc.V0, fc.VN = L(K(0)), &c.N
	}
	x.Decl(fc)
	return &Source{Name: "captures", N: c.N, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
		m := c.know(st, i)
		yes, no := x.ForkBool(st, FGE(m.AddK(-1)))
		var out []ElemOut
		for k, qs := range [][]*State{yes, no} {
			for _, q := range qs {
				q.P.AddEq(m.AddK(int64(k - 1)))
				x.relink(q)
				if !q.unreachable() {
					out = append(out, ElemOut{q, c.ct.mk(x.App(q, "P", i), x.App(q, "P", i.AddK(1)), FBool(k == 0))})
				}
			}
		}
		return out
	}}
}

// know makes what surrounds capture i known.
func (c *splitting) know(st *State, i Lin) Lin {
	x := c.x
	m := x.App(st, "M", i)
	x.App(st, "M", i.AddK(-1))
	x.App(st, "P", i)
	x.App(st, "P", i.AddK(1))
	x.App(st, "CUT", i)
	x.App(st, "D", i)
	x.App(st, "D", i.AddK(1))
	if c.behaviour != "Removed" {
		x.App(st, "CUT", i.AddK(1))
		x.App(st, "D", i.AddK(2))
	}
	x.relink(st)
	return m
}

// leaves gives the integers and the flag of a piece.
func leaves(v Val, ints *[]Lin, flags *[]*Formula) bool {
	switch v := v.(type) {
	case IntV:
		*ints = append(*ints, v.L)
		return true
	case BoolV:
		*flags = append(*flags, v.F)
		return true
	case StructV:
		for _, f := range v.F {
			if !leaves(f, ints, flags) {
				return false
			}
		}
		return true
	}
	return false
}

// shape counts the integers and flags of a type.
func shape(t types.Type) (ints, flags int, ok bool) {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsInteger != 0:
			return 1, 0, true
		case t.Info()&types.IsBoolean != 0:
			return 0, 1, true
		}
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			a, b, ok := shape(t.Field(i).Type())
			if !ok {
				return 0, 0, false
			}
			ints, flags = ints+a, flags+b
		}
		return ints, flags, true
	}
	return 0, 0, false
}

func mkPiece(t types.Type, ints *[]Lin, flag bool) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		f := make([]Val, s.NumFields())
		for i := range f {
			f[i] = mkPiece(s.Field(i).Type(), ints, flag)
		}
		return StructV{f}
	}
	if t.Underlying().(*types.Basic).Info()&types.IsBoolean != 0 {
		return BConst(flag)
	}
	l := (*ints)[0]
	*ints = (*ints)[1:]
	return IntV{L: l}
}

// isPiece reports whether [a, b) is piece n, counted from the end if rev.
func (c *splitting) isPiece(st *State, n, a, b Lin, rev bool) bool {
	x := c.x
	i, ok := x.inverse(st, "P", st.P.Reduce(a))
	j, ok2 := x.inverse(st, "P", st.P.Reduce(b))
	if !ok || !ok2 {
		return false
	}
	for _, l := range []Lin{i, j} {
		// P is only looked up where it is defined
		st.P.AddGE(l)
		st.P.AddGE(c.N.Sub(l))
	}
	if c.behaviour == "Removed" {
		if !x.ProveEQ(st, j.Sub(i).AddK(-1)) || !x.ProveGE(st, i) || !x.ProveGE(st, c.N.AddK(-1).Sub(i)) {
			return false
		}
		m := c.know(st, i)
		if rev {
			n = c.T.AddK(-1).Sub(n)
		}
		return x.ProveEQ(st, m) && x.ProveEQ(st, x.App(st, "D", i).Sub(n))
	}
	if rev {
		n = c.T.AddK(-1).Sub(n)
	}
	for k, l := range []Lin{i, j} {
		if !x.ProveEQ(st, x.App(st, "CUT", l).AddK(-1)) || !x.ProveEQ(st, x.App(st, "D", l).Sub(n).AddK(-int64(k))) {
			return false
		}
	}
	return true
}

// piece gives the ends of piece n.
func (c *splitting) piece(st *State, n Lin, rev bool) (a, b Lin) {
	x := c.x
	if rev {
		n = c.T.AddK(-1).Sub(n)
	}
	if c.behaviour == "Removed" {
		i := x.App(st, "FC", n)
		st.P.AddGE(i)
		st.P.AddGE(c.N.AddK(-1).Sub(i))
		c.know(st, i)
		return x.App(st, "P", i), x.App(st, "P", i.AddK(1))
	}
	var e [2]Lin
	for k := range e {
		i := x.App(st, "FC", n.AddK(int64(k)))
		x.App(st, "D", i)
		x.App(st, "CUT", i)
		x.relink(st)
		e[k] = x.App(st, "P", i)
	}
	return e[0], e[1]
}

// spec summarises a list of pieces; parts takes an element apart, and mk
// builds one.
func (c *splitting) spec(name, mode string, parts func(st *State, v Val) (a, b Lin, flag *bool, ok bool), mk func(a, b Lin, flag bool) Val) *ChainSpec {
	x := c.x
	flagged := mode == "flag" || mode == "noflag"
	sp := &ChainSpec{Name: name, All: flagged, Pure: true}
	sp.Init = func(x *Interp, st *State) []Val { return []Val{OpaqueV{Tag: "?"}, OpaqueV{Tag: "?"}} }
	sp.First = func(x *Interp, st *State, v Val) []Val {
		a, b, flag, ok := parts(st, v)
		dir, fl := "fwd", "-"
		if ok && flag != nil && !flagged {
			fl = "false"
			if *flag {
				fl = "true"
			}
		}
		if ok && !st.P.Reduce(a).IsK(0) && !flagged && !c.isPiece(st, K(0), a, b, false) {
			if l, known := x.inverse(st, "P", st.P.Reduce(b)); known && x.ProveEQ(st, l.Sub(c.N)) {
				dir = "rev"
			}
		}
		return []Val{OpaqueV{Tag: dir}, OpaqueV{Tag: fl}}
	}
	sp.Push = func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
		a, b, flag, ok := parts(st, v)
		rev := r[0].(OpaqueV).Tag == "rev"
		switch {
		case !ok:
		case flagged:
			want := mode == "flag"
			i, k1 := x.inverse(st, "P", st.P.Reduce(a))
			j, k2 := x.inverse(st, "P", st.P.Reduce(b))
			ok = k1 && k2 && flag != nil && !rev && x.ProveEQ(st, i.Sub(n)) && x.ProveEQ(st, j.Sub(n).AddK(-1)) && x.ProveGE(st, i) && x.ProveGE(st, c.N.AddK(-1).Sub(i))
			if ok {
				m := c.know(st, i)
				if *flag != want {
					m = m.AddK(0)
				} else {
					m = m.AddK(-1)
				}
				ok = x.ProveEQ(st, m)
			}
		default:
			if f := r[1].(OpaqueV).Tag; flag != nil && (f == "true") != *flag {
				ok = false
			}
			ok = ok && c.isPiece(st, n, a, b, rev)
		}
		if !st.unreachable() {
			x.Obl(rPieces, c.behaviour+"|"+name, c.pos, ok, "piece %s is %s, not what the behaviour asks for", st.P.Reduce(n), showVal(st, v))
		}
		return r
	}
	sp.Elem = func(x *Interp, st *State, r []Val, n, i Lin) []ElemOut {
		rev := r[0].(OpaqueV).Tag == "rev"
		if flagged {
			m := c.know(st, i)
			a, b := x.App(st, "P", i), x.App(st, "P", i.AddK(1))
			yes, no := x.ForkBool(st, FGE(m.AddK(-1)))
			var out []ElemOut
			for k, qs := range [][]*State{yes, no} {
				for _, q := range qs {
					q.P.AddEq(m.AddK(int64(k - 1)))
					x.relink(q)
					out = append(out, ElemOut{q, mk(a, b, (k == 0) == (mode == "flag"))})
				}
			}
			return out
		}
		a, b := c.piece(st, i, rev)
		return []ElemOut{{st, mk(a, b, r[1].(OpaqueV).Tag == "true")}}
	}
	sp.Reverse = func(x *Interp, st *State, ch *Chain) *Chain {
		if flagged || !x.ProveEQ(st, ch.N.Sub(c.T)) {
			return nil
		}
		d := "rev"
		if ch.R[0].(OpaqueV).Tag == "rev" {
			d = "fwd"
		}
		return &Chain{Spec: sp, N: ch.N, R: []Val{OpaqueV{Tag: d}, ch.R[1]}}
	}
	_ = x
	return sp
}

func (x *Interp) splitCase(st *State, behaviour, mode string) {
	fn := x.Method(nsPkg, "NormalizedString", "Split")
	c := &splitting{x: x, ct: x.captureType(), behaviour: behaviour, mode: mode, pos: x.Prog.Pos(fn.Pos())}
	ns := x.NewNS(st, "ns")
	b := ns.Norm
	src := c.cuts(st, b)
	x.Stubs["invoke:pattern.FindMatches"] = func(x *Interp, st *State, cc *ssa.CallCommon, a []Val) []Outcome {
		x.Obl(rSplitT, behaviour+"|text searched", x.Prog.Pos(cc.Pos()), x.isSub(st, a[1].(StrV), b, K(0), b.N), "the pattern is looked for in %s", showVal(st, a[1]))
		err := st.Clone()
		id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: c.N}}}, Elem: c.ct.T, Name: "captures", Shared: true})
		return []Outcome{{St: err, Ret: TupleV{NilV{}, OpaqueV{Tag: "err:pattern"}}}, {St: st, Ret: TupleV{SliceV{id, K(0), c.N}, NilV{}}}}
	}
	defer delete(x.Stubs, "invoke:pattern.FindMatches")
	old := x.Stubs[sliceName]
	x.Stubs[sliceName] = func(x *Interp, st *State, cc *ssa.CallCommon, a []Val) []Outcome {
		lo, hi, ok := x.isRange(a[1], "NormalizedRange")
		p, isP := a[0].(PtrV)
		x.Obl(rSplitT, behaviour+"|slice", x.Prog.Pos(cc.Pos()), ok && isP && p.Obj == ns.Ptr.Obj && len(p.Path) == 0, "Slice of %s with %s", showVal(st, a[0]), showVal(st, a[1]))
		return one(st, TupleV{OpaqueV{Tag: "piece", Idx: []Lin{lo, hi}}, BConst(true)})
	}
	defer func() { x.Stubs[sliceName] = old }()
	pt := types.NewPointer(ns.T)
	listMode := mode
	specs := map[string]*ChainSpec{}
	x.SpecFor = func(t types.Type) *ChainSpec {
		k := types.TypeString(t, nil)
		if s, ok := specs[k]; ok {
			return s
		}
		var s *ChainSpec
		if types.Identical(t, pt) {
			s = c.spec("result", "kept", func(st *State, v Val) (a, b Lin, flag *bool, ok bool) {
				o, isO := v.(OpaqueV)
				if !isO || o.Tag != "piece" {
					return
				}
				return o.Idx[0], o.Idx[1], nil, true
			}, func(a, b Lin, flag bool) Val { return OpaqueV{Tag: "piece", Idx: []Lin{a, b}} })
		} else if i, f, ok := shape(t); ok && i == 2 && f <= 1 {
			m := listMode
			if f == 0 && m != "" {
				m = "kept"
			}
			s = c.spec("list", m, func(st *State, v Val) (a, b Lin, flag *bool, ok bool) {
				var is []Lin
				var fs []*Formula
				if !leaves(v, &is, &fs) || len(is) != 2 {
					return
				}
				if len(fs) == 1 {
					f := x.Prove(st, fs[0])
					if !f && !x.Prove(st, FNot(fs[0])) {
						return
					}
					flag = &f
				}
				return is[0], is[1], flag, true
			}, func(a, b Lin, flag bool) Val { return mkPiece(t, &[]Lin{a, b}, flag) })
		}
		specs[k] = s
		return s
	}
	defer func() { x.SpecFor = nil }()
	n := 0
	st.Ambient()
	for _, o := range x.Run(st, fn, ns.Ptr, OpaqueV{Tag: "pattern"}, IntV{L: K(x.constInt(nsPkg, "SplitDelimiter"+behaviour))}) {
		s := o.St
		if o.Panic {
			x.Obl(rPieces, behaviour+"|panics", c.pos, false, "it panics")
			continue
		}
		t := o.Ret.(TupleV)
		if _, isNil := t[1].(NilV); !isNil || s.unreachable() {
			continue
		}
		n++
		sv, ok := t[0].(SliceV)
		if _, isNil := t[0].(NilV); isNil {
			sv, ok = SliceV{}, true
		}
		x.App(s, "D", c.N)
		if behaviour != "Removed" {
			x.App(s, "CUT", c.N)
			x.App(s, "D", c.N.AddK(1))
		}
		x.relink(s)
		ok = ok && x.ProveEQ(s, sv.Len.Sub(c.T))
		if ok && !x.ProveEQ(s, c.T) && !s.unreachable() {
			x.CheckStored(s, sv, pt)
			ch := x.ChainOf(s, sv, pt)
			ok = ch != nil && (ch.R[0].(OpaqueV).Tag != "rev")
		}
		if !s.unreachable() {
			x.Obl(rPieces, behaviour+"|all pieces", c.pos, ok, "%s pieces are returned in place of all of them, in order", showVal(s, t[0]))
		}
	}
	x.Obl(rPieces, behaviour+"|succeeds", c.pos, n > 0, "it never succeeds")
}
