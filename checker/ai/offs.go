package ai

import (
	"go/types"
	"os"

	"gtcheck/core"
)

// Rune boundaries and rune offsets.

const (
	rBoundary = "an index is a boundary exactly when no rune straddles it"
	rRuneOf   = "every byte is mapped to the rune it belongs to"
	rConvert  = "converted offsets are those of the runes"
	rNoPanic  = "no index panics"
	suPkg     = "strutils"
)

// CheckC27 decides the boundary test and the offset converter.
func CheckC27(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	base := x.InitGlobals(NewState(), suPkg)
	c := os.Getenv("GTCASE")
	if c == "" || c == "boundary" {
		x.checkBoundary(base.Clone())
	}
	if c == "" || c == "convert" {
		x.checkConverter(base.Clone())
	}
	x.Close("rune offsets")
	r.Min[rBoundary], r.Min[rRuneOf], r.Min[rConvert] = 2, 1, 2
}

func (x *Interp) checkBoundary(st *State) {
	b := x.NewBase(st, "text")
	i := x.Fresh("index")
	st.SetG("@index", i)
	fn := x.Func(suPkg, "IsRuneBoundary")
	pos := x.Prog.Pos(fn.Pos())
	st.Ambient()
	x.RulePanic, x.NoPanics = rNoPanic, true
	outs := x.Run(st, fn, b.Whole(), IntV{L: i})
	x.RulePanic, x.NoPanics = rSafe, true
	x.Obl(rNoPanic, "IsRuneBoundary|analysed", pos, len(outs) > 0, "it never returns")
	for _, o := range outs {
		if o.Panic || o.St.unreachable() {
			continue
		}
		yes, no := x.ForkBool(o.St, x.boolOf(o.Ret))
		for _, s := range yes {
			x.ends(s, b)
			_, ok := x.IndexAt(s, b, s.G("@index"))
			if !s.unreachable() {
				x.Obl(rBoundary, "accepted", pos, ok, "an index inside a rune or outside the text may be accepted")
			}
		}
		for _, s := range no {
			ok := x.notBoundary(s, b, s.G("@index"))
			if !s.unreachable() {
				x.Obl(rBoundary, "rejected", pos, ok, "the start or end of a rune may be rejected")
			}
		}
	}
}

func (x *Interp) checkConverter(st *State) {
	b := x.NewBase(st, "text")
	ctor := x.Func(suPkg, "NewBytesToRuneOffsetConverter")
	fn := x.Method(suPkg, "BytesToRuneOffsetConverter", "Convert")
	pos := x.Prog.Pos(ctor.Pos())
	tint := types.Typ[types.Int]
	// isRune reports whether byte i is certainly part of rune k
	isRune := func(st *State, i, k Lin) bool {
		if !x.ProveGE(st, k) || !x.ProveGE(st, b.R.Sub(k).AddK(-1)) {
			return st.unreachable()
		}
		return x.ProveGE(st, i.Sub(x.App(st, b.posFam(), k))) && x.ProveGE(st, x.App(st, b.posFam(), k.AddK(1)).Sub(i).AddK(-1)) || st.unreachable()
	}
	x.Spec(tint, &ChainSpec{
		Name: "rune of byte",
		Init: func(x *Interp, st *State) []Val { return nil },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val { return nil },
		Check: func(x *Interp, st *State, n Lin, v Val) {
			ok := isRune(st, n, v.(IntV).L)
			x.Obl(rRuneOf, "mapping", pos, ok, "byte %s is mapped to rune %s", st.P.Reduce(n), st.P.Reduce(v.(IntV).L))
		},
		Elem: func(x *Interp, st *State, r []Val, n, i Lin) []ElemOut {
			return []ElemOut{{st, IntV{L: x.runeOfByte(st, b, i)}}}
		},
	})
	defer x.Spec(tint, nil)
	st.Ambient()
	x.RulePanic, x.NoPanics = rNoPanic, true
	defer func() { x.RulePanic = rSafe }()
	ot := x.Type(suPkg, "ByteOffsets")
	rt := x.Type(suPkg, "RuneOffsets")
	ret := 0
	for _, o := range x.Run(st, ctor, b.Whole()) {
		if o.Panic || o.St.unreachable() {
			continue
		}
		s := o.St
		x.ends(s, b)
		i, j := x.FreshNat(s, "start"), x.Fresh("end")
		s.P.AddGE(j.Sub(i))
		s.P.AddGE(b.N.Sub(j))
		s.SetG("@from", i)
		s.SetG("@to", j)
		f := make([]Val, 2)
		f[FieldIdx(ot, "Start")], f[FieldIdx(ot, "End")] = IntV{L: i}, IntV{L: j}
		for _, o := range x.Run(s, fn, o.Ret, StructV{f}) {
			if o.Panic || o.St.unreachable() {
				continue
			}
			ret++
			rv := o.Ret.(StructV)
			for _, e := range [][2]string{{"@from", "Start"}, {"@to", "End"}} {
				in, q := x.ForkBool(o.St.Clone(), FGE(b.N.Sub(o.St.G(e[0])).AddK(-1)))
				v := rv.F[FieldIdx(rt, e[1])].(IntV).L
				for _, s := range in {
					ok := isRune(s, s.G(e[0]), v)
					x.Obl(rConvert, e[1]+" inside", x.Prog.Pos(fn.Pos()), ok, "%s becomes %s", s.P.Reduce(s.G(e[0])), s.P.Reduce(v))
				}
				for _, s := range q {
					x.CheckEQ(s, rConvert, e[1]+" at the end", x.Prog.Pos(fn.Pos()), v.Sub(b.R), "the end of the text becomes %s", s.P.Reduce(v))
				}
			}
		}
	}
	x.Obl(rConvert, "returns", x.Prog.Pos(fn.Pos()), ret > 0, "it never returns")
}
