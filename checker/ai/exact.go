package ai

// What a range of the original text is converted to, exactly.

const rExact = "a range of the original text is converted to all the text that comes from it"

// checkExact verifies CoerceRangeToNormalized for ranges of the original text
// that are not empty. The result ends after the last byte that comes from
// before the end of the range; it starts at the first byte that comes from
// characters of the range, or is empty if there is none; it fails if no byte
// comes from before the end.
//
// Which bytes come first is shown for an arbitrary byte of the text (the
// witness), which is classified when its alignment is read.
func (x *Interp) checkExact(st *State) {
	ns := x.newNS(st, "ns", true)
	rg := x.anyRange(st, "OriginalRange")
	st.P.AddGE(rg.b.Sub(rg.a).AddK(-1))
	st.SetG("@wit", x.FreshNat(st, "wit"))
	st.SetGV("over", OpaqueV{Tag: "no"})
	st.SetGV("class", OpaqueV{Tag: "unseen"})
	elem := ns.Src.Elem
	ns.Src.Elem = func(x *Interp, st *State, i Lin) []ElemOut {
		class := st.GV("class").(OpaqueV).Tag
		if class == "other" {
			return elem(x, st, i)
		}
		here, other := x.ForkBool(st, FEQ(i.Sub(st.G("@wit"))))
		var out []ElemOut
		for _, s := range other {
			// the end of the range is kept apart from the end of the text
			in, over := x.ForkBool(s, FGE(rg.in(s).b.Sub(x.App(s, ns.AE, i))))
			for _, s := range in {
				out = append(out, elem(x, s, i)...)
			}
			for _, s := range over {
				s.SetGV("over", OpaqueV{Tag: "yes"})
				out = append(out, elem(x, s, i)...)
			}
		}
		for _, s := range here {
			if class == "fits" {
				out = append(out, elem(x, s, i)...)
				continue
			}
			rg := rg.in(s)
			as, ae := x.App(s, ns.AS, i), x.App(s, ns.AE, i)
			set := func(ss []*State, class string) {
				for _, s := range ss {
					s.SetGV("class", OpaqueV{Tag: class})
					out = append(out, elem(x, s, i)...)
				}
			}
			in, before := x.ForkBool(s, FGE(as.Sub(rg.a)))
			set(before, "other")
			for _, s := range in {
				wide, empty := x.ForkBool(s, FGE(ae.Sub(as).AddK(-1)))
				set(wide, "fits")
				set(empty, "other")
			}
		}
		return out
	}
	fn := x.Method(nsPkg, "NormalizedString", "CoerceRangeToNormalized")
	pos := x.Prog.Pos(fn.Pos())
	key := "exact|"
	st.Ambient()
	peel := x.Peel
	x.Peel, pairWiden = true, true
	defer func() { x.Peel, pairWiden = peel, false }()
	good, bad := 0, 0
	for _, o := range x.Run(st, fn, ns.Ptr, rg.val) {
		if o.Panic || o.St.unreachable() {
			continue
		}
		rg := rg.in(o.St)
		t := o.Ret.(TupleV)
		yes, no := x.ForkBool(o.St, x.boolOf(t[1]))
		for _, s := range no {
			bad++
			some, _ := x.ForkBool(s, FGE(ns.Norm.N.AddK(-1)))
			for _, q := range some {
				ok := x.ProveGE(q, x.App(q, ns.AE, K(0)).Sub(rg.b).AddK(-1))
				if !q.unreachable() {
					x.Obl(rExact, key+"refused", pos, ok, "a range may be refused although text comes from before its end")
				}
			}
		}
		for _, s := range yes {
			lo, hi, ok := x.isRange(t[0], "NormalizedRange")
			if !ok {
				x.Obl(rExact, key+"result", pos, false, "the result is not a range of the normalized text")
				continue
			}
			good++
			x.Saturate(s)
			class := s.GV("class").(OpaqueV).Tag
			if s.unreachable() || class == "other" {
				continue
			}
			if class == "fits" {
				wit := s.G("@wit")
				ok := x.ProveGE(s, wit.Sub(lo)) || x.ProveGE(s, wit.Sub(hi))
				if !s.unreachable() {
					x.Obl(rExact, key+"first", pos, ok, "a byte before the range may come from a character of it")
				}
				continue
			}
			// unseen: this includes all executions, as there may be no such byte
			ok = x.ProveGE(s, hi.AddK(-1)) && x.ProveGE(s, ns.Norm.N.Sub(hi))
			x.Obl(rExact, key+"something", pos, ok, "it may succeed with the range %s..%s, although no text comes from before the end", s.P.Reduce(lo), s.P.Reduce(hi))
			if !ok {
				continue
			}
			// the end
			ok = x.ProveGE(s, rg.b.Sub(x.App(s, ns.AE, hi.AddK(-1))))
			x.Obl(rExact, key+"end", pos, ok, "the last byte may come from after the range")
			more, _ := x.ForkBool(s.Clone(), FGE(ns.Norm.N.Sub(hi).AddK(-1)))
			for _, q := range more {
				ok := x.ProveGE(q, x.App(q, ns.AE, hi).Sub(rg.b).AddK(-1))
				if !q.unreachable() {
					x.Obl(rExact, key+"next", pos, ok, "the byte after the range may come from before its end")
				}
			}
			// the start
			some, _ := x.ForkBool(s.Clone(), FGE(hi.Sub(lo).AddK(-1)))
			for _, q := range some {
				as := x.App(q, ns.AS, lo)
				ok := x.ProveGE(q, as.Sub(rg.a)) && x.ProveGE(q, x.App(q, ns.AE, lo).Sub(as).AddK(-1))
				if !q.unreachable() {
					x.Obl(rExact, key+"start", pos, ok, "the first byte may come from no character of the range")
				}
			}
			x.Obl(rExact, key+"forward", pos, x.ProveGE(s, hi.Sub(lo)) && x.ProveGE(s, lo), "it may be %s..%s", s.P.Reduce(lo), s.P.Reduce(hi))
			ok = x.ProveGE(s, s.G("@wit").Sub(hi))
			if !s.unreachable() {
				x.Obl(rExact, key+"unseen", pos, ok, "a byte inside the range is not looked at")
			}
		}
	}
	x.Obl(rExact, key+"succeeds", pos, good > 0, "it never succeeds")
	x.Obl(rExact, key+"fails", pos, bad > 0, "it never fails")
}
