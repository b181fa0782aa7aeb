package ai

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// The original alignments. The alignments of the normalized bytes are, by the
// contracts decided elsewhere, ordered, and those of two neighbours are equal or
// do not overlap: GS(i) is the first byte of those aligned like byte i.

const (
	rOrigEach = "every byte of the original text gets the range of the bytes aligned to it"
	rOrigLen  = "there are as many original alignments as bytes in the original text"
	rOrigKeep = "asking for the original alignments changes nothing"
)

// CheckC28 decides the original alignments.
func CheckC28(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	st := x.InitGlobals(NewState(), nsPkg)
	fn := x.Method(nsPkg, "NormalizedString", "OriginalAlignments")
	pos := x.Prog.Pos(fn.Pos())
	ns := x.newNS(st, "ns", true)
	n := ns.Norm.N
	gs := "GS"
	x.Decl(&Fam{Name: gs, Lo: I64(0), Keep: true, Link: func(x *Interp, st *State, i, g Lin) {
		st.P.AddGE(g)
		st.P.AddGE(i.Sub(g))
	}})
	// behind the last byte comes the end of the original text
	for _, f := range []string{ns.AS, ns.AE} {
		x.fams[f].N, x.fams[f].VN, x.fams[f].Inst = &n, &ns.Orig.N, true
	}
	// start adds what is known about g, the first byte aligned like byte i.
	start := func(st *State, i, g Lin) {
		st.P.AddEq(x.App(st, ns.AS, g).Sub(x.App(st, ns.AS, i)))
		st.P.AddEq(x.App(st, ns.AE, g).Sub(x.App(st, ns.AE, i)))
		if x.ProveGE(st, g.AddK(-1)) {
			st.P.AddGE(x.App(st, ns.AS, g).Sub(x.App(st, ns.AE, g.AddK(-1))))
		}
	}
	ns.Src.Elem = func(x *Interp, st *State, i Lin) []ElemOut {
		out := func(st *State) ElemOut {
			return ElemOut{st, ns.mkAl(x.App(st, ns.AS, i), x.App(st, ns.AE, i))}
		}
		if _, ok := x.Find(st, gs, i); ok {
			return []ElemOut{out(st)}
		}
		g := x.App(st, gs, i)
		var res []ElemOut
		yes, no := x.ForkBool(st, FGE(i.AddK(-1)))
		for _, q := range no {
			q.P.AddEq(g)
			res = append(res, out(q))
		}
		for _, q := range yes {
			p := i.AddK(-1)
			gp := x.App(q, gs, p)
			same, next := q, q.Clone()
			for _, f := range []string{ns.AS, ns.AE} {
				same.P.AddEq(x.App(same, f, i).Sub(x.App(same, f, p)))
			}
			same.P.AddEq(g.Sub(gp))
			next.P.AddGE(x.App(next, ns.AS, i).Sub(x.App(next, ns.AE, p)))
			next.P.AddGE(x.App(next, ns.AE, i).Sub(x.App(next, ns.AS, p)).AddK(-1)) // they differ
			next.P.AddEq(g.Sub(i))
			for _, q := range []*State{same, next} {
				if !q.unreachable() {
					res = append(res, out(q))
				}
			}
		}
		return res
	}
	sp := &ChainSpec{
		Name: "original alignments",
		All:  true, Fills: true,
		Init: func(x *Interp, st *State) []Val { return nil },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val { return nil },
		Check: func(x *Interp, st *State, o Lin, v Val) {
			if x.mute > 0 || st.unreachable() {
				return
			}
			ok := false
			if f, is := v.(StructV); is && len(f.F) == 2 {
				ok = x.isOrigEntry(st, ns, gs, start, o, n, f)
			}
			if !ok && x.Trace {
				fmt.Printf("REFUSED %s as entry %s in %s\n", showVal(st, v), o, st)
			}
			if !st.unreachable() {
				x.Obl(rOrigEach, "entry", pos, ok, "the original alignment %s of some byte may not be the range of the bytes aligned to it", showVal(st, v))
			}
		},
	}
	x.Spec(ns.AT, sp)
	defer x.Spec(ns.AT, nil)
	x.RulePanic, x.NoPanics, x.Peel = rNoPanic, true, true
	x.Tidy = true
	x.Hint = func(st *State) (Lin, bool) {
		// there are never more than there are bytes
		var l Lin
		found := false
		f := st.top()
		for _, v := range x.order(f) {
			s, ok := f.Env[v].(SliceV)
			if !ok || s.Obj == 0 || s.Obj == ns.Al || st.heap[s.Obj] == nil || x.specOf(st.heap[s.Obj].Elem) != sp {
				continue
			}
			if found && !st.P.Reduce(l.Sub(s.Len)).IsK(0) {
				return Lin{}, false
			}
			l, found = s.Len, true
		}
		return ns.Orig.N.Sub(l), found
	}
	st.SetGV("again", tagged("no"))
	some, empty := x.ForkBool(st, FGE(n.AddK(-1)))
	for _, st := range some {
		// the last byte is spoken of at the end
		l := n.AddK(-1)
		for _, f := range []string{gs, ns.AS, ns.AE} {
			x.fams[f].Always = []Lin{l}
			x.App(st, f, l)
		}
	}
	k := 0
	for _, st := range append(empty, some...) {
		if !st.unreachable() {
			st.Ambient()
			k += x.origRun(st, fn, ns, sp)
		}
	}
	x.Obl(rOrigLen, "returns", pos, k > 0, "it never returns")
	x.Close("original alignments")
	r.Min[rOrigEach], r.Min[rOrigLen], r.Min[rOrigKeep] = 1, 2, 2
}

// origRun decides OriginalAlignments from st and counts its results.
func (x *Interp) origRun(st *State, fn *ssa.Function, ns *NS, sp *ChainSpec) int {
	pos := x.Prog.Pos(fn.Pos())
	k := 0
	for _, o := range x.Run(st, fn, ns.Ptr) {
		q := o.St
		if q.unreachable() {
			continue
		}
		if o.Panic {
			x.Obl(rOrigEach, "panics", pos, false, "it panics")
			continue
		}
		k++
		x.Obl(rOrigLen, "length", pos, x.ProveEQ(q, x.lenOf(q, o.Ret).Sub(ns.Orig.N)), "there may be more or fewer original alignments than bytes")
		w, ok := x.ViewNS(q, ns, ns.Ptr)
		x.Obl(rOrigKeep, "unchanged", pos, ok && w.Al.Obj == ns.Al && x.ProveEQ(q, w.Al.Len.Sub(ns.Norm.N)), "the alignments of the string are replaced")
		if s, is := o.Ret.(SliceV); is {
			x.origAll(q.Clone(), s, sp)
			x.Obl(rOrigKeep, "own", pos, s.Obj != ns.Al, "the alignments of the string are handed out")
		}
	}
	return k
}

// isOrigEntry reports whether [s,e) are the bytes aligned to byte o: s is the
// first one whose alignment ends behind o, and e that whose alignment starts
// behind it.
func (x *Interp) isOrigEntry(st *State, ns *NS, gs string, start func(st *State, i, g Lin), o, n Lin, f StructV) bool {
	a, ok1 := f.F[ns.as].(IntV)
	b, ok2 := f.F[ns.ae].(IntV)
	if !ok1 || !ok2 {
		return false
	}
	s, e := a.L, b.L
	x.relink(st)
	known := func(st *State) {
		for _, m := range append([]memoEnt(nil), st.memo[gs]...) {
			if x.ProveEQ(st, m.v.Sub(s)) {
				start(st, m.idx, m.v)
			}
		}
	}
	if !x.ProveGE(st, s) || !x.ProveGE(st, e.Sub(s)) || !x.ProveGE(st, n.Sub(e)) {
		return false
	}
	at := func(q *State, f string, i Lin) Lin { return x.App(q, f, i) }
	each := func(c *Formula, p func(q *State) bool) bool {
		yes, _ := x.ForkBool(st.Clone(), c)
		for _, q := range yes {
			if known(q); !q.unreachable() && !p(q) {
				return false
			}
		}
		return true
	}
	return each(FGE(s.AddK(-1)), func(q *State) bool { return x.ProveGE(q, o.Sub(at(q, ns.AE, s.AddK(-1)))) }) &&
		each(FGE(n.Sub(s).AddK(-1)), func(q *State) bool { return x.ProveGE(q, at(q, ns.AE, s).Sub(o).AddK(-1)) }) &&
		each(FGE(e.AddK(-1)), func(q *State) bool { return x.ProveGE(q, o.Sub(at(q, ns.AS, e.AddK(-1)))) }) &&
		each(FGE(n.Sub(e).AddK(-1)), func(q *State) bool { return x.ProveGE(q, at(q, ns.AS, e).Sub(o).AddK(-1)) })
}

// origAll checks the elements of v that were not checked one by one.
func (x *Interp) origAll(st *State, v SliceV, sp *ChainSpec) {
	segs, ok := x.contents(st, v)
	if !ok {
		segs = []Seg{{Kind: sTop, N: v.Len}}
	}
	n := K(0)
	for i, s := range segs {
		switch {
		case s.Kind == sElems:
			for j, v := range s.Elems {
				sp.Check(x, st, n.AddK(int64(j)), v)
			}
		case s.Kind == sChain && i == 0 && s.C.Spec == sp:
		default:
			x.checkRun(st, sp, n, s)
		}
		n = n.Add(s.Len())
	}
}
