package ai

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

const rWriters = "normalized strings are only made and changed by the operations analysed"

// CheckWriters requires that every function of the module that writes one of
// the given fields of a normalized string, or makes one from parts, has been
// analysed as part of an operation.
func (x *Interp) CheckWriters(fields ...string) {
	ns := x.Type(nsPkg, "NormalizedString")
	idx := map[int]bool{}
	for _, f := range fields {
		idx[FieldIdx(ns, f)] = true
	}
	isNS := func(t types.Type) bool { return types.Identical(t, ns) }
	isPtr := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && isNS(p.Elem())
	}
	mk := x.Func(nsPkg, "New")
	n := 0
	for _, fn := range x.Prog.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				what := ""
				switch v := in.(type) {
				case *ssa.FieldAddr:
					if isPtr(v.X.Type()) && idx[v.Field] {
						for _, r := range *v.Referrers() {
							if u, ok := r.(*ssa.UnOp); ok && u.X == v {
								continue
							}
							if _, ok := r.(*ssa.DebugRef); ok {
								continue
							}
							what = "writes " + ns.Underlying().(*types.Struct).Field(v.Field).Name()
						}
					}
				case *ssa.Store:
					if isNS(v.Val.Type()) {
						what = "writes a whole normalized string"
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(mk) {
						what = "makes a normalized string from parts"
					}
				}
				if what == "" {
					continue
				}
				n++
				x.Obl(rWriters, core.Short(fn.String())+"|"+what, x.Prog.Pos(in.Pos()), x.Inlined[fn], "%s %s, and is no part of an operation that was analysed", core.Short(fn.String()), what)
			}
		}
	}
	x.Obl(rWriters, "found", "", n > 0, "no function makes normalized strings")
}

// watchShared makes writes to the alignments of a string that exist already
// violations.
func (x *Interp) watchShared(ns *NS, key string) func() {
	x.OnStore = func(x *Interp, st *State, p PtrV, v Val, pos token.Pos) {
		if p.Obj == ns.Al {
			x.Obl(rAlias, key+"|element", x.Prog.Pos(pos), false, "%s overwrites an alignment in place, which a slice may share", key)
		}
	}
	x.OnSharedAppend = func(x *Interp, st *State, s SliceV, pos token.Pos) {
		if s.Obj == ns.Al && !x.ProveEQ(st, s.Off.Add(s.Len).Sub(ns.Norm.N)) {
			x.Obl(rAlias, key+"|append", x.Prog.Pos(pos), false, "%s appends behind a part of the alignments, overwriting those that follow", key)
		}
	}
	return func() { x.OnStore, x.OnSharedAppend = nil, nil }
}

// CheckAccessors verifies what is reported about an arbitrary normalized string.
func (x *Interp) CheckAccessors(base *State) {
	type want func(s *State, ns *NS, v Val) bool
	num := func(l func(ns *NS) Lin) want {
		return func(s *State, ns *NS, v Val) bool {
			i, ok := v.(IntV)
			return ok && x.ProveEQ(s, i.L.Sub(l(ns)))
		}
	}
	for _, c := range []struct {
		name, rule string
		ok         want
	}{
		{"Get", rText, func(s *State, ns *NS, v Val) bool {
			t, ok := v.(StrV)
			return ok && x.isSub(s, t, ns.Norm, K(0), ns.Norm.N)
		}},
		{"GetOriginal", rOrig, func(s *State, ns *NS, v Val) bool {
			t, ok := v.(StrV)
			return ok && x.isSub(s, t, ns.Orig, K(0), ns.Orig.N)
		}},
		{"Len", rText, num(func(ns *NS) Lin { return ns.Norm.N })},
		{"OriginalLen", rOrig, num(func(ns *NS) Lin { return ns.Orig.N })},
		{"IsEmpty", rText, func(s *State, ns *NS, v Val) bool {
			f := x.boolOf(v)
			e := FEQ(ns.Norm.N)
			return x.Prove(s, FOr(FAnd(f, e), FAnd(FNot(f), FNot(e))))
		}},
		{"OriginalOffsets", rPlace, func(s *State, ns *NS, v Val) bool {
			f, ok := v.(StructV)
			if !ok || len(f.F) != 2 {
				return false
			}
			t := x.Type("strutils", "ByteOffsets")
			a, ok1 := f.F[FieldIdx(t, "Start")].(IntV)
			b, ok2 := f.F[FieldIdx(t, "End")].(IntV)
			return ok1 && ok2 && x.ProveEQ(s, a.L.Sub(ns.Shift)) && x.ProveEQ(s, b.L.Sub(ns.Shift).Sub(ns.Orig.N))
		}},
	} {
		st := base.Clone()
		ns := x.newNS(st, "ns", true)
		ns.Orig.Track = true
		fn := x.Method(nsPkg, "NormalizedString", c.name)
		pos := x.Prog.Pos(fn.Pos())
		n := 0
		for _, o := range x.Run(st, fn, ns.Ptr) {
			if o.Panic || o.St.unreachable() {
				continue
			}
			n++
			ok := c.ok(o.St, ns, o.Ret)
			if !o.St.unreachable() {
				x.Obl(c.rule, c.name+"|reports", pos, ok, "%s reports %s", c.name, showVal(o.St, o.Ret))
			}
			x.unchangedNS(o.St, ns, c.name, pos)
		}
		x.Obl(c.rule, c.name+"|returns", pos, n > 0, "%s never returns", c.name)
	}
}
