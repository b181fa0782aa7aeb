package ai

import (
	"go/types"

	"gtcheck/core"
)

// modelOptions decides what the options of the models do, and that the default
// models are those with the documented defaults.
func modelOptions(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	x.Only = map[string]bool{rOption: true, rDecor: true, rBpeUnk: true, rLookup: true, rUnknown: true}
	x.bpeModel(x.InitGlobals(NewState(), bpePkg))
	x.Specs = nil
	x.Stubs = map[string]Stub{}
	x.wordPiece(x.InitGlobals(NewState(), wpPkg))
	x.Close("models")
	d := newRun(p, r)
	num := func(k int64) Val { return IntV{L: K(k)} }
	d.defaultModel(wpPkg, "WordPieceModel", func(voc, _ Val) []Val {
		return []Val{voc, Lit("[UNK]"), Lit("##"), num(100)}
	})
	d.defaultModel(bpePkg, "BPEModel", func(voc, merges Val) []Val {
		return []Val{voc, merges, num(10000), FloatV{"0"}, Lit(""), Lit(""), Lit(""), BConst(false)}
	})
	d.Close("default models")
	r.Min[rDecor], r.Min[rBpeUnk], r.Min[rLookup], r.Min[rUnknown] = 3, 3, 1, 2
}

// defaultModel compares the default model with the one that New makes of args.
func (x *Interp) defaultModel(pkg, name string, args func(voc, merges Val) []Val) {
	st := x.InitGlobals(NewState(), pkg, "vocabulary")
	def := x.Func(pkg, "NewDefault")
	pos := x.Prog.Pos(def.Pos())
	one := func(st *State, pkg, fn string, args ...Val) (*State, Val) {
		outs := x.Run(st, x.Func(pkg, fn), args...)
		if len(outs) != 1 || outs[0].Panic {
			x.Obl(rOption, name+"|constructor", pos, false, "%s has %d outcomes", fn, len(outs))
			return st, nil
		}
		return outs[0].St, outs[0].Ret
	}
	var voc, merges, want, got Val
	st, voc = one(st, "vocabulary", "NewVocabulary")
	if pkg == bpePkg {
		st, merges = one(st, bpePkg, "NewMergeMap")
	}
	st, want = one(st, pkg, "New", args(voc, merges)...)
	st, got = one(st, pkg, "NewDefault")
	if want == nil || got == nil {
		return
	}
	a, ok1 := want.(PtrV)
	b, ok2 := got.(PtrV)
	if !ok1 || !ok2 {
		x.Obl(rOption, name+"|default", pos, false, "the default model is %s", showVal(st, got))
		return
	}
	sa, ok1 := st.heap[a.Obj].V.(StructV)
	sb, ok2 := st.heap[b.Obj].V.(StructV)
	s, _ := st.heap[a.Obj].Elem.Underlying().(*types.Struct)
	if !ok1 || !ok2 || s == nil || len(sa.F) != len(sb.F) {
		x.Obl(rOption, name+"|default", pos, false, "the default model is %s", showVal(st, got))
		return
	}
	for i := range sa.F {
		f := s.Field(i)
		// how much is remembered makes no difference
		ok := isCache(f.Type()) && isPtr(sb.F[i]) || x.alike(st, sa.F[i], sb.F[i], 8)
		x.Obl(rOption, name+"|default "+f.Name(), pos, ok, "field %s of the default model is %s instead of %s", f.Name(), showVal(st, sb.F[i]), showVal(st, sa.F[i]))
	}
}

func isPtr(v Val) bool { _, ok := v.(PtrV); return ok }

func isCache(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "WordCache"
}

// alike reports whether a and b are equal, where pointers and maps are equal
// if what they lead to is.
func (x *Interp) alike(st *State, a, b Val, depth int) bool {
	if depth == 0 {
		return false
	}
	switch a := a.(type) {
	case NilV:
		_, ok := b.(NilV)
		return ok
	case IntV:
		c, ok := b.(IntV)
		return ok && x.ProveEQ(st, a.L.Sub(c.L))
	case BoolV:
		c, ok := b.(BoolV)
		return ok && a.F.Op == fConst && c.F.Op == fConst && a.F.B == c.F.B
	case FloatV:
		c, ok := b.(FloatV)
		return ok && a.Key == c.Key
	case StrV:
		c, ok := b.(StrV)
		if !ok {
			return false
		}
		u, ok1 := asLit(a)
		w, ok2 := asLit(c)
		return ok1 && ok2 && u == w
	case StructV:
		c, ok := b.(StructV)
		if !ok || len(a.F) != len(c.F) {
			return false
		}
		for i := range a.F {
			if !x.alike(st, a.F[i], c.F[i], depth-1) {
				return false
			}
		}
		return true
	case PtrV:
		c, ok := b.(PtrV)
		if !ok || len(a.Path) > 0 || len(c.Path) > 0 || st.heap[a.Obj] == nil || st.heap[c.Obj] == nil {
			return false
		}
		return a.Obj == c.Obj || x.alike(st, st.heap[a.Obj].V, st.heap[c.Obj].V, depth-1)
	case MapV:
		c, ok := b.(MapV)
		return ok && (a.Obj == c.Obj || emptyMap(st, a) && emptyMap(st, c))
	}
	return false
}

func emptyMap(st *State, m MapV) bool {
	o := st.heap[m.Obj]
	return o != nil && o.Map != nil && o.Map.Len != nil && st.P.Reduce(*o.Map.Len).IsK(0) && len(o.Map.Ents) == 0
}
