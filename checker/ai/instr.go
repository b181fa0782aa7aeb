package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

type typ = types.Type

func resultType(s *types.Signature) types.Type {
	switch s.Results().Len() {
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

// key identifies a place in the function being analysed.
func (x *Interp) key(pos token.Pos) string {
	if len(x.stack) == 0 {
		return "?"
	}
	fn := x.stack[len(x.stack)-1]
	line := 0
	if pos.IsValid() {
		line = x.Prog.Fset.Position(pos).Line - x.Prog.Fset.Position(fn.Pos()).Line
	}
	return fmt.Sprintf("%s+%d", core.Short(fn.String()), line)
}

func (x *Interp) boolOf(v Val) *Formula {
	switch v := v.(type) {
	case BoolV:
		return v.F
	}
	panic(fmt.Sprintf("boolean %T", v))
}

// fact is an opaque boolean.
func (x *Interp) fact(st *State, name string) *Formula {
	fam := "?" + name
	if x.fams[fam] == nil {
		x.Decl(&Fam{Name: fam, OnNew: func(x *Interp, st *State, i, v Lin) {
			st.P.AddGE(v)
			st.P.AddGE(K(1).Sub(v))
		}})
	}
	return FEQ(x.App(st, fam, K(0)).AddK(-1))
}

// predicate is an opaque boolean function of an integer.
func (x *Interp) predicate(st *State, name string, arg Lin) *Formula {
	fam := "?" + name
	if x.fams[fam] == nil {
		x.Decl(&Fam{Name: fam, OnNew: func(x *Interp, st *State, i, v Lin) {
			st.P.AddGE(v)
			st.P.AddGE(K(1).Sub(v))
		}})
	}
	return FEQ(x.App(st, fam, arg).AddK(-1))
}

func (x *Interp) freshBool(st *State) *Formula {
	v := x.Fresh("bool")
	st.P.AddGE(v)
	st.P.AddGE(K(1).Sub(v))
	return FEQ(v.AddK(-1))
}

// Prove tries to establish f.
func (x *Interp) Prove(st *State, f *Formula) bool {
	switch x.Decide(st, f) {
	case 1:
		return true
	case -1:
		return st.P.bot
	}
	switch f.Op {
	case fAnd:
		return x.Prove(st, f.X) && x.Prove(st, f.Y)
	case fGE:
		return x.ProveGE(st, f.L)
	case fEQ:
		return x.ProveEQ(st, f.L)
	case fNE:
		return x.ProveNE(st, f.L)
	case fOr:
		for _, s := range x.Assume(st.Clone(), FNot(f.X)) {
			if !x.Prove(s, f.Y) && !s.P.bot && !s.dead {
				return false
			}
		}
		return true
	case fSet:
		x.Saturate(st)
		return x.Decide(st, f) == 1 || st.P.bot || st.dead
	}
	return false
}

// require is a run-time check: execution goes on where f holds.
func (x *Interp) require(st *State, f *Formula, what string, pos token.Pos) []*State {
	if x.NoPanics {
		if (what == "make" || what == "slice") && x.MakeHint != nil {
			x.MakeHint(st)
		}
		ok := x.Prove(st, f)
		if st.P.bot || st.dead {
			return nil
		}
		if !ok && (what == "make" || what == "slice") && x.MakeHint != nil {
			ok = true
			for _, s := range x.Assume(st.Clone(), FNot(f)) {
				x.relink(s)
				ok = ok && (s.unreachable() || x.Saturated(s))
			}
		}
		d := ""
		if !ok {
			d = "cannot show " + trunc(f.String(), 200)
			if x.Trace {
				fmt.Printf("UNPROVED %s at %s: %s\n%s\n", what, x.Prog.Pos(pos), d, st)
			}
		}
		x.Obl(x.RulePanic, x.key(pos)+"|"+what, x.Prog.Pos(pos), ok, "%s %s", what, d)
		if ok {
			return []*State{st}
		}
	}
	return x.Assume(st, f)
}

func (x *Interp) panicObl(st *State, what string, pos token.Pos) {
	if !x.NoPanics {
		return
	}
	x.Saturate(st)
	if st.dead || st.P.bot || st.P.Unsat() {
		return
	}
	if x.Trace {
		fmt.Printf("REACHED %s at %s\n%s\n", what, x.Prog.Pos(pos), st)
	}
	x.Obl(x.RulePanic, x.key(pos)+"|"+what, x.Prog.Pos(pos), false, "%s is reached", what)
}

func isBuilder(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder"
}

// zero is the zero value of t.
func (x *Interp) zero(t types.Type) Val {
	if isBuilder(t) {
		return BuilderV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BConst(false)
		case u.Info()&types.IsInteger != 0:
			return IntV{L: K(0)}
		case u.Info()&types.IsFloat != 0:
			return FloatV{"0"}
		case u.Info()&types.IsString != 0:
			return StrV{}
		}
		return NilV{}
	case *types.Struct:
		s := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := ArrV{}
		for i := int64(0); i < u.Len() && i <= 64; i++ {
			a.E = append(a.E, x.zero(u.Elem()))
		}
		return a
	case *types.Slice:
		return SliceV{}
	case *types.Tuple:
		t := TupleV{}
		for i := 0; i < u.Len(); i++ {
			t = append(t, x.zero(u.At(i).Type()))
		}
		return t
	}
	return NilV{}
}

const bigArray = 64

func (x *Interp) newCell(st *State, t types.Type) ObjID {
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() > bigArray {
		return x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sFill, Zero: x.zero(a.Elem()), N: K(a.Len())}}}, Elem: a.Elem(), Name: "big array"})
	}
	return x.NewObj(st, &Obj{V: x.zero(t), Elem: t})
}

func (x *Interp) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	b, _ := c.Type().Underlying().(*types.Basic)
	switch c.Value.Kind() {
	case constant.Bool:
		return BConst(constant.BoolVal(c.Value))
	case constant.String:
		return Lit(constant.StringVal(c.Value))
	}
	if b != nil && b.Info()&types.IsFloat != 0 {
		return FloatV{c.Value.ExactString()}
	}
	if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
		return IntV{L: K(n)}
	}
	return FloatV{c.Value.ExactString()}
}

func (x *Interp) eval(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalPtr(st, v)
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Builtin:
		return v
	}
	r, ok := st.top().Env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, st.top().Fn))
	}
	return r
}

func (x *Interp) globalPtr(st *State, g *ssa.Global) Val {
	if g.Pkg == nil || !core.InModulePath(g.Pkg.Pkg.Path()) {
		return OpaqueV{Tag: "&" + g.String()}
	}
	id, ok := x.Global[g]
	if !ok {
		x.nobj++
		id = x.nobj
		x.Global[g] = id
	}
	if st.heap[id] == nil {
		t := g.Type().(*types.Pointer).Elem()
		o := &Obj{Elem: t, Name: g.String(), Shared: true}
		o.V = x.Havoc(st, t, "global "+g.String())
		st.heap[id] = o
	}
	return PtrV{Obj: id}
}

// resolve follows cells moved into sequences.
func (x *Interp) resolve(st *State, p PtrV) PtrV {
	for {
		o := st.heap[p.Obj]
		if o == nil || o.Fwd == nil {
			return p
		}
		p = PtrV{o.Fwd.Obj, append(append([]PathEl(nil), o.Fwd.Path...), p.Path...)}
	}
}

// load reads through a pointer.
func (x *Interp) load(st *State, p Val, t types.Type, pos token.Pos) []ElemOut {
	switch v := p.(type) {
	case OpaqueV:
		if strings.HasPrefix(v.Tag, "&") {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface:
				return []ElemOut{{st, OpaqueV{Tag: "g:" + v.Tag[1:]}}}
			}
			return []ElemOut{{st, x.Havoc(st, t, v.Tag)}}
		}
		if q, ok := x.materialise(st, v); ok {
			return x.load(st, q, t, pos)
		}
		x.Unsupported("load "+v.Tag+" at "+x.Prog.Pos(pos), "load through an unknown pointer")
		return []ElemOut{{st, x.Havoc(st, t, "load")}}
	case NilV:
		x.panicObl(st, "nil dereference", pos)
		return nil
	case PtrV:
		v = x.resolve(st, v)
		o := st.heap[v.Obj]
		if o == nil {
			panic("dangling pointer")
		}
		if o.Bad != "" {
			return []ElemOut{{st, x.Havoc(st, t, o.Bad)}}
		}
		if o.Seq != nil {
			if len(v.Path) == 0 {
				if len(o.Seq.Segs) == 1 && o.Seq.Segs[0].Kind == sElems {
					return []ElemOut{{st, ArrV{o.Seq.Segs[0].Elems}}}
				}
				return []ElemOut{{st, ArrSeqV{o.Seq}}}
			}
			var out []ElemOut
			for _, e := range x.readAt(st, v.Obj, v.Path[0].Idx) {
				out = append(out, x.walk(e.St, e.V, v.Path[1:], t)...)
			}
			return out
		}
		return x.walk(st, o.V, v.Path, t)
	}
	panic(fmt.Sprintf("load through %T", p))
}

func (x *Interp) materialise(st *State, v OpaqueV) (PtrV, bool) {
	f := x.tagLoads[v.Tag]
	if f == nil {
		return PtrV{}, false
	}
	for _, m := range st.mats[v.Tag] {
		if len(v.Idx) == 0 || st.P.EntailsEQ(m.idx.Sub(v.Idx[0])) {
			return PtrV{Obj: m.obj}, true
		}
	}
	p := f(x, st, v)
	idx := K(0)
	if len(v.Idx) > 0 {
		idx = v.Idx[0]
	}
	st.mats[v.Tag] = append(st.mats[v.Tag], matEnt{idx, p.Obj})
	return p, true
}

func (x *Interp) walk(st *State, v Val, path []PathEl, t types.Type) []ElemOut {
	for i, e := range path {
		v = (v)
		if !e.IsIdx {
			s, ok := v.(StructV)
			if !ok {
				return []ElemOut{{st, x.Havoc(st, t, "field")}}
			}
			v = s.F[e.Field]
			continue
		}
		a, ok := v.(ArrV)
		if !ok {
			return []ElemOut{{st, x.Havoc(st, t, "index")}}
		}
		if c, ok := st.P.Reduce(e.Idx).Const(); ok && c >= 0 && c < int64(len(a.E)) {
			v = a.E[c]
			continue
		}
		var out []ElemOut
		for c, el := range a.E {
			for _, s := range x.Assume(st.Clone(), FEQ(e.Idx.AddK(-int64(c)))) {
				out = append(out, x.walk(s, el, path[i+1:], t)...)
			}
		}
		return out
	}
	return []ElemOut{{st, v}}
}

// update replaces the part of old at path by v.
func (x *Interp) update(st *State, old Val, path []PathEl, v Val) []ElemOut {
	if len(path) == 0 {
		return []ElemOut{{st, v}}
	}
	old = (old)
	e := path[0]
	if !e.IsIdx {
		s, ok := old.(StructV)
		if !ok {
			panic(fmt.Sprintf("field of %T", old))
		}
		var out []ElemOut
		for _, n := range x.update(st, s.F[e.Field], path[1:], v) {
			f := append([]Val(nil), s.F...)
			f[e.Field] = n.V
			out = append(out, ElemOut{n.St, StructV{f}})
		}
		return out
	}
	a, ok := old.(ArrV)
	if !ok {
		panic(fmt.Sprintf("element of %T", old))
	}
	var out []ElemOut
	one := func(st *State, c int) {
		for _, n := range x.update(st, a.E[c], path[1:], v) {
			f := append([]Val(nil), a.E...)
			f[c] = n.V
			out = append(out, ElemOut{n.St, ArrV{f}})
		}
	}
	if c, ok := st.P.Reduce(e.Idx).Const(); ok && c >= 0 && c < int64(len(a.E)) {
		one(st, int(c))
		return out
	}
	for c := range a.E {
		for _, s := range x.Assume(st.Clone(), FEQ(e.Idx.AddK(-int64(c)))) {
			one(s, c)
		}
	}
	return out
}

// store writes through a pointer.
func (x *Interp) store(st *State, p, v Val, pos token.Pos) []*State {
	switch q := p.(type) {
	case NilV:
		x.panicObl(st, "nil dereference", pos)
		return nil
	case OpaqueV:
		if r, ok := x.materialise(st, q); ok {
			return x.store(st, r, v, pos)
		}
		x.Unsupported("store "+q.Tag+" at "+x.Prog.Pos(pos), "store through an unknown pointer")
		return []*State{st}
	case PtrV:
		q = x.resolve(st, q)
		o := st.heap[q.Obj]
		if o.Name == "copy" {
			x.Unsupported("store at "+x.Prog.Pos(pos), "store into a summarised object")
			return []*State{st}
		}
		if x.OnStore != nil {
			x.OnStore(x, st, q, v, pos)
		}
		if o.Bad != "" {
			return []*State{st}
		}
		if o.Seq != nil {
			if len(q.Path) == 0 {
				n := *o
				if a, ok := v.(ArrV); ok {
					n.Seq = &Seq{[]Seg{{Kind: sElems, Elems: a.E}}}
				} else if a, ok := v.(ArrSeqV); ok {
					n.Seq = a.S
				} else {
					n.Bad = "array store"
				}
				n.Reads = nil
				st.heap[q.Obj] = &n
				return []*State{st}
			}
			return x.storeAt(st, q.Obj, q.Path[0].Idx, func(s *State, old Val) []ElemOut {
				var out []ElemOut
				for _, e := range x.update(s, old, q.Path[1:], v) {
					out = append(out, ElemOut{e.St, (e.V)})
				}
				return out
			})
		}
		x.thaw(o)
		var out []*State
		for _, e := range x.update(st, o.V, q.Path, v) {
			n := *e.St.heap[q.Obj]
			n.V = e.V
			e.St.heap[q.Obj] = &n
			out = append(out, e.St)
		}
		return out
	}
	panic(fmt.Sprintf("store through %T", p))
}

func (p PtrV) at(e PathEl) PtrV {
	return PtrV{p.Obj, append(append([]PathEl(nil), p.Path...), e)}
}

func within(i, n Lin) *Formula { return FAnd(FGE(i), FGE(n.Sub(i).AddK(-1))) }

// step runs one instruction.
func (x *Interp) step(st *State, in ssa.Instruction) []Outcome {
	set := func(s *State, v Val) []Outcome {
		s.top().Env[in.(ssa.Value)] = v
		return []Outcome{{St: s}}
	}
	many := func(es []ElemOut) []Outcome {
		var out []Outcome
		for _, e := range es {
			out = append(out, set(e.St, e.V)...)
		}
		return out
	}
	plainOut := func(ss []*State) []Outcome {
		var out []Outcome
		for _, s := range ss {
			out = append(out, Outcome{St: s})
		}
		return out
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return []Outcome{{St: st}}
	case *ssa.Alloc:
		return set(st, PtrV{Obj: x.newCell(st, in.Type().(*types.Pointer).Elem())})
	case *ssa.BinOp:
		x.bitCmp = onlyCompared(in)
		return many(x.binop(st, in.Op, x.eval(st, in.X), x.eval(st, in.Y), in.X.Type(), in.Pos()))
	case *ssa.UnOp:
		v := x.eval(st, in.X)
		switch in.Op {
		case token.MUL:
			return many(x.load(st, v, in.Type(), in.Pos()))
		case token.NOT:
			return set(st, BoolV{FNot(x.boolOf(v))})
		case token.SUB:
			if f, ok := v.(FloatV); ok {
				return set(st, FloatV{"-" + f.Key})
			}
			return set(st, IntV{L: v.(IntV).L.Neg()})
		case token.XOR:
			return set(st, IntV{L: v.(IntV).L.Neg().AddK(-1)})
		}
	case *ssa.Store:
		return plainOut(x.store(st, x.eval(st, in.Addr), x.eval(st, in.Val), in.Pos()))
	case *ssa.FieldAddr:
		switch p := x.eval(st, in.X).(type) {
		case PtrV:
			return set(st, p.at(PathEl{Field: in.Field}))
		case NilV:
			x.panicObl(st, "nil dereference", in.Pos())
			return nil
		case OpaqueV:
			if q, ok := x.materialise(st, p); ok {
				return set(st, q.at(PathEl{Field: in.Field}))
			}
			x.Unsupported("field of "+p.Tag+" at "+x.Prog.Pos(in.Pos()), "field of an unknown object")
			t := in.Type().(*types.Pointer).Elem()
			return set(st, PtrV{Obj: x.NewObj(st, &Obj{V: x.Havoc(st, t, "field"), Elem: t})})
		}
	case *ssa.Field:
		v := (x.eval(st, in.X))
		if s, ok := v.(StructV); ok {
			return set(st, s.F[in.Field])
		}
		return set(st, x.Havoc(st, in.Type(), "field"))
	case *ssa.IndexAddr:
		i := x.eval(st, in.Index).(IntV).L
		switch p := x.eval(st, in.X).(type) {
		case SliceV:
			var out []Outcome
			for _, s := range x.require(st, within(i, p.Len), "index", in.Pos()) {
				if p.Obj == 0 {
					continue
				}
				out = append(out, set(s, PtrV{p.Obj, []PathEl{{Idx: p.Off.Add(i), IsIdx: true}}})...)
			}
			return out
		case PtrV:
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			var out []Outcome
			for _, s := range x.require(st, within(i, K(n)), "index", in.Pos()) {
				out = append(out, set(s, p.at(PathEl{Idx: i, IsIdx: true}))...)
			}
			return out
		}
	case *ssa.Index:
		i := x.eval(st, in.Index).(IntV).L
		return x.indexVal(st, x.eval(st, in.X), i, in.Type(), in.Pos(), many)
	case *ssa.Lookup:
		switch m := x.eval(st, in.X).(type) {
		case StrV:
			return x.indexVal(st, m, x.eval(st, in.Index).(IntV).L, in.Type(), in.Pos(), many)
		default:
			return many(x.mapLookup(st, m, x.eval(st, in.Index), in))
		}
	case *ssa.Slice:
		return x.sliceOp(st, in, set)
	case *ssa.MakeSlice:
		n := x.eval(st, in.Len).(IntV).L
		c := x.eval(st, in.Cap).(IntV).L
		var out []Outcome
		el := in.Type().Underlying().(*types.Slice).Elem()
		for _, s := range x.require(st, FAnd(FGE(n), FGE(c.Sub(n))), "make", in.Pos()) {
			o := &Obj{Seq: &Seq{}, Elem: el}
			if !s.P.Reduce(n).IsK(0) {
				o.Seq = &Seq{[]Seg{{Kind: sFill, Zero: x.zero(el), N: n}}}
			}
			out = append(out, set(s, SliceV{x.NewObj(s, o), K(0), n})...)
		}
		return out
	case *ssa.MakeMap:
		z := K(0)
		return set(st, MapV{x.NewObj(st, &Obj{Map: &MapObj{Len: &z}, Name: "map"})})
	case *ssa.MapUpdate:
		return plainOut(x.mapUpdate(st, x.eval(st, in.Map), x.eval(st, in.Key), x.eval(st, in.Value), in.Pos()))
	case *ssa.MakeInterface:
		v := x.eval(st, in.X)
		if ov, ok := v.(OpaqueV); ok {
			return set(st, ov)
		}
		return set(st, IfaceV{in.X.Type(), v})
	case *ssa.MakeClosure:
		f := FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Binds = append(f.Binds, x.eval(st, b))
		}
		return set(st, f)
	case *ssa.ChangeType:
		return set(st, x.eval(st, in.X))
	case *ssa.ChangeInterface:
		return set(st, x.eval(st, in.X))
	case *ssa.Convert:
		return many(x.convert(st, x.eval(st, in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.Extract:
		t, ok := x.eval(st, in.Tuple).(TupleV)
		if !ok {
			return set(st, x.Havoc(st, in.Type(), "extract"))
		}
		return set(st, t[in.Index])
	case *ssa.TypeAssert:
		return x.typeAssert(st, in, set)
	case *ssa.Range:
		return set(st, x.rangeOver(st, x.eval(st, in.X), in.Pos()))
	case *ssa.Next:
		return many(x.next(st, in))
	case *ssa.Call:
		return x.callInstr(st, in, &in.Call)
	case *ssa.Defer:
		d := deferred{call: &in.Call}
		d.fn, d.args = x.callParts(st, &in.Call)
		f := st.top()
		f.Defers = append(f.Defers[:len(f.Defers):len(f.Defers)], d)
		return []Outcome{{St: st}}
	case *ssa.RunDefers:
		sts := []Outcome{{St: st}}
		ds := st.top().Defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []Outcome
			for _, s := range sts {
				if s.Panic {
					next = append(next, s)
					continue
				}
				next = append(next, x.apply(s.St, ds[i].call, ds[i].fn, ds[i].args, in.Pos())...)
			}
			sts = next
		}
		for i := range sts {
			sts[i].Ret = nil
		}
		return sts
	}
	x.Unsupported(fmt.Sprintf("%T at %s", in, x.Prog.Pos(in.Pos())), in.String())
	if v, ok := in.(ssa.Value); ok {
		return set(st, x.Havoc(st, v.Type(), "instr"))
	}
	return []Outcome{{St: st}}
}

func (x *Interp) indexVal(st *State, v Val, i Lin, t types.Type, pos token.Pos, many func([]ElemOut) []Outcome) []Outcome {
	var out []Outcome
	switch v := v.(type) {
	case StrV:
		for _, s := range x.require(st, within(i, strLen0(v)), "index", pos) {
			out = append(out, many(x.strByte(s, v, i))...)
		}
	case ArrV:
		for _, s := range x.require(st, within(i, K(int64(len(v.E)))), "index", pos) {
			out = append(out, many(x.walk(s, v, []PathEl{{Idx: i, IsIdx: true}}, t))...)
		}
	default:
		out = many([]ElemOut{{st, x.Havoc(st, t, "index")}})
	}
	return out
}

func (x *Interp) sliceOp(st *State, in *ssa.Slice, set func(*State, Val) []Outcome) []Outcome {
	if in.Max != nil {
		x.clipped = true
	}
	lo := K(0)
	if in.Low != nil {
		lo = x.eval(st, in.Low).(IntV).L
	}
	hiOf := func(n Lin) Lin {
		if in.High != nil {
			return x.eval(st, in.High).(IntV).L
		}
		return n
	}
	bounds := func(hi, n Lin) *Formula {
		f := FGE(lo)
		f = FAnd(f, FGE(hi.Sub(lo)))
		return FAnd(f, FGE(n.Sub(hi)))
	}
	var out []Outcome
	switch v := x.eval(st, in.X).(type) {
	case StrV:
		n := strLen0(v)
		hi := hiOf(n)
		for _, s := range x.require(st, bounds(hi, n), "slice", in.Pos()) {
			out = append(out, set(s, x.substr(s, v, lo, hi))...)
		}
		return out
	case SliceV:
		hi := hiOf(v.Len)
		for _, s := range x.require(st, bounds(hi, v.Len), "slice", in.Pos()) {
			if v.Obj == 0 {
				out = append(out, set(s, SliceV{})...)
				continue
			}
			out = append(out, set(s, SliceV{v.Obj, s.P.Reduce(v.Off.Add(lo)), s.P.Reduce(hi.Sub(lo))})...)
		}
		return out
	case PtrV:
		a := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		hi := hiOf(K(a.Len()))
		v = x.resolve(st, v)
		o := st.heap[v.Obj]
		for _, s := range x.require(st, bounds(hi, K(a.Len())), "slice", in.Pos()) {
			if len(v.Path) > 0 {
				x.Unsupported("slice at "+x.Prog.Pos(in.Pos()), "slice of an embedded array")
				id := x.NewObj(s, &Obj{Seq: &Seq{[]Seg{{Kind: sTop, N: K(a.Len())}}}, Elem: a.Elem()})
				out = append(out, set(s, SliceV{id, lo, hi.Sub(lo)})...)
				continue
			}
			if o.Seq == nil {
				n := *o
				if av, ok := o.V.(ArrV); ok && int64(len(av.E)) == a.Len() {
					n.Seq = &Seq{[]Seg{{Kind: sElems, Elems: av.E}}}
					n.Name = "array"
				} else {
					n.Seq = &Seq{[]Seg{{Kind: sTop, N: K(a.Len())}}}
				}
				n.V = nil
				n.Elem = a.Elem()
				s.heap[v.Obj] = &n
			}
			out = append(out, set(s, SliceV{v.Obj, lo, hi.Sub(lo)})...)
		}
		return out
	}
	x.Unsupported("slice at "+x.Prog.Pos(in.Pos()), "slice of an unknown value")
	return set(st, x.Havoc(st, in.Type(), "slice"))
}

func (x *Interp) typeAssert(st *State, in *ssa.TypeAssert, set func(*State, Val) []Outcome) []Outcome {
	v := x.eval(st, in.X)
	res := func(s *State, ok bool, r Val) []Outcome {
		if !in.CommaOk {
			if !ok {
				x.panicObl(s, "type assertion", in.Pos())
				return nil
			}
			return set(s, r)
		}
		if !ok {
			r = x.zero(in.AssertedType)
		}
		return set(s, TupleV{r, BConst(ok)})
	}
	switch v := v.(type) {
	case NilV:
		return res(st, false, nil)
	case IfaceV:
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			return res(st, types.Implements(v.T, it), v)
		}
		return res(st, types.Identical(v.T, in.AssertedType), v.V)
	}
	r := x.Havoc(st, in.AssertedType, "assert")
	if ov, ok := v.(OpaqueV); ok {
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			r = ov
		} else if x.AssertTag != nil {
			if rv, known, ok := x.AssertTag(x, st, ov, in.AssertedType); known {
				return res(st, ok, rv)
			}
		}
	}
	if !in.CommaOk {
		x.panicObl(st, "type assertion", in.Pos())
		return set(st, r)
	}
	o := st.Clone()
	return append(res(st, true, r), res(o, false, nil)...)
}

func (x *Interp) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) []ElemOut {
	ret := func(v Val) []ElemOut { return []ElemOut{{st, v}} }
	switch op {
	case token.EQL:
		return ret(BoolV{x.equal(st, a, b)})
	case token.NEQ:
		return ret(BoolV{FNot(x.equal(st, a, b))})
	}
	switch av := a.(type) {
	case BoolV:
		bv := b.(BoolV)
		switch op {
		case token.AND:
			return ret(BoolV{FAnd(av.F, bv.F)})
		case token.OR:
			return ret(BoolV{FOr(av.F, bv.F)})
		}
	case FloatV:
		bv, _ := b.(FloatV)
		switch op {
		case token.LSS:
			return ret(BoolV{x.fact(st, av.Key+"<"+bv.Key)})
		case token.GEQ:
			return ret(BoolV{FNot(x.fact(st, av.Key+"<"+bv.Key))})
		case token.GTR:
			return ret(BoolV{x.fact(st, bv.Key+"<"+av.Key)})
		case token.LEQ:
			return ret(BoolV{FNot(x.fact(st, bv.Key+"<"+av.Key))})
		}
		return ret(FloatV{"(" + av.Key + op.String() + bv.Key + ")"})
	case StrV:
		bv := b.(StrV)
		if op == token.ADD {
			return ret(x.concat(st, av, bv))
		}
		return ret(BoolV{x.freshBool(st)})
	case IntV:
		bl, ok := b.(IntV)
		if !ok {
			break
		}
		l, r := av.L, bl.L
		switch op {
		case token.ADD:
			return ret(IntV{L: l.Add(r)})
		case token.SUB:
			return ret(IntV{L: l.Sub(r)})
		case token.LSS:
			return ret(BoolV{FGE(r.Sub(l).AddK(-1))})
		case token.LEQ:
			return ret(BoolV{FGE(r.Sub(l))})
		case token.GTR:
			return ret(BoolV{FGE(l.Sub(r).AddK(-1))})
		case token.GEQ:
			return ret(BoolV{FGE(l.Sub(r))})
		}
		lc, lok := st.P.Reduce(l).Const()
		rc, rok := st.P.Reduce(r).Const()
		if lok && rok {
			switch op {
			case token.MUL:
				return ret(IntV{L: K(lc * rc)})
			case token.QUO:
				if rc != 0 {
					return ret(IntV{L: K(lc / rc)})
				}
			case token.REM:
				if rc != 0 {
					return ret(IntV{L: K(lc % rc)})
				}
			case token.AND:
				return ret(IntV{L: K(lc & rc)})
			case token.OR:
				return ret(IntV{L: K(lc | rc)})
			case token.XOR:
				return ret(IntV{L: K(lc ^ rc)})
			case token.AND_NOT:
				return ret(IntV{L: K(lc &^ rc)})
			case token.SHL:
				return ret(IntV{L: K(lc << uint(rc))})
			case token.SHR:
				return ret(IntV{L: K(lc >> uint(rc))})
			}
		}
		switch {
		case op == token.MUL && rok:
			return ret(IntV{L: l.Mul(rc)})
		case op == token.MUL && lok:
			return ret(IntV{L: r.Mul(lc)})
		case op == token.SHL && rok && rc >= 0 && rc < 40:
			return ret(IntV{L: l.Mul(1 << uint(rc))})
		case (op == token.QUO || op == token.SHR || op == token.REM) && rok && rc > 0:
			d := rc
			if op == token.SHR {
				if rc > 40 {
					break
				}
				d = 1 << uint(rc)
			}
			return x.divide(st, l, d, op)
		case (op == token.AND || op == token.OR || op == token.XOR || op == token.AND_NOT) && (rok || lok):
			c, v := rc, l
			if !rok {
				if op == token.AND_NOT {
					break
				}
				c, v = lc, r
			}
			return x.bitop(st, op, v, c)
		case op == token.QUO || op == token.REM:
			var out []ElemOut
			for _, s := range x.require(st, FNE(r), "division", pos) {
				out = append(out, ElemOut{s, x.Havoc(s, t, "div")})
			}
			return out
		}
		return ret(x.Havoc(st, t, "op"))
	}
	x.Unsupported(fmt.Sprintf("%T%s%T at %s", a, op, b, x.Prog.Pos(pos)), "operator")
	if op == token.LSS || op == token.GTR || op == token.LEQ || op == token.GEQ {
		return ret(BoolV{x.freshBool(st)})
	}
	return ret(x.Havoc(st, t, "op"))
}

func (x *Interp) divide(st *State, l Lin, d int64, op token.Token) []ElemOut {
	var out []ElemOut
	yes, no := x.ForkBool(st, FGE(l))
	for _, s := range yes {
		q := x.FreshNat(s, "q")
		rem := l.Sub(q.Mul(d))
		s.P.AddGE(rem)
		s.P.AddGE(rem.Neg().AddK(d - 1))
		if op == token.REM {
			out = append(out, ElemOut{s, IntV{L: rem}})
		} else {
			out = append(out, ElemOut{s, IntV{L: q}})
		}
	}
	for _, s := range no {
		q := x.Fresh("q")
		rem := l.Sub(q.Mul(d))
		if op == token.SHR {
			s.P.AddGE(rem)
			s.P.AddGE(rem.Neg().AddK(d - 1))
		} else {
			s.P.AddGE(rem.Neg())
			s.P.AddGE(rem.AddK(d - 1))
		}
		if op == token.REM {
			out = append(out, ElemOut{s, IntV{L: rem}})
		} else {
			out = append(out, ElemOut{s, IntV{L: q}})
		}
	}
	return out
}

// onlyCompared gives the constants a value is compared with, nil if it is used
// otherwise.
func onlyCompared(v ssa.Value) map[int64]bool {
	out := map[int64]bool{}
	for _, r := range *v.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if _, dbg := r.(*ssa.DebugRef); dbg {
			continue
		}
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return nil
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok {
			c, ok = b.X.(*ssa.Const)
		}
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return nil
		}
		n, _ := constant.Int64Val(c.Value)
		out[n] = true
	}
	return out
}

// bitop splits the values of a tracked byte by the result.
func (x *Interp) bitop(st *State, op token.Token, v Lin, c int64) []ElemOut {
	ev := func(b int64) int64 {
		switch op {
		case token.AND:
			return b & c
		case token.OR:
			return b | c
		case token.XOR:
			return b ^ c
		}
		return b &^ c
	}
	set, _, sg, k, ok := x.setOf(st, v)
	if ok && sg == 1 {
		set = set.Shift(k)
		if set.Count() <= 256 {
			by := map[int64]*RuneSet{}
			var order []int64
			for _, r := range set.R {
				for b := r[0]; b <= r[1]; b++ {
					e := ev(b)
					if by[e] == nil {
						by[e] = &RuneSet{}
						order = append(order, e)
					}
					by[e] = by[e].union(NewSet([2]int64{b, b}))
				}
			}
			if len(order) <= 16 {
				var out []ElemOut
				if x.bitCmp != nil {
					// one class for all results that compare alike
					rest := &RuneSet{}
					var keep []int64
					vals := &RuneSet{}
					for _, e := range order {
						if x.bitCmp[e] {
							keep = append(keep, e)
							continue
						}
						rest = rest.union(by[e])
						vals = vals.union(NewSet([2]int64{e, e}))
					}
					order = keep
					if s := st.Clone(); !rest.Empty() && x.addSet(s, v, rest) && !s.P.bot {
						n := x.Fresh("bits")
						if x.addSet(s, n, vals) {
							out = append(out, ElemOut{s, IntV{L: n}})
						}
					}
				}
				for _, e := range order {
					s := st.Clone()
					if x.addSet(s, v, by[e]) && !s.P.bot {
						out = append(out, ElemOut{s, IntV{L: K(e)}})
					}
				}
				return out
			}
		}
	}
	n := x.Fresh("bits")
	if op == token.AND && c >= 0 {
		st.P.AddGE(n)
		st.P.AddGE(n.Neg().AddK(c))
		if st.P.EntailsGE(v) {
			st.P.AddGE(v.Sub(n))
		}
	}
	return []ElemOut{{st, IntV{L: n}}}
}

func isNilable(v Val) bool {
	switch v := v.(type) {
	case OpaqueV:
		return strings.HasPrefix(v.Tag, "any:")
	}
	return false
}

// equal is the formula for a == b.
func (x *Interp) equal(st *State, a, b Val) *Formula {
	a, b = (a), (b)
	if _, ok := a.(NilV); ok {
		a, b = b, a
	}
	if _, ok := b.(NilV); ok {
		switch v := a.(type) {
		case NilV:
			return FBool(true)
		case SliceV:
			if v.Obj == 0 {
				return FBool(true)
			}
			if o := st.heap[v.Obj]; o != nil && (o.Name == "any" || o.Name == "maybe") {
				return x.freshBool(st)
			}
			return FBool(false)
		case MapV:
			return FBool(false)
		}
		if isNilable(a) {
			return x.freshBool(st)
		}
		return FBool(false)
	}
	if sv, ok := b.(SliceV); ok { // comparison with the nil slice
		if sv.Obj == 0 {
			return x.equal(st, a, NilV{})
		}
		return x.equal(st, sv, NilV{})
	}
	switch av := a.(type) {
	case IntV:
		if bv, ok := b.(IntV); ok {
			return FEQ(av.L.Sub(bv.L))
		}
	case BoolV:
		if bv, ok := b.(BoolV); ok {
			return FOr(FAnd(av.F, bv.F), FAnd(FNot(av.F), FNot(bv.F)))
		}
	case StrV:
		if bv, ok := b.(StrV); ok {
			return x.eqStr(st, av, bv)
		}
	case StructV:
		if bv, ok := b.(StructV); ok {
			f := FBool(true)
			for i := range av.F {
				f = FAnd(f, x.equal(st, av.F[i], bv.F[i]))
			}
			return f
		}
	case ArrV:
		if bv, ok := b.(ArrV); ok && len(av.E) == len(bv.E) {
			f := FBool(true)
			for i := range av.E {
				f = FAnd(f, x.equal(st, av.E[i], bv.E[i]))
			}
			return f
		}
	case FloatV:
		if bv, ok := b.(FloatV); ok {
			if av.Key == bv.Key {
				return FBool(true)
			}
			if av.Key > bv.Key {
				av, bv = bv, av
			}
			return x.fact(st, av.Key+"=="+bv.Key)
		}
	case PtrV:
		if bv, ok := b.(PtrV); ok {
			av, bv = x.resolve(st, av), x.resolve(st, bv)
			if av.Obj != bv.Obj || len(av.Path) != len(bv.Path) {
				return FBool(false)
			}
			f := FBool(true)
			for i := range av.Path {
				if av.Path[i].IsIdx != bv.Path[i].IsIdx || av.Path[i].Field != bv.Path[i].Field {
					return FBool(false)
				}
				if av.Path[i].IsIdx {
					f = FAnd(f, FEQ(av.Path[i].Idx.Sub(bv.Path[i].Idx)))
				}
			}
			return f
		}
	case IfaceV:
		if bv, ok := b.(IfaceV); ok {
			if !types.Identical(av.T, bv.T) {
				return FBool(false)
			}
			return x.equal(st, av.V, bv.V)
		}
	case OpaqueV:
		if bv, ok := b.(OpaqueV); ok {
			if av.Tag == bv.Tag && !isNilable(av) {
				f := FBool(true)
				for i := range av.Idx {
					f = FAnd(f, FEQ(av.Idx[i].Sub(bv.Idx[i])))
				}
				return f
			}
			if strings.HasPrefix(av.Tag, "g:") && strings.HasPrefix(bv.Tag, "g:") {
				return FBool(false)
			}
		}
	}
	return x.freshBool(st)
}

func (x *Interp) eqStr(st *State, a, b StrV) *Formula {
	a, b = x.concat(st, a), x.concat(st, b)
	if len(a.P) == 0 {
		return FEQ(strLen0(b))
	}
	if len(b.P) == 0 {
		return FEQ(strLen0(a))
	}
	ta, oka := asLit(a)
	tb, okb := asLit(b)
	if oka && okb {
		return FBool(ta == tb)
	}
	d := strLen0(a).Sub(strLen0(b))
	if st.P.EntailsNE(d) {
		return FBool(false)
	}
	if len(a.P) == 1 && len(b.P) == 1 {
		p, q := a.P[0], b.P[0]
		if p.Kind == pRune && q.Kind == pRune {
			return FEQ(p.Lo.Sub(q.Lo))
		}
		if p.Kind == pSub && q.Kind == pSub && p.Base == q.Base && st.P.EntailsEQ(p.Lo.Sub(q.Lo)) && st.P.EntailsEQ(p.Hi.Sub(q.Hi)) {
			return FBool(true)
		}
	}
	return FAnd(FEQ(d), x.freshBool(st))
}

func basicOf(t types.Type) *types.Basic { b, _ := t.Underlying().(*types.Basic); return b }

func intRange(k types.BasicKind) (lo, hi int64, ok bool) {
	switch k {
	case types.Int8:
		return -128, 127, true
	case types.Uint8:
		return 0, 255, true
	case types.Int16:
		return -32768, 32767, true
	case types.Uint16:
		return 0, 65535, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 1 << 62, true
	}
	return 0, 0, false
}

func (x *Interp) convert(st *State, v Val, from, to types.Type, pos token.Pos) []ElemOut {
	ret := func(r Val) []ElemOut { return []ElemOut{{st, r}} }
	fb, tb := basicOf(from), basicOf(to)
	switch {
	case tb != nil && tb.Info()&types.IsString != 0:
		switch v := v.(type) {
		case StrV:
			return ret(v)
		case IntV:
			return ret(x.runeStr(st, v))
		case SliceV:
			el := basicOf(from.Underlying().(*types.Slice).Elem())
			return ret(x.fromSlice(st, v, el.Kind() == types.Int32))
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if basicOf(sl.Elem()).Kind() == types.Int32 {
				return ret(x.runesOf(st, v.(StrV), pos, sl.Elem()))
			}
			return ret(x.bytesOf(st, v.(StrV), sl.Elem()))
		}
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		l := v.(IntV).L
		lo, hi, small := intRange(tb.Kind())
		if !small {
			return ret(v)
		}
		flo, fhi, fs := intRange(fb.Kind())
		if fs && flo >= lo && fhi <= hi {
			return ret(v)
		}
		in := FAnd(FGE(l.AddK(-lo)), FGE(l.Neg().AddK(hi)))
		yes, no := x.ForkBool(st, in)
		var out []ElemOut
		for _, s := range yes {
			out = append(out, ElemOut{s, v})
		}
		size := hi - lo + 1
		for _, s := range no {
			// one wrap either way, otherwise anything
			switch {
			case s.P.EntailsGE(l.AddK(-hi-1)) && s.P.EntailsGE(l.Neg().AddK(hi+size)):
				out = append(out, ElemOut{s, IntV{L: l.AddK(-size)}})
			case s.P.EntailsGE(l.Neg().AddK(lo-1)) && s.P.EntailsGE(l.AddK(size-lo)):
				out = append(out, ElemOut{s, IntV{L: l.AddK(size)}})
			default:
				w := x.Fresh("wrap")
				s.P.AddGE(w.AddK(-lo))
				s.P.AddGE(w.Neg().AddK(hi))
				out = append(out, ElemOut{s, IntV{L: w}})
			}
		}
		return out
	case tb != nil && tb.Info()&types.IsFloat != 0:
		switch v := v.(type) {
		case FloatV:
			return ret(v)
		case IntV:
			if c, ok := st.P.Reduce(v.L).Const(); ok {
				return ret(FloatV{fmt.Sprint(c)})
			}
			x.nbase++
			return ret(FloatV{fmt.Sprintf("conv%d", x.nbase)})
		}
	}
	return ret(x.Havoc(st, to, "convert"))
}

func (x *Interp) rangeOver(st *State, v Val, pos token.Pos) Val {
	switch v := v.(type) {
	case StrV:
		it := &Iter{}
		if b, k, khi, ok := x.asSub(st, v, "range", pos); ok {
			it.Str = StrV{[]Piece{{Kind: pSub, Base: b, Lo: x.App(st, b.posFam(), k), Hi: x.App(st, b.posFam(), khi)}}}
			it.K, it.KHi = k, khi
		}
		return iterRef(x.NewObj(st, &Obj{It: it}))
	}
	return iterRef(x.NewObj(st, &Obj{It: &Iter{Map: v, K: K(0)}}))
}

func (x *Interp) next(st *State, in *ssa.Next) []ElemOut {
	id := ObjID(x.eval(st, in.Iter).(iterRef))
	it := st.heap[id].It
	tt := in.Type().(*types.Tuple)
	if !in.IsString {
		return x.nextMap(st, it, id, tt)
	}
	var out []ElemOut
	yes, no := x.ForkBool(st, FGE(it.KHi.Sub(it.K).AddK(-1)))
	p := it.Str.P[0]
	for _, s := range yes {
		r := x.RuneAt(s, p.Base, it.K)
		off := x.App(s, p.Base.posFam(), it.K).Sub(p.Lo)
		n := *it
		n.K = it.K.AddK(1)
		s.heap[id] = &Obj{It: &n}
		out = append(out, ElemOut{s, TupleV{BConst(true), IntV{L: off}, intAt(p.Base, it.K, r)}})
	}
	for _, s := range no {
		// K <= KHi is an invariant of the iterator
		s.P.AddGE(it.KHi.Sub(it.K))
		out = append(out, ElemOut{s, TupleV{BConst(false), IntV{L: K(0)}, IntV{L: K(0)}}})
	}
	return out
}
