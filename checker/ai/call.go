package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

func (x *Interp) callParts(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	fn := x.eval(st, c.Value)
	for _, a := range c.Args {
		args = append(args, x.eval(st, a))
	}
	return fn, args
}

func (x *Interp) callInstr(st *State, in *ssa.Call, c *ssa.CallCommon) []Outcome {
	fn, args := x.callParts(st, c)
	f := st.top()
	fi := x.info(f.Fn)
	after := fi.after[in]
	for v := range f.Env {
		if !after[v] {
			delete(f.Env, v)
		}
	}
	outs := x.apply(st, c, fn, args, in.Pos())
	for i := range outs {
		if !outs[i].Panic {
			outs[i].St.top().Env[in] = outs[i].Ret
			outs[i].Ret = nil
		}
	}
	return outs
}

func one(st *State, v Val) []Outcome { return []Outcome{{St: st, Ret: v}} }

// apply performs a call.
func (x *Interp) apply(st *State, c *ssa.CallCommon, fn Val, args []Val, pos token.Pos) []Outcome {
	if c.IsInvoke() {
		return x.invoke(st, c, fn, args, pos)
	}
	switch f := fn.(type) {
	case *ssa.Builtin:
		return x.builtin(st, f, c, args, pos)
	}
	return x.Call(st, c, fn, args, pos)
}

// Call calls a function value.
func (x *Interp) Call(st *State, c *ssa.CallCommon, fn Val, args []Val, pos token.Pos) []Outcome {
	switch f := fn.(type) {
	case FuncV:
		name := f.Fn.String()
		if s := x.Stubs[name]; s != nil {
			return s(x, st, c, append(append([]Val(nil), f.Binds...), args...))
		}
		if m := models[name]; m != nil {
			return m(x, st, c, append(append([]Val(nil), f.Binds...), args...))
		}
		if x.inModule(f.Fn) {
			return x.Exec(st, f.Fn, args, f.Binds)
		}
		x.Unsupported("call "+name, "no model of this function, called at "+x.Prog.Pos(pos))
		return one(st, x.Havoc(st, resultType(f.Fn.Signature), name))
	case *OpaqueFn:
		if f.Fn != nil {
			return f.Fn(x, st, args)
		}
		x.Unsupported("call "+f.Name, "opaque function")
		return one(st, NilV{})
	case NilV:
		x.panicObl(st, "call of a nil function", pos)
		return nil
	}
	x.Unsupported("call at "+x.Prog.Pos(pos), fmt.Sprintf("unknown function value %T", fn))
	return one(st, x.Havoc(st, resultType(c.Signature()), "call"))
}

func (x *Interp) inModule(fn *ssa.Function) bool {
	if x.Prog.InModule(fn) {
		return true
	}
	// wrappers of methods of the module
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return core.InModulePath(o.Pkg().Path())
		}
		return strings.Contains(fn.String(), core.ModPath)
	}
	return false
}

func (x *Interp) invoke(st *State, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos) []Outcome {
	name := c.Method.Name()
	switch r := recv.(type) {
	case IfaceV:
		m := x.Prog.Prog.LookupMethod(r.T, c.Method.Pkg(), name)
		if m == nil {
			break
		}
		return x.Call(st, c, FuncV{Fn: m}, append([]Val{r.V}, args...), pos)
	case OpaqueV:
		for _, k := range []string{"invoke:" + r.Tag + "." + name, "invoke:*." + name} {
			if s := x.Stubs[k]; s != nil {
				return s(x, st, c, append([]Val{recv}, args...))
			}
		}
		if name == "Error" && len(args) == 0 {
			return one(st, x.someStr(x.FreshNat(st, "errlen")))
		}
	case NilV:
		x.panicObl(st, "method of a nil interface", pos)
		return nil
	}
	x.Unsupported("invoke "+name+" at "+x.Prog.Pos(pos), fmt.Sprintf("unknown receiver %T", recv))
	return one(st, x.Havoc(st, resultType(c.Signature()), name))
}

func (x *Interp) lenOf(st *State, v Val) Lin {
	switch v := v.(type) {
	case SliceV:
		return v.Len
	case StrV:
		return strLen0(v)
	case ArrV:
		return K(int64(len(v.E)))
	case MapV:
		o := st.heap[v.Obj]
		if o != nil && o.Map != nil && o.Map.Len != nil {
			return *o.Map.Len
		}
		return x.FreshNat(st, "maplen")
	case NilV:
		return K(0)
	}
	return x.FreshNat(st, "len")
}

func (x *Interp) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) []Outcome {
	switch b.Name() {
	case "len":
		if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			return one(st, IntV{L: K(p.Elem().Underlying().(*types.Array).Len())})
		}
		if f := x.LenOf[types.TypeString(c.Args[0].Type(), nil)]; f != nil {
			return f(st, args[0])
		}
		return one(st, IntV{L: x.lenOf(st, args[0])})
	case "cap":
		n := x.Fresh("cap")
		st.P.AddGE(n.Sub(x.lenOf(st, args[0])))
		return one(st, IntV{L: n})
	case "append":
		return x.appendOp(st, c, args, pos)
	case "copy":
		return x.copyOp(st, c, args, pos)
	case "delete", "clear":
		if x.Maps != nil {
			x.Unsupported(b.Name(), "an entry of a map is removed at "+x.Prog.Pos(pos))
		}
		return one(st, TupleV{})
	case "print", "println":
		return one(st, TupleV{})
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "min", "max":
		if a, ok := args[0].(IntV); ok && len(args) == 2 {
			bb := args[1].(IntV)
			var out []Outcome
			yes, no := x.ForkBool(st, FGE(a.L.Sub(bb.L)))
			if b.Name() == "min" {
				yes, no = no, yes
			}
			for _, s := range yes {
				out = append(out, Outcome{St: s, Ret: a})
			}
			for _, s := range no {
				out = append(out, Outcome{St: s, Ret: bb})
			}
			return out
		}
	}
	x.Unsupported("builtin "+b.Name()+" at "+x.Prog.Pos(pos), "no model")
	return one(st, x.Havoc(st, resultType(c.Signature()), b.Name()))
}

// contents returns the segments of a slice.
func (x *Interp) contents(st *State, s SliceV) ([]Seg, bool) {
	if s.Obj == 0 || st.P.Reduce(s.Len).IsK(0) {
		return nil, true
	}
	o := st.heap[s.Obj]
	if o.Bad != "" || o.Seq == nil {
		return nil, false
	}
	if st.P.Reduce(s.Off).IsK(0) && st.P.EntailsEQ(s.Len.Sub(o.Seq.Len())) {
		return o.Seq.Segs, true
	}
	return x.sub(st, o.Seq, s.Off, s.Len)
}

func (x *Interp) appendOp(st *State, c *ssa.CallCommon, args []Val, pos token.Pos) []Outcome {
	dst, ok := args[0].(SliceV)
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if !ok {
		x.Unsupported("append at "+x.Prog.Pos(pos), "unknown slice")
		return one(st, x.Havoc(st, c.Args[0].Type(), "append"))
	}
	var add []Seg
	var addLen Lin
	switch s := args[1].(type) {
	case SliceV:
		addLen = s.Len
		var okc bool
		add, okc = x.contents(st, s)
		if !okc {
			add = []Seg{{Kind: sTop, N: s.Len}}
		}
	case StrV:
		addLen = strLen0(s)
		b := x.bytesOf(st, s, elem)
		add, _ = x.contents(st, b)
	default:
		x.Unsupported("append at "+x.Prog.Pos(pos), "unknown elements")
		return one(st, x.Havoc(st, c.Args[0].Type(), "append"))
	}
	if st.P.Reduce(addLen).IsK(0) && dst.Obj != 0 {
		return one(st, dst)
	}
	if outs, ok := x.appendInside(st, dst, add, addLen); ok {
		return outs
	}
	// where the elements go
	var q *Seq
	var base Obj
	id := ObjID(0)
	switch {
	case dst.Obj == 0:
		q = &Seq{}
		base = Obj{Elem: elem}
	default:
		o := st.heap[dst.Obj]
		if o.Shared || o.Name == "copy" {
			if x.OnSharedAppend != nil {
				x.OnSharedAppend(x, st, dst, pos)
			}
		}
		segs, okc := x.contents(st, dst)
		if !okc {
			segs = []Seg{{Kind: sTop, N: dst.Len}}
		}
		q = &Seq{append([]Seg(nil), segs...)}
		full := !o.Shared && o.Seq != nil && o.Bad == "" && st.P.Reduce(dst.Off).IsK(0) && st.P.EntailsEQ(dst.Len.Sub(o.Seq.Len()))
		if full {
			id = dst.Obj
			base = *o
			if base.Name == "array" {
				base.Name = ""
			}
		} else {
			base = Obj{Elem: elem}
			if !o.Shared && o.Seq != nil && !x.ProveGE(st, dst.Off.Add(dst.Len).Sub(o.Seq.Len())) {
				// the elements behind the slice may be overwritten
				x.thaw(o)
				n := *o
				n.Bad = "overwritten by append"
				st.heap[dst.Obj] = &n
			}
		}
	}
	n := dst.Len
	var from *Obj
	pos0 := K(0)
	if s, ok := args[1].(SliceV); ok && s.Obj != 0 {
		from, pos0 = st.heap[s.Obj], s.Off
	}
	for _, s := range add {
		if s.Kind == sElems {
			for i, v := range s.Elems {
				if sp := x.specOf(elem); sp != nil && sp.Check != nil {
					sp.Check(x, st, n, v)
					if st.dead || st.P.bot {
						return nil
					}
				}
				if !x.checkQ(st, elem, q, n, v, from, pos0, s.Pend>>uint(i)&1 != 0) {
					return nil
				}
				pos0 = pos0.AddK(1)
				q = x.appendElem(st, elem, q, v)
				n = n.AddK(1)
			}
			continue
		}
		q = &Seq{append(append([]Seg(nil), q.Segs...), s)}
		n = n.Add(s.Len())
		pos0 = pos0.Add(s.Len())
	}
	base.Seq = q
	base.Checked = true
	if id == 0 {
		base.Reads = nil
		id = x.NewObj(st, &base)
	} else {
		st.heap[id] = &base
	}
	return one(st, SliceV{id, K(0), st.P.Reduce(dst.Len.Add(addLen))})
}

// appendInside is append to a slice with elements behind it, which are
// overwritten.
func (x *Interp) appendInside(st *State, dst SliceV, add []Seg, addLen Lin) ([]Outcome, bool) {
	o := st.heap[dst.Obj]
	if dst.Obj == 0 || o == nil || o.Shared || o.Bad != "" || o.Seq == nil || x.clipped || len(add) != 1 || add[0].Kind != sElems || len(add[0].Elems) != 1 {
		return nil, false
	}
	end := dst.Off.Add(dst.Len)
	if !x.ProveGE(st, o.Seq.Len().Sub(end).AddK(-1)) {
		return nil, false
	}
	if sp := x.specOf(o.Elem); sp == nil || !sp.All || sp.Check != nil {
		return nil, false
	}
	v := add[0].Elems[0]
	var out []Outcome
	for _, s := range x.storeAt(st, dst.Obj, end, func(st *State, old Val) []ElemOut { return []ElemOut{{st, v}} }) {
		out = append(out, Outcome{St: s, Ret: SliceV{dst.Obj, dst.Off, s.P.Reduce(dst.Len.Add(addLen))}})
	}
	return out, true
}

// checkQ checks an element that is added to q, unless it was already checked
// at the same position of the sequence from; false when st is unreachable.
func (x *Interp) checkQ(st *State, elem types.Type, q *Seq, n Lin, v Val, from *Obj, pos Lin, pend bool) bool {
	sp := x.specOf(elem)
	if sp == nil || sp.CheckQ == nil {
		return true
	}
	if !pend && from != nil && from.Checked && from.Seq != nil && x.ProveEQ(st, n.Sub(leadSrc(q)).Sub(pos.Sub(leadSrc(from.Seq)))) {
		return !st.unreachable()
	}
	sp.CheckQ(x, st, q, n, v)
	return !st.unreachable()
}

func (x *Interp) copyOp(st *State, c *ssa.CallCommon, args []Val, pos token.Pos) []Outcome {
	dst, ok := args[0].(SliceV)
	if !ok {
		x.Unsupported("copy at "+x.Prog.Pos(pos), "unknown slice")
		return one(st, IntV{L: x.FreshNat(st, "n")})
	}
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var src SliceV
	switch s := args[1].(type) {
	case SliceV:
		src = s
	case StrV:
		src = x.bytesOf(st, s, elem)
	}
	var out []Outcome
	run := func(s *State, n Lin) {
		if dst.Obj == 0 || s.P.Reduce(n).IsK(0) {
			out = append(out, Outcome{St: s, Ret: IntV{L: n}})
			return
		}
		o := *s.heap[dst.Obj]
		if x.OnStore != nil {
			x.OnStore(x, s, PtrV{Obj: dst.Obj, Path: []PathEl{{Idx: dst.Off, IsIdx: true}}}, nil, pos)
		}
		add, ok := x.contents(s, SliceV{src.Obj, src.Off, n})
		if !ok {
			add = []Seg{{Kind: sTop, N: n}}
		}
		if o.Bad == "" && o.Seq != nil {
			total := o.Seq.Len()
			end := dst.Off.Add(n)
			a, ok1 := x.sub(s, o.Seq, K(0), dst.Off)
			b, ok2 := x.sub(s, o.Seq, end, total.Sub(end))
			if ok1 && ok2 {
				q := &Seq{a}
				m, p0 := dst.Off, src.Off
				for gi, g := range add {
					if g.Kind == sElems {
						for i, v := range g.Elems {
							if !x.checkQ(s, elem, q, m.AddK(int64(i)), v, s.heap[src.Obj], p0.AddK(int64(i)), g.Pend>>uint(i)&1 != 0) {
								return
							}
						}
						g.Pend = 0
						if sp := x.specOf(elem); sp != nil && sp.Check != nil {
							g.Pend = 1<<uint(len(g.Elems)) - 1
						}
						add[gi].Pend = g.Pend
					}
					q = &Seq{append(append([]Seg(nil), q.Segs...), g)}
					m, p0 = m.Add(g.Len()), p0.Add(g.Len())
				}
				o.Checked = true
				o.Seq = &Seq{append(append(append([]Seg(nil), a...), add...), b...)}
			} else {
				o.Seq = &Seq{[]Seg{{Kind: sTop, N: total}}}
			}
			o.Reads = nil
			s.heap[dst.Obj] = &o
		}
		out = append(out, Outcome{St: s, Ret: IntV{L: n}})
	}
	yes, no := x.ForkBool(st, FGE(dst.Len.Sub(src.Len)))
	for _, s := range yes {
		run(s, src.Len)
	}
	for _, s := range no {
		run(s, dst.Len)
	}
	return out
}

// Maps. The contents of a map are unknown except for what hooks provide.

func (x *Interp) mapLookup(st *State, m, k Val, in *ssa.Lookup) []ElemOut {
	mt := in.X.Type().Underlying().(*types.Map)
	ret := func(s *State, v Val, ok bool) ElemOut {
		if in.CommaOk {
			return ElemOut{s, TupleV{v, BConst(ok)}}
		}
		return ElemOut{s, v}
	}
	switch mv := m.(type) {
	case NilV:
		return []ElemOut{ret(st, x.zero(mt.Elem()), false)}
	case MapV:
		o := st.heap[mv.Obj]
		if x.Maps != nil {
			var out []ElemOut
			for _, e := range x.Maps.Get(st, mv, k) {
				if e.V == nil {
					e.V = x.zero(mt.Elem())
				}
				out = append(out, ret(e.St, e.V, e.V2))
			}
			return out
		}
		if o != nil && o.Map != nil {
			if o.Map.Name != "" && x.MapGet[o.Map.Name] != nil {
				var out []ElemOut
				for _, e := range x.MapGet[o.Map.Name](x, st, k) {
					out = append(out, ret(e.St, e.V, e.V2))
				}
				for i := range out {
					if t, ok := out[i].V.(TupleV); ok && t[0] == nil {
						t[0] = x.zero(mt.Elem())
					} else if out[i].V == nil {
						out[i].V = x.zero(mt.Elem())
					}
				}
				return out
			}
			if o.Map.Len != nil && st.P.Reduce(*o.Map.Len).IsK(0) && len(o.Map.Ents) == 0 {
				return []ElemOut{ret(st, x.zero(mt.Elem()), false)}
			}
		}
	}
	o := st.Clone()
	return []ElemOut{ret(st, x.Havoc(st, mt.Elem(), "map"), true), ret(o, x.zero(mt.Elem()), false)}
}

// MapModel says what maps hold.
type MapModel interface {
	Get(st *State, m MapV, k Val) []MapOut
	// Set gives the number of entries afterwards.
	Set(st *State, m MapV, k, v Val, pos token.Pos) Lin
	Next(st *State, it *Iter, id ObjID, tt *types.Tuple) []ElemOut
}

// MapOut is one way a map lookup ends.
type MapOut struct {
	St *State
	V  Val
	V2 bool
}

func (x *Interp) mapUpdate(st *State, m, k, v Val, pos token.Pos) []*State {
	switch mv := m.(type) {
	case NilV:
		x.panicObl(st, "assignment to a nil map", pos)
		return nil
	case MapV:
		if x.OnMapSet != nil {
			x.OnMapSet(x, st, mv, k, v, pos)
		}
		o := *st.heap[mv.Obj]
		n := *o.Map
		if x.Maps != nil {
			l := x.Maps.Set(st, mv, k, v, pos)
			n.Len = &l
		} else if n.Len != nil {
			l := x.Fresh("maplen")
			st.P.AddGE(l.Sub(*n.Len))
			st.P.AddGE(n.Len.AddK(1).Sub(l))
			st.P.AddGE(l.AddK(-1))
			n.Len = &l
		}
		o.Map = &n
		st.heap[mv.Obj] = &o
	}
	return []*State{st}
}

func (x *Interp) nextMap(st *State, it *Iter, id ObjID, tt *types.Tuple) []ElemOut {
	if x.Maps != nil {
		return x.Maps.Next(st, it, id, tt)
	}
	o := st.Clone()
	yes := TupleV{BConst(true), x.havocOr(st, tt.At(1).Type()), x.havocOr(st, tt.At(2).Type())}
	no := TupleV{BConst(false), x.zeroOr(tt.At(1).Type()), x.zeroOr(tt.At(2).Type())}
	return []ElemOut{{st, yes}, {o, no}}
}

func (x *Interp) havocOr(st *State, t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return NilV{}
	}
	return x.Havoc(st, t, "next")
}

func (x *Interp) zeroOr(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return NilV{}
	}
	return x.zero(t)
}
