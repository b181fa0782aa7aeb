package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decomp splits values into a shape, integer leaves and summaries, so that two
// states of the same shape can be compared and joined leaf by leaf.
type decomp struct {
	x    *Interp
	st   *State
	key  strings.Builder
	L    []Lin
	num  map[ObjID]int
	objs []ObjID
	cand []int      // leaves that serve as indices (loop counters)
	offs []int      // leaves that are offsets of slices
	elem bool       // flattening an element: no shared objects
	spec *ChainSpec // summary of the sequence being flattened
	prov []provRef
	bad  string
}

// maker rebuilds values from new leaves.
type maker struct {
	x   *Interp
	st  *State
	L   []Lin
	obj []ObjID
}

type mkFn func(m *maker) Val

type provRef struct {
	leaf int
	fam  string
}

func newDecomp(x *Interp, st *State) *decomp {
	return &decomp{x: x, st: st, num: map[ObjID]int{}}
}

func (d *decomp) leaf(l Lin) int {
	d.L = append(d.L, d.st.P.Reduce(l))
	d.key.WriteByte('i')
	return len(d.L) - 1
}

func (d *decomp) objNum(id ObjID) int {
	if n, ok := d.num[id]; ok {
		return n
	}
	n := len(d.objs)
	d.num[id] = n
	d.objs = append(d.objs, id)
	return n
}

func (d *decomp) formula(f *Formula) func(m *maker) *Formula {
	switch f.Op {
	case fConst:
		fmt.Fprintf(&d.key, "%v", f.B)
		return func(*maker) *Formula { return f }
	case fAnd, fOr:
		d.key.WriteString("(")
		a := d.formula(f.X)
		fmt.Fprintf(&d.key, "%d", f.Op)
		b := d.formula(f.Y)
		d.key.WriteString(")")
		return func(m *maker) *Formula { return &Formula{Op: f.Op, X: a(m), Y: b(m)} }
	}
	fmt.Fprintf(&d.key, "%d", f.Op)
	if f.Set != nil {
		d.key.WriteString(f.Set.String())
	}
	i := d.leaf(f.L)
	return func(m *maker) *Formula { return &Formula{Op: f.Op, L: m.L[i], Set: f.Set} }
}

func (d *decomp) val(v Val) mkFn {
	switch v := v.(type) {
	case nil:
		d.key.WriteByte('_')
		return func(*maker) Val { return nil }
	case IntV:
		i := d.leaf(v.L)
		if p := v.P; p != nil {
			fmt.Fprintf(&d.key, "^%s#%d", p.Tag, p.B.ID)
			k := d.leaf(p.K)
			d.cand = append(d.cand, k)
			return func(m *maker) Val { return IntV{m.L[i], &Prov{p.B, m.L[k], p.Tag}} }
		}
		return func(m *maker) Val { return IntV{L: m.L[i]} }
	case BoolV:
		if d.elem && v.F.Op != fConst {
			// a 0/1 leaf when it is one already
			d.bad = "undecided boolean in an element"
		}
		d.key.WriteByte('?')
		f := d.formula(v.F)
		return func(m *maker) Val { return BoolV{f(m)} }
	case NilV:
		d.key.WriteByte('n')
		return func(*maker) Val { return v }
	case FloatV:
		d.key.WriteString("f" + v.Key)
		return func(*maker) Val { return v }
	case StructV:
		d.key.WriteByte('{')
		ms := make([]mkFn, len(v.F))
		for i, f := range v.F {
			ms[i] = d.val(f)
			d.key.WriteByte(',')
		}
		d.key.WriteByte('}')
		return func(m *maker) Val {
			o := make([]Val, len(ms))
			for i, f := range ms {
				o[i] = f(m)
			}
			return StructV{o}
		}
	case ArrV:
		d.key.WriteByte('[')
		ms := make([]mkFn, len(v.E))
		for i, f := range v.E {
			ms[i] = d.val(f)
			d.key.WriteByte(',')
		}
		d.key.WriteByte(']')
		return func(m *maker) Val {
			o := make([]Val, len(ms))
			for i, f := range ms {
				o[i] = f(m)
			}
			return ArrV{o}
		}
	case TupleV:
		d.key.WriteByte('<')
		ms := make([]mkFn, len(v))
		for i, f := range v {
			ms[i] = d.val(f)
			d.key.WriteByte(',')
		}
		d.key.WriteByte('>')
		return func(m *maker) Val {
			o := make(TupleV, len(ms))
			for i, f := range ms {
				o[i] = f(m)
			}
			return o
		}
	case FuncV:
		fmt.Fprintf(&d.key, "fn%p(", v.Fn)
		ms := make([]mkFn, len(v.Binds))
		for i, f := range v.Binds {
			ms[i] = d.val(f)
			d.key.WriteByte(',')
		}
		d.key.WriteByte(')')
		return func(m *maker) Val {
			o := make([]Val, len(ms))
			for i, f := range ms {
				o[i] = f(m)
			}
			return FuncV{v.Fn, o}
		}
	case *OpaqueFn:
		d.key.WriteString("of" + v.Name)
		return func(*maker) Val { return v }
	case *ssa.Builtin:
		d.key.WriteString("bi" + v.Name())
		return func(*maker) Val { return v }
	case IfaceV:
		d.key.WriteString("I" + types.TypeString(v.T, nil) + ":")
		f := d.val(v.V)
		return func(m *maker) Val { return IfaceV{v.T, f(m)} }
	case OpaqueV:
		d.key.WriteString("o" + v.Tag + "(")
		ix := make([]int, len(v.Idx))
		for i, l := range v.Idx {
			ix[i] = d.leaf(l)
			d.cand = append(d.cand, ix[i])
		}
		d.key.WriteByte(')')
		return func(m *maker) Val {
			o := make([]Lin, len(ix))
			for i, j := range ix {
				o[i] = m.L[j]
			}
			if len(o) == 0 {
				o = nil
			}
			return OpaqueV{v.Tag, o}
		}
	case PtrV:
		v = d.x.resolve(d.st, v)
		if d.elem && len(v.Path) == 0 {
			if o := d.st.heap[v.Obj]; o != nil && o.Seq == nil && o.Map == nil && o.It == nil && o.Bad == "" {
				d.key.WriteByte('*')
				f := d.val(o.V)
				elem := o.Elem
				return func(m *maker) Val {
					id := m.x.NewObj(m.st, &Obj{V: f(m), Elem: elem, Name: "copy"})
					return PtrV{Obj: id}
				}
			}
		}
		if d.elem {
			if o := d.st.heap[v.Obj]; o == nil || !o.Shared {
				d.bad = "pointer in an element"
			}
			fmt.Fprintf(&d.key, "p=%d", v.Obj)
			return d.path(v, func(*maker) ObjID { return v.Obj })
		}
		n := d.objNum(v.Obj)
		fmt.Fprintf(&d.key, "p%d", n)
		return d.path(v, func(m *maker) ObjID { return m.obj[n] })
	case SliceV:
		if v.Obj == 0 {
			d.key.WriteString("s0")
			return func(*maker) Val { return v }
		}
		if d.elem {
			if o := d.st.heap[v.Obj]; o != nil && o.Shared {
				fmt.Fprintf(&d.key, "s=%d", v.Obj)
				a, b := d.leaf(v.Off), d.leaf(v.Len)
				return func(m *maker) Val { return SliceV{v.Obj, m.L[a], m.L[b]} }
			}
			d.key.WriteString("s~")
			b := d.leaf(v.Len)
			var et types.Type
			if o := d.st.heap[v.Obj]; o != nil {
				et = o.Elem
			}
			return func(m *maker) Val {
				id := m.x.NewObj(m.st, &Obj{Seq: &Seq{Segs: []Seg{{Kind: sTop, N: m.L[b]}}}, Elem: et, Name: "copy"})
				return SliceV{id, K(0), m.L[b]}
			}
		}
		n := d.objNum(v.Obj)
		fmt.Fprintf(&d.key, "s%d", n)
		a := d.leaf(v.Off)
		d.cand = append(d.cand, a)
		d.offs = append(d.offs, a)
		b := d.leaf(v.Len)
		return func(m *maker) Val { return SliceV{m.obj[n], m.L[a], m.L[b]} }
	case MapV:
		if d.elem {
			fmt.Fprintf(&d.key, "m=%d", v.Obj)
			return func(*maker) Val { return v }
		}
		n := d.objNum(v.Obj)
		fmt.Fprintf(&d.key, "m%d", n)
		return func(m *maker) Val { return MapV{m.obj[n]} }
	case StrV:
		f := d.str(v)
		return func(m *maker) Val { return f(m) }
	case BuilderV:
		d.key.WriteString("W")
		f := d.str(v.S)
		return func(m *maker) Val { return BuilderV{f(m)} }
	case iterRef:
		n := d.objNum(ObjID(v))
		fmt.Fprintf(&d.key, "it%d", n)
		return func(m *maker) Val { return iterRef(m.obj[n]) }
	}
	panic(fmt.Sprintf("decompose %T", v))
}

// iterRef is the value of an ssa.Range.
type iterRef ObjID

func (d *decomp) path(v PtrV, ob func(*maker) ObjID) mkFn {
	type el struct {
		f, i int
		idx  bool
	}
	var es []el
	for _, e := range v.Path {
		if e.IsIdx {
			d.key.WriteByte('@')
			es = append(es, el{i: d.leaf(e.Idx), idx: true})
		} else {
			fmt.Fprintf(&d.key, ".%d", e.Field)
			es = append(es, el{f: e.Field})
		}
	}
	return func(m *maker) Val {
		p := PtrV{Obj: ob(m)}
		for _, e := range es {
			if e.idx {
				p.Path = append(p.Path, PathEl{Idx: m.L[e.i], IsIdx: true})
			} else {
				p.Path = append(p.Path, PathEl{Field: e.f})
			}
		}
		return p
	}
}

func (d *decomp) str(v StrV) func(m *maker) StrV {
	type pc struct {
		p    Piece
		a, b int
	}
	ps := make([]pc, len(v.P))
	d.key.WriteByte('"')
	for i, p := range v.P {
		q := pc{p: p, a: -1, b: -1}
		switch p.Kind {
		case pSub:
			fmt.Fprintf(&d.key, "B%d", p.Base.ID)
			q.a, q.b = d.leaf(p.Lo), d.leaf(p.Hi)
		case pLit:
			fmt.Fprintf(&d.key, "%q", p.Lit)
		case pRune:
			d.key.WriteByte('r')
			q.a, q.b = d.leaf(p.Lo), d.leaf(p.Hi)
		case pTag:
			fmt.Fprintf(&d.key, "t%q", p.Lit)
			q.a, q.b = d.leaf(p.Lo), d.leaf(p.Hi)
			d.cand = append(d.cand, q.a)
		case pSeq:
			d.key.WriteByte('~')
			q.b = d.leaf(p.Hi)
		}
		ps[i] = q
	}
	d.key.WriteByte('"')
	return func(m *maker) StrV {
		o := make([]Piece, len(ps))
		for i, q := range ps {
			o[i] = q.p
			if q.a >= 0 {
				o[i].Lo = m.L[q.a]
			}
			if q.b >= 0 {
				o[i].Hi = m.L[q.b]
			}
		}
		return StrV{o}
	}
}

func (d *decomp) seg(s Seg) func(m *maker) Seg {
	switch s.Kind {
	case sElems:
		d.key.WriteString("E[")
		ms := make([]mkFn, len(s.Elems))
		pend := s.Pend
		if pend != 0 {
			fmt.Fprintf(&d.key, "!%x", pend)
		}
		for i, e := range s.Elems {
			if d.spec != nil && d.spec.KeyOf != nil {
				d.key.WriteString("<" + d.spec.KeyOf(d.x, d.st, e) + ">")
			}
			ms[i] = d.val(e)
			d.key.WriteByte(';')
		}
		d.key.WriteByte(']')
		return func(m *maker) Seg {
			o := Seg{Kind: sElems, Elems: make([]Val, len(ms)), Pend: pend}
			for i, f := range ms {
				o.Elems[i] = f(m)
			}
			return o
		}
	case sSrc:
		d.key.WriteString("S" + s.Src.Name)
		a, b := d.leaf(s.Lo), d.leaf(s.Hi)
		if s.Src.Split {
			d.cand = append(d.cand, a)
		}
		return func(m *maker) Seg { return Seg{Kind: sSrc, Src: s.Src, Lo: m.L[a], Hi: m.L[b]} }
	case sFill:
		d.key.WriteString("F")
		z := d.val(s.Zero)
		n := d.leaf(s.N)
		return func(m *maker) Seg { return Seg{Kind: sFill, Zero: z(m), N: m.L[n]} }
	case sTop:
		d.key.WriteString("T")
		n := d.leaf(s.N)
		return func(m *maker) Seg { return Seg{Kind: sTop, N: m.L[n]} }
	case sChain:
		d.key.WriteString("M" + s.C.Spec.Name + "(")
		n := d.leaf(s.C.N)
		ms := make([]mkFn, len(s.C.R))
		for i, r := range s.C.R {
			if _, ok := r.(IntV); ok && s.C.Spec.Index {
				d.cand = append(d.cand, len(d.L))
			}
			ms[i] = d.val(r)
			d.key.WriteByte(',')
		}
		d.key.WriteString(")")
		return func(m *maker) Seg {
			c := &Chain{Spec: s.C.Spec, N: m.L[n]}
			for _, f := range ms {
				c.R = append(c.R, f(m))
			}
			return Seg{Kind: sChain, C: c}
		}
	}
	panic("seg")
}

func (d *decomp) object(id ObjID) func(m *maker) *Obj {
	o := d.st.heap[id]
	if o == nil {
		fmt.Fprintf(&d.key, "?obj%d", id)
		return func(*maker) *Obj { return nil }
	}
	base := *o
	base.Reads = nil
	if o.Bad != "" {
		d.key.WriteString("bad")
	}
	if o.Frozen {
		d.key.WriteString("frozen")
	}
	if o.Shared {
		fmt.Fprintf(&d.key, "#%d", id)
	}
	switch {
	case o.It != nil:
		it := *o.It
		if it.Map != nil {
			d.key.WriteString("itm")
			f := d.val(it.Map)
			k := d.leaf(it.K)
			return func(m *maker) *Obj {
				b := base
				b.It = &Iter{Map: f(m), K: m.L[k]}
				return &b
			}
		}
		d.key.WriteString("its")
		f := d.str(it.Str)
		k := d.leaf(it.K)
		d.cand = append(d.cand, k)
		h := d.leaf(it.KHi)
		return func(m *maker) *Obj {
			b := base
			b.It = &Iter{Str: f(m), K: m.L[k], KHi: m.L[h]}
			return &b
		}
	case o.Map != nil:
		return d.mapObj(o, base)
	case o.Seq != nil:
		d.key.WriteString("q")
		if o.Boxed {
			d.key.WriteString("*")
		}
		ms := make([]func(*maker) Seg, len(o.Seq.Segs))
		d.spec = d.x.specOf(o.Elem)
		for i, s := range o.Seq.Segs {
			ms[i] = d.seg(s)
		}
		d.spec = nil
		return func(m *maker) *Obj {
			b := base
			q := &Seq{}
			for _, f := range ms {
				q.Segs = append(q.Segs, f(m))
			}
			b.Seq = q
			return &b
		}
	}
	d.key.WriteString("c")
	f := d.val(o.V)
	return func(m *maker) *Obj {
		b := base
		b.V = f(m)
		return &b
	}
}

func (d *decomp) mapObj(o *Obj, base Obj) func(m *maker) *Obj {
	d.key.WriteString("map" + o.Map.Name + "(")
	type km struct{ k, v mkFn }
	var ms []km
	for _, e := range o.Map.Ents {
		ms = append(ms, km{d.val(e.K), d.val(e.V)})
		d.key.WriteByte(';')
	}
	d.key.WriteByte(')')
	n := -1
	if o.Map.Len != nil {
		n = d.leaf(*o.Map.Len)
	}
	mo := *o.Map
	return func(m *maker) *Obj {
		b := base
		q := mo
		q.Ents = nil
		for _, e := range ms {
			q.Ents = append(q.Ents, mapEnt{e.k(m), e.v(m)})
		}
		if n >= 0 {
			l := m.L[n]
			q.Len = &l
		}
		b.Map = &q
		return &b
	}
}

// dstate is a decomposed state.
type dstate struct {
	*decomp
	mk func(m *maker) *State
}

// decompose splits a whole state. live restricts the registers of the top
// frame.
func (x *Interp) decompose(st *State) *dstate {
	d := newDecomp(x, st)
	type reg struct {
		v ssa.Value
		f mkFn
	}
	type fr struct {
		fr   *Frame
		regs []reg
		defs []func(m *maker) deferred
	}
	var frs []fr
	for _, f := range st.frames {
		one := fr{fr: f}
		fmt.Fprintf(&d.key, "|F%p:", f.Fn)
		vs := x.order(f)
		for _, v := range vs {
			fmt.Fprintf(&d.key, "%s=", v.Name())
			n0 := len(d.L)
			if p, ok := v.(*ssa.Phi); ok && p.Comment != "rangeindex" {
				if i, ok := f.Env[v].(IntV); ok && st.P.Reduce(i.L).Eq(K(-1)) {
					// -1 tells that there is nothing yet
					d.key.WriteString("none")
				}
			}
			mk := d.val(f.Env[v])
			if _, ok := f.Env[v].(IntV); ok {
				d.cand = append(d.cand, n0)
			}
			one.regs = append(one.regs, reg{v, mk})
		}
		for _, df := range f.Defers {
			fmt.Fprintf(&d.key, "defer%p(", df.call)
			df := df
			fn := d.val(df.fn)
			var as []mkFn
			for _, a := range df.args {
				as = append(as, d.val(a))
			}
			one.defs = append(one.defs, func(m *maker) deferred {
				o := deferred{call: df.call, fn: fn(m)}
				for _, a := range as {
					o.args = append(o.args, a(m))
				}
				return o
			})
		}
		frs = append(frs, one)
	}
	var gn []string
	for g := range st.ghost {
		gn = append(gn, g)
	}
	sort.Strings(gn)
	gm := make([]mkFn, len(gn))
	for i, g := range gn {
		d.key.WriteString("|g" + g + "=")
		if _, ok := st.ghost[g].(IntV); ok && g[0] == '@' {
			d.cand = append(d.cand, len(d.L)) // an index to remember
		}
		gm[i] = d.val(st.ghost[g])
	}
	// facts
	var fs []string
	for f, b := range st.facts {
		fs = append(fs, fmt.Sprintf("%s=%v", f, b))
	}
	sort.Strings(fs)
	d.key.WriteString("|facts" + strings.Join(fs, ","))
	// global variables are roots
	var gl []ObjID
	for _, id := range x.Global {
		gl = append(gl, id)
	}
	gl = append(gl, x.Roots...)
	sort.Slice(gl, func(i, j int) bool { return gl[i] < gl[j] })
	for _, id := range gl {
		if st.heap[id] != nil {
			d.objNum(id)
		}
	}
	// materialised objects
	var mn []string
	for t := range st.mats {
		mn = append(mn, t)
	}
	sort.Strings(mn)
	// objects reachable
	var oms []func(m *maker) *Obj
	for i := 0; i < len(d.objs); i++ {
		d.key.WriteString("|o:")
		oms = append(oms, d.object(d.objs[i]))
	}
	// remembered element reads next to a counter
	type rd struct {
		obj  int
		leaf int
		off  int64
		f    mkFn
	}
	var rds []rd
	for n := 0; n < len(oms); n++ {
		o := st.heap[d.objs[n]]
		if o == nil {
			continue
		}
		seen := map[string]bool{}
		for _, r := range o.Reads {
			ri := st.P.Reduce(r.idx)
			for _, c := range d.cand {
				df, ok := ri.Sub(d.L[c]).Const()
				if !ok || df < -1 || df > 1 {
					continue
				}
				if ri.IsConst() || !d.known(r.v) {
					continue
				}
				tag := fmt.Sprintf("%d,%d", c, df)
				if seen[tag] {
					continue
				}
				seen[tag] = true
				fmt.Fprintf(&d.key, "|R%d,%s=", n, tag)
				f := d.val(r.v)
				rds = append(rds, rd{n, c, df, f})
				break
			}
		}
	}
	for i := len(oms); i < len(d.objs); i++ {
		d.key.WriteString("|o:")
		oms = append(oms, d.object(d.objs[i]))
	}
	mk := func(m *maker) *State {
		n := m.st
		for _, f := range frs {
			g := &Frame{Fn: f.fr.Fn, Env: map[ssa.Value]Val{}}
			for _, r := range f.regs {
				g.Env[r.v] = r.f(m)
			}
			for _, df := range f.defs {
				g.Defers = append(g.Defers, df(m))
			}
			n.frames = append(n.frames, g)
		}
		for i, g := range gn {
			n.ghost[g] = gm[i](m)
		}
		for k, v := range st.facts {
			n.facts[k] = v
		}
		for i, f := range oms {
			if o := f(m); o != nil {
				n.heap[m.obj[i]] = o
			}
		}
		for _, r := range rds {
			o := *n.heap[m.obj[r.obj]]
			o.Reads = append(append([]readEnt(nil), o.Reads...), readEnt{m.L[r.leaf].AddK(r.off), r.f(m)})
			n.heap[m.obj[r.obj]] = &o
		}
		return n
	}
	return &dstate{d, mk}
}

// known tells whether v refers only to objects that are already numbered.
func (d *decomp) known(v Val) bool {
	in := func(id ObjID) bool {
		if id == 0 {
			return true
		}
		_, ok := d.num[id]
		return ok
	}
	all := func(vs []Val) bool {
		for _, e := range vs {
			if !d.known(e) {
				return false
			}
		}
		return true
	}
	switch v := v.(type) {
	case PtrV:
		return in(v.Obj)
	case SliceV:
		return in(v.Obj)
	case MapV:
		return in(v.Obj)
	case IfaceV:
		return d.known(v.V)
	case FuncV:
		return all(v.Binds)
	case StructV:
		return all(v.F)
	case ArrV:
		return all(v.E)
	case TupleV:
		return all(v)
	}
	return true
}
