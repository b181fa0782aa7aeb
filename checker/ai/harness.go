package ai

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// Pkg finds a package of the module by its path below the module.
func (x *Interp) Pkg(path string) *ssa.Package {
	p := x.Prog.Pkgs[path]
	if p == nil {
		panic("package " + path + " not found")
	}
	return p
}

// InitGlobals evaluates the initialisers of the given packages, and of the
// packages of the module they import, in st.
func (x *Interp) InitGlobals(st *State, paths ...string) *State {
	done := map[*types.Package]bool{}
	var order []*ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] || !core.InModulePath(p.Path()) {
			return
		}
		done[p] = true
		im := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(im, func(i, j int) bool { return im[i].Path() < im[j].Path() })
		for _, q := range im {
			visit(q)
		}
		if sp := x.Prog.Prog.Package(p); sp != nil {
			order = append(order, sp)
		}
	}
	for _, p := range paths {
		visit(x.Pkg(p).Pkg)
	}
	if !x.LoudInit {
		x.mute++
		defer func() { x.mute-- }()
	}
	for _, p := range order {
		var names []string
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := p.Members[n].(*ssa.Global)
			id := x.newCell(st, g.Type().(*types.Pointer).Elem())
			x.Global[g] = id
			st.heap[id].Name = g.String()
		}
		init := p.Func("init")
		for _, m := range order {
			if f := m.Func("init"); f != nil && f != init {
				x.Stubs[f.String()] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return one(st, TupleV{}) }
			}
		}
		for _, q := range p.Pkg.Imports() {
			if !core.InModulePath(q.Path()) {
				x.Stubs[q.Path()+".init"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return one(st, TupleV{}) }
			}
		}
		outs := x.Exec(st, init, nil, nil)
		var live []*State
		for _, o := range outs {
			if !o.Panic {
				live = append(live, o.St)
			}
		}
		if len(live) == 0 {
			panic("package initialisation of " + p.Pkg.Path() + " never ends")
		}
		if len(live) > 1 {
			live = x.Merge(live, 1)
		}
		st = live[0]
	}
	for id, o := range st.heap {
		if !o.Shared {
			n := *o
			n.Shared = true
			st.heap[id] = &n
		}
	}
	return st
}

// Method finds a method by type and name.
func (x *Interp) Method(pkg, typ, name string) *ssa.Function {
	p := x.Pkg(pkg)
	t := p.Type(typ)
	if t == nil {
		panic("type " + pkg + "." + typ + " not found")
	}
	for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := x.Prog.Prog.MethodSets.MethodSet(ty)
		if sel := ms.Lookup(p.Pkg, name); sel != nil {
			return x.Prog.Prog.MethodValue(sel)
		}
	}
	panic("method " + pkg + "." + typ + "." + name + " not found")
}

// Func finds a package-level function.
func (x *Interp) Func(pkg, name string) *ssa.Function {
	f := x.Pkg(pkg).Func(name)
	if f == nil {
		panic("function " + pkg + "." + name + " not found")
	}
	return f
}

// Type finds a named type.
func (x *Interp) Type(pkg, name string) types.Type {
	t := x.Pkg(pkg).Type(name)
	if t == nil {
		panic("type " + pkg + "." + name + " not found")
	}
	return t.Type()
}

// FieldIdx gives the index of a field of a struct.
func FieldIdx(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic("field " + name + " not found in " + t.String())
}

// Run analyses a call from a fresh frame.
func (x *Interp) Run(st *State, fn *ssa.Function, args ...Val) []Outcome {
	return x.Exec(st, fn, args, nil)
}

// Close reports what could not be analysed.
func (x *Interp) Close(scope string) {
	var ks []string
	for k := range x.Unsup {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.Rep.Fail("every construct on the analysed paths is understood", scope+"|"+k, "", "%s: %s", scope, x.Unsup[k])
	}
	x.Rep.Stats["functions analysed"] += len(x.Inlined)
	x.Rep.Stats["block visits"] += x.Steps
}

func dbg(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f, a...) }

// isSub reports whether s is certainly the part [lo,hi) of b.
func (x *Interp) isSub(st *State, s StrV, b *StrBase, lo, hi Lin) bool {
	if len(s.P) == 0 {
		return x.ProveEQ(st, hi.Sub(lo))
	}
	if s = x.concat(st, s); len(s.P) == 0 {
		return x.ProveEQ(st, hi.Sub(lo))
	}
	return len(s.P) == 1 && s.P[0].Kind == pSub && s.P[0].Base == b && x.ProveEQ(st, s.P[0].Lo.Sub(lo)) && x.ProveEQ(st, s.P[0].Hi.Sub(hi))
}

// Pred declares an arbitrary predicate on runes.
func (x *Interp) Pred(name string) *OpaqueFn {
	return &OpaqueFn{Name: name, Fn: func(x *Interp, st *State, a []Val) []Outcome {
		return one(st, BoolV{x.predicate(st, name, a[0].(IntV).L)})
	}}
}

// RuneFn declares an arbitrary function on runes.
func (x *Interp) RuneFn(name string) *OpaqueFn {
	return &OpaqueFn{Name: name, Fn: func(x *Interp, st *State, a []Val) []Outcome {
		return one(st, image(a[0], name, x.RuneMap(st, name, a[0].(IntV).L, nil)))
	}}
}

// Spec installs the summary of sequences of type elem.
func (x *Interp) Spec(elem types.Type, s *ChainSpec) {
	if x.Specs == nil {
		x.Specs = map[string]*ChainSpec{}
	}
	x.Specs[types.TypeString(elem, nil)] = s
}

// dead reports whether the state is unreachable.
func (st *State) unreachable() bool { return st.dead || st.P.bot }

// Check is an obligation that l == 0 in st.
func (x *Interp) CheckEQ(st *State, rule, key, pos string, l Lin, format string, a ...interface{}) {
	ok := x.ProveEQ(st, l)
	if !st.unreachable() {
		x.Obl(rule, key, pos, ok, format, a...)
	}
}

// CheckGE is an obligation that l >= 0 in st.
func (x *Interp) CheckGE(st *State, rule, key, pos string, l Lin, format string, a ...interface{}) {
	ok := x.ProveGE(st, l)
	if !st.unreachable() {
		x.Obl(rule, key, pos, ok, format, a...)
	}
}
