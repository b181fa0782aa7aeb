// Package flow holds the dataflow analyses over the SSA form: effects and
// ownership, error propagation, sources of nondeterminism.
package flow

import (
	"go/types"

	"gtcheck/core"

	"golang.org/x/tools/go/ssa"
)

// CallGraph resolves calls inside the module.
type CallGraph struct {
	P     *core.Program
	taken map[*ssa.Function]bool // functions used as values
}

func NewCallGraph(p *core.Program) *CallGraph {
	g := &CallGraph{P: p, taken: map[*ssa.Function]bool{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g.taken[mc.Fn.(*ssa.Function)] = true
				}
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee {
						g.taken[f] = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						if f, ok := a.(*ssa.Function); ok {
							g.taken[f] = true
						}
					}
				}
			}
		}
	}
	return g
}

// Callees returns the module functions a call may enter, and whether it may
// also enter code outside the module.
func (g *CallGraph) Callees(c *ssa.CallCommon) (fns []*ssa.Function, external bool) {
	if c.IsInvoke() {
		iface := c.Value.Type().Underlying().(*types.Interface)
		for _, sp := range g.P.Pkgs {
			for _, m := range sp.Members {
				t, ok := m.(*ssa.Type)
				if !ok {
					continue
				}
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if types.IsInterface(ty) || !types.Implements(ty, iface) {
						continue
					}
					sel := g.P.Prog.MethodSets.MethodSet(ty).Lookup(c.Method.Pkg(), c.Method.Name())
					if sel == nil {
						continue
					}
					if f := g.P.Prog.MethodValue(sel); f != nil {
						fns = append(fns, f)
					}
				}
			}
		}
		return fns, true
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		if g.P.InModule(v) && len(v.Blocks) > 0 {
			return []*ssa.Function{v}, false
		}
		return nil, true
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}, false
	case *ssa.Builtin:
		return nil, false
	}
	sig := c.Value.Type().Underlying().(*types.Signature)
	for f := range g.taken {
		if g.P.InModule(f) && len(f.Blocks) > 0 && types.Identical(stripRecv(f.Signature), stripRecv(sig)) {
			fns = append(fns, f)
		}
	}
	return fns, true
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// Reach is the set of module functions reachable from the roots.
func (g *CallGraph) Reach(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fns, _ := g.Callees(c.Common())
					for _, c := range fns {
						visit(c)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && g.P.InModule(f) {
						visit(f)
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

// extName is "pkg.Func" or "(pkg.Type).Method" of an external callee.
func extName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke " + c.Method.FullName()
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		return f.String()
	}
	return "dynamic"
}

func extPkg(c *ssa.CallCommon) string {
	if f, ok := c.Value.(*ssa.Function); ok && f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}
