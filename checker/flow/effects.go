package flow

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"gtcheck/core"

	"golang.org/x/tools/go/ssa"
)

// Effects decides C21: no code reachable from the use of a component stores
// into memory owned by a component or into package-level memory.
//
// It is a flow-insensitive, field-insensitive points-to analysis over regions:
// Component (receivers of components and whatever they own), Global (package
// variables and what they own), Data (the strings and other arguments being
// worked on), External (results of library calls), and one region for each
// allocation site.
type region interface{}

type regKind int

const (
	regComponent regKind = iota
	regGlobal
	regData
	regExternal
)

func (k regKind) String() string {
	return [...]string{"component", "package-level", "argument", "library"}[k]
}

type effects struct {
	p        *core.Program
	g        *CallGraph
	pts      map[ssa.Value]map[region]bool
	contents map[region]map[region]bool
	rets     map[*ssa.Function][]map[region]bool
	reach    map[*ssa.Function]bool
	ctor     map[*ssa.Function]bool
	tuples   map[tupleKey]map[region]bool
	changed  bool
}

func add(m *map[region]bool, r region, ch *bool) {
	if *m == nil {
		*m = map[region]bool{}
	}
	if !(*m)[r] {
		(*m)[r] = true
		*ch = true
	}
}

func (e *effects) put(v ssa.Value, rs map[region]bool) {
	m := e.pts[v]
	for r := range rs {
		add(&m, r, &e.changed)
	}
	e.pts[v] = m
}

type tupleKey struct {
	v ssa.Value
	i int
}

func (e *effects) putTuple(v ssa.Value, i int, rs map[region]bool) {
	k := tupleKey{v, i}
	m := e.tuples[k]
	for r := range rs {
		add(&m, r, &e.changed)
	}
	e.tuples[k] = m
}
func (e *effects) get(v ssa.Value) map[region]bool {
	switch x := v.(type) {
	case *ssa.Global:
		if !core.InModulePath(x.Pkg.Pkg.Path()) {
			return map[region]bool{regGlobal: true}
		}
		return map[region]bool{regGlobal: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	return e.pts[v]
}
func (e *effects) load(rs map[region]bool) map[region]bool {
	out := map[region]bool{}
	for r := range rs {
		if k, ok := r.(regKind); ok {
			out[k] = true
		}
		for c := range e.contents[r] {
			out[c] = true
		}
	}
	return out
}
func (e *effects) storeInto(rs, vs map[region]bool) {
	for r := range rs {
		if r == region(regExternal) {
			continue // memory of the library, never handed out by the module
		}
		m := e.contents[r]
		for v := range vs {
			if r != region(v) {
				add(&m, v, &e.changed)
			}
		}
		e.contents[r] = m
	}
}

// pointerish reports whether values of the type can give access to memory.
func pointerish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerish(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerish(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerish(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (e *effects) transfer(fn *ssa.Function) {
	one := func(r region) map[region]bool { return map[region]bool{r: true} }
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
				e.put(x.(ssa.Value), one(in))
			case *ssa.MakeClosure:
				e.put(x, one(in))
				f := x.Fn.(*ssa.Function)
				for i, bv := range x.Bindings {
					e.put(f.FreeVars[i], e.get(bv))
				}
				for _, bv := range x.Bindings {
					e.storeInto(one(in), e.get(bv))
				}
			case *ssa.FieldAddr:
				e.put(x, e.get(x.X))
			case *ssa.IndexAddr:
				e.put(x, e.get(x.X))
			case *ssa.Field:
				e.put(x, e.get(x.X))
			case *ssa.Index:
				e.put(x, e.get(x.X))
			case *ssa.Slice:
				e.put(x, e.get(x.X))
			case *ssa.Phi:
				for _, ed := range x.Edges {
					e.put(x, e.get(ed))
				}
			case *ssa.ChangeType:
				e.put(x, e.get(x.X))
			case *ssa.ChangeInterface:
				e.put(x, e.get(x.X))
			case *ssa.MakeInterface:
				e.put(x, e.get(x.X))
			case *ssa.TypeAssert:
				e.put(x, e.get(x.X))
			case *ssa.SliceToArrayPointer:
				e.put(x, e.get(x.X))
			case *ssa.Convert:
				if pointerish(x.X.Type()) && pointerish(x.Type()) {
					e.put(x, e.get(x.X))
				} else {
					e.put(x, one(in))
				}
			case *ssa.UnOp:
				if x.Op.String() == "*" {
					if pointerish(x.Type()) {
						e.put(x, e.load(e.get(x.X)))
					}
				} else if x.Op.String() == "<-" {
					e.put(x, e.load(e.get(x.X)))
				}
			case *ssa.Lookup:
				if pointerish(x.Type()) {
					e.put(x, e.load(e.get(x.X)))
				}
			case *ssa.Range:
				e.put(x, e.get(x.X))
			case *ssa.Next:
				if pointerish(x.Type()) {
					e.put(x, e.load(e.get(x.Iter)))
				}
			case *ssa.Extract:
				if pointerish(x.Type()) {
					e.put(x, e.get(x.Tuple))
					e.put(x, e.tuples[tupleKey{x.Tuple, x.Index}])
				}
			case *ssa.Store:
				if pointerish(x.Val.Type()) {
					e.storeInto(e.get(x.Addr), e.get(x.Val))
				}
			case *ssa.MapUpdate:
				e.storeInto(e.get(x.Map), e.get(x.Value))
				e.storeInto(e.get(x.Map), e.get(x.Key))
			case *ssa.Send:
				e.storeInto(e.get(x.Chan), e.get(x.X))
			case *ssa.Return:
				rs := e.rets[fn]
				if rs == nil {
					rs = make([]map[region]bool, len(x.Results))
				}
				for i, r := range x.Results {
					for g := range e.get(r) {
						add(&rs[i], g, &e.changed)
					}
				}
				e.rets[fn] = rs
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				e.call(in, c.Common())
			}
		}
	}
}

func (e *effects) call(in ssa.Instruction, c *ssa.CallCommon) {
	var res ssa.Value
	if v, ok := in.(ssa.Value); ok {
		res = v
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			e.put(res, e.get(c.Args[0]))
			e.put(res, map[region]bool{in: true})
			if len(c.Args) > 1 && pointerish(c.Args[0].Type().Underlying().(*types.Slice).Elem()) {
				e.storeInto(e.get(res), e.load(e.get(c.Args[1])))
				e.storeInto(e.get(res), e.load(e.get(c.Args[0])))
			}
		case "copy":
			e.storeInto(e.get(c.Args[0]), e.load(e.get(c.Args[1])))
		}
		return
	}
	fns, ext := e.g.Callees(c)
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	for _, f := range fns {
		for i, p := range f.Params {
			if i < len(args) {
				e.put(p, e.get(args[i]))
			}
		}
		if res != nil {
			if _, tuple := res.Type().(*types.Tuple); tuple {
				for i, r := range e.rets[f] {
					e.putTuple(res, i, r)
				}
			} else {
				for _, r := range e.rets[f] {
					e.put(res, r)
				}
			}
		}
	}
	if ext && res != nil && pointerish(res.Type()) {
		e.put(res, map[region]bool{regExternal: true})
		// a library result may give access to what was passed in
		for _, a := range args {
			if pointerish(a.Type()) && extPkg(c) != "" && !purePkgs[extPkg(c)] {
				e.put(res, e.get(a))
			}
		}
	}
	if ext && extPkg(c) != "" {
		// a library function may keep arguments in the memory of others (heap.Push)
		for _, a := range args {
			for _, b := range args {
				if a != b && pointerish(a.Type()) && pointerish(b.Type()) && !purePkgs[extPkg(c)] {
					e.storeInto(e.get(a), e.get(b))
				}
			}
		}
	}
}

// purePkgs never write through the arguments they are given and are safe for
// concurrent use (documented), except for the methods listed in mutators.
var purePkgs = map[string]bool{
	"unicode": true, "unicode/utf8": true, "regexp": true, "strings": true,
	"github.com/dlclark/regexp2": true, "fmt": true, "errors": true,
	"strconv": true, "math": true, "reflect": true, "math/bits": true,
}

// mutating methods of otherwise pure packages, by receiver type.
func mutatesReceiver(f *ssa.Function) bool {
	recv := f.Signature.Recv()
	if recv == nil {
		return false
	}
	ptr, ok := recv.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := types.TypeString(ptr.Elem(), nil)
	switch n {
	case "regexp.Regexp":
		return f.Name() == "Longest" || strings.HasPrefix(f.Name(), "Unmarshal")
	case "github.com/dlclark/regexp2.Regexp", "github.com/dlclark/regexp2.Match",
		"github.com/dlclark/regexp2.Group", "github.com/dlclark/regexp2.Capture", "strings.Replacer", "strings.NewReplacer":
		return false
	}
	return true
}

// written lists the regions a call to library code may write to.
func (e *effects) externalWrites(c *ssa.CallCommon) []ssa.Value {
	f, ok := c.Value.(*ssa.Function)
	if !ok || c.IsInvoke() {
		return nil // user supplied code
	}
	if purePkgs[extPkg(c)] {
		if mutatesReceiver(f) && len(c.Args) > 0 {
			return c.Args[:1]
		}
		if strings.HasPrefix(f.Name(), "Sscan") || strings.HasPrefix(f.Name(), "Fscan") || f.Name() == "As" {
			return c.Args
		}
		return nil
	}
	var out []ssa.Value
	for _, a := range c.Args {
		if pointerish(a.Type()) {
			if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				continue
			}
			out = append(out, a)
		}
	}
	return out
}

// ComponentTypes are the named types whose values are shared: everything that
// implements one of the four component interfaces, and the types they own.
func ComponentTypes(p *core.Program) (comps map[*types.Named]bool, data map[*types.Named]bool) {
	comps, data = map[*types.Named]bool{}, map[*types.Named]bool{}
	var ifaces []*types.Interface
	for _, q := range [][2]string{{"normalizers", "Normalizer"}, {"pretokenizers", "PreTokenizer"}, {"splitpattern", "SplitPattern"}, {"models", "Model"}} {
		if sp := p.Pkgs[q[0]]; sp != nil && sp.Type(q[1]) != nil {
			ifaces = append(ifaces, sp.Type(q[1]).Type().Underlying().(*types.Interface))
		}
	}
	named := func(pkg, name string, m map[*types.Named]bool) {
		if sp := p.Pkgs[pkg]; sp != nil && sp.Type(name) != nil {
			m[sp.Type(name).Type().(*types.Named)] = true
		}
	}
	named("normalizedstring", "NormalizedString", data)
	named("pretokenizedstring", "PreTokenizedString", data)
	named("models/bpemodel", "Word", data)
	named("models/bpemodel", "WordMergeHeap", data)
	named("models/bpemodel", "WordSymbol", data)
	named("encodings", "Encoding", data)
	named("strutils", "BytesToRuneOffsetConverter", comps)
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok || types.IsInterface(n) {
				continue
			}
			for _, i := range ifaces {
				if types.Implements(n, i) || types.Implements(types.NewPointer(n), i) {
					comps[n] = true
				}
			}
		}
	}
	// what components own, transitively through their fields
	for again := true; again; {
		again = false
		for n := range comps {
			var walk func(t types.Type)
			walk = func(t types.Type) {
				switch u := t.(type) {
				case *types.Pointer:
					walk(u.Elem())
				case *types.Slice:
					walk(u.Elem())
				case *types.Map:
					walk(u.Elem())
				case *types.Named:
					if u.Obj().Pkg() != nil && core.InModulePath(u.Obj().Pkg().Path()) && !types.IsInterface(u) && !comps[u] && !data[u] {
						comps[u] = true
						again = true
					}
				case *types.Struct:
					for i := 0; i < u.NumFields(); i++ {
						walk(u.Field(i).Type())
					}
				}
			}
			walk(n.Underlying())
		}
	}
	return comps, data
}

// mutator methods of component-owned types, which belong to construction.
var constructionMethods = map[string]bool{
	"(*models/bpemodel.MergeMap).Set": true, "(*vocabulary.Vocabulary).AddTerm": true,
	"(*models/bpemodel.WordCache).Set": true, "(*models/bpemodel.WordCache).SetValues": true,
}

// CheckEffects runs the analysis for C21.
func CheckEffects(p *core.Program, r *core.Report) {
	g := NewCallGraph(p)
	comps, data := ComponentTypes(p)
	e := &effects{p: p, g: g, pts: map[ssa.Value]map[region]bool{}, contents: map[region]map[region]bool{}, rets: map[*ssa.Function][]map[region]bool{}, tuples: map[tupleKey]map[region]bool{}}
	var entries []*ssa.Function
	isComp := map[*ssa.Function]bool{}
	methods := func(n *types.Named) (out []*ssa.Function) {
		ms := p.Prog.MethodSets.MethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			if f := p.Prog.MethodValue(ms.At(i)); f != nil && len(f.Blocks) > 0 {
				out = append(out, f)
			}
		}
		return
	}
	for n := range comps {
		for _, f := range methods(n) {
			if constructionMethods[core.Short(f.String())] || f.Object() == nil || !f.Object().Exported() {
				continue // part of construction, or followed from its callers
			}
			entries = append(entries, f)
			isComp[f] = true
		}
	}
	for n := range data {
		entries = append(entries, methods(n)...)
	}
	for _, sp := range p.Pkgs {
		if sp.Pkg.Path() == core.ModPath+"/strutils" || sp.Pkg.Path() == core.ModPath+"/encodings" || sp.Pkg.Path() == core.ModPath+"/pretokenizedstring" || sp.Pkg.Path() == core.ModPath+"/normalizedstring" {
			for _, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") && f.Object() != nil && f.Object().Exported() {
					entries = append(entries, f)
				}
			}
		}
	}
	e.reach = g.Reach(entries)
	for _, f := range entries {
		for i, prm := range f.Params {
			if !pointerish(prm.Type()) {
				continue
			}
			if i == 0 && isComp[f] {
				e.put(prm, map[region]bool{regComponent: true})
			} else {
				e.put(prm, map[region]bool{regData: true})
			}
		}
	}
	// Closures made by plain functions (constructors) may be kept in a
	// component: what they capture belongs to the component.
	useRoot := map[*ssa.Function]bool{}
	for _, f := range entries {
		if f.Signature.Recv() != nil {
			useRoot[f] = true
		}
	}
	for _, fn := range p.Funcs {
		if fn.Parent() == nil {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Signature.Recv() == nil && returnsComponent(root, comps) {
			for _, fv := range fn.FreeVars {
				if pointerish(fv.Type()) {
					e.put(fv, map[region]bool{regComponent: true})
				}
			}
		}
	}
	for e.changed = true; e.changed; {
		e.changed = false
		for _, fn := range p.Funcs {
			e.transfer(fn)
		}
	}
	ord := map[string]int{}
	for _, fn := range p.Funcs {
		if !e.reach[fn] {
			continue
		}
		r.Stats["functions"]++
		check := func(in ssa.Instruction, what string, v ssa.Value) {
			r.Stats["writes"]++
			k := core.Short(fn.String()) + " " + what
			ord[k]++
			key := k
			if ord[k] > 1 {
				key = fmt.Sprintf("%s #%d", k, ord[k])
			}
			var bad []string
			for g := range e.get(v) {
				switch q := g.(type) {
				case regKind:
					if q == regComponent || q == regGlobal {
						bad = append(bad, q.String())
					}
				case ssa.Instruction:
					if !e.reach[q.Parent()] {
						bad = append(bad, "memory allocated by the constructor "+core.Short(q.Parent().String()))
					}
				}
			}
			sort.Strings(bad)
			if len(bad) > 0 {
				r.Fail("no-shared-write", key, p.Pos(in.Pos()), "writes %s memory while being used", strings.Join(bad, " and "))
			} else {
				r.Pass("no-shared-write", key, p.Pos(in.Pos()), "writes memory of its own or of the string it works on")
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if a, ok := x.Addr.(*ssa.Alloc); ok && !a.Heap {
						r.Stats["stack_writes"]++
						continue
					}
					check(in, "store "+describe(x.Addr), x.Addr)
				case *ssa.MapUpdate:
					check(in, "map update "+describe(x.Map), x.Map)
				case *ssa.Send:
					check(in, "send "+describe(x.Chan), x.Chan)
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							check(in, bi.Name()+" "+describe(cc.Args[0]), cc.Args[0])
						}
						continue
					}
					_, ext := g.Callees(cc)
					if ext {
						for i, a := range e.externalWrites(cc) {
							check(in, fmt.Sprintf("call %s argument %d", extName(cc), i), a)
						}
					}
				}
			}
		}
	}
	r.Stats["entry_points"] = len(entries)
	for n := range comps {
		r.Stats["component_types"]++
		r.Pass("component", core.Short(n.String()), p.Pos(n.Obj().Pos()), "methods analysed as uses of a shared component")
	}
	r.Min["component"] = 15
	r.Min["no-shared-write"] = 20
}

func returnsComponent(f *ssa.Function, comps map[*types.Named]bool) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && (comps[n] || types.IsInterface(n)) {
			return true
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// describe names the memory an address refers to, by fields and types.
func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		s := st.Underlying().(*types.Struct)
		return shortType(st) + "." + s.Field(x.Field).Name()
	case *ssa.IndexAddr:
		return "element of " + describe(x.X)
	case *ssa.UnOp:
		return describe(x.X)
	case *ssa.Global:
		return "package variable " + x.Name()
	case *ssa.FreeVar:
		return "captured " + x.Name()
	case *ssa.Slice:
		return describe(x.X)
	}
	return shortType(v.Type())
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
