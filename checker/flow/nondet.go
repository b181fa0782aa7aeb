package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"gtcheck/core"

	"golang.org/x/tools/go/ssa"
)

// CheckDeterminism decides C22: it enumerates every construct of the module
// whose outcome is not a function of the inputs (map iteration, random
// generators, clocks, environment, goroutines, select, addresses) and requires
// each to be harmless: a map loop whose effects commute, a random draw made
// only on paths on which the dropout is greater than zero.
func CheckDeterminism(p *core.Program, r *core.Report) {
	g := NewCallGraph(p)
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fns, _ := g.Callees(c.Common())
					for _, f := range fns {
						callers[f] = append(callers[f], c)
					}
				}
			}
		}
	}
	ord := map[string]int{}
	key := func(fn *ssa.Function, what string) string {
		k := core.Short(fn.String()) + " " + what
		ord[k]++
		if ord[k] > 1 {
			k = fmt.Sprintf("%s #%d", k, ord[k])
		}
		return k
	}
	draws := 0
	for _, fn := range p.Funcs {
		r.Stats["functions"]++
		bad := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				r.Stats["instructions"]++
				switch x := in.(type) {
				case *ssa.Go:
					bad++
					r.Fail("no-scheduling", key(fn, "go statement"), p.Pos(in.Pos()), "the result may depend on goroutine scheduling")
				case *ssa.Select:
					if len(x.States) > 1 || !x.Blocking {
						bad++
						r.Fail("no-scheduling", key(fn, "select"), p.Pos(in.Pos()), "the result may depend on goroutine scheduling")
					}
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if st, ok := x.X.Type().Underlying().(*types.Basic); ok && st.Kind() == types.UnsafePointer {
							bad++
							r.Fail("no-address", key(fn, "uintptr"), p.Pos(in.Pos()), "an address is turned into a number")
						}
					}
				case *ssa.Range:
					if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
						ok, why := mapLoopCommutes(x)
						r.Add("map-order", key(fn, "range over "+describe(x.X)), p.Pos(x.Pos()), ok, why)
						r.Stats["map_loops"]++
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				pkg := extPkg(c.Common())
				name := extName(c.Common())
				f, isF := c.Common().Value.(*ssa.Function)
				if !isF || core.InModulePath(pkg) {
					continue
				}
				switch {
				case pkg == "math/rand" || pkg == "math/rand/v2" || pkg == "crypto/rand" || pkg == "hash/maphash":
					draws++
					ok, path := guarded(p, in, callers, map[*ssa.Function]bool{}, fn)
					if ok {
						r.Pass("random-only-with-dropout", key(fn, name), p.Pos(in.Pos()), "reached only when the dropout is greater than zero")
					} else {
						r.Fail("random-only-with-dropout", key(fn, name), p.Pos(in.Pos()), "a random number is drawn without knowing that the dropout is greater than zero (%s)", path)
					}
				case pkg == "time" || pkg == "runtime" || pkg == "os/user" || pkg == "net" || pkg == "unsafe" || pkg == "sync" && f.Name() == "Get",
					pkg == "os" && !fileFuncs[f.Name()], pkg == "os/exec", pkg == "syscall":
					bad++
					r.Fail("no-environment", key(fn, name), p.Pos(in.Pos()), "the result may depend on %s", name)
				case pkg == "reflect" && (f.Name() == "MapRange" || f.Name() == "MapKeys" || f.Name() == "Pointer"),
					pkg == "maps" && (f.Name() == "Keys" || f.Name() == "Values" || f.Name() == "All"):
					bad++
					r.Fail("map-order", key(fn, name), p.Pos(in.Pos()), "enumerates a map in random order")
				case pkg == "fmt":
					for _, a := range c.Common().Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
							bad++
							r.Fail("no-address", key(fn, name), p.Pos(in.Pos()), "formats an address")
						}
					}
				}
			}
		}
		if bad == 0 {
			r.Pass("function-deterministic", core.Short(fn.String())+posKey(p, fn), p.Pos(fn.Pos()), "no unguarded source of nondeterminism")
		}
	}
	// the random generator must be consulted somewhere below MergeAll
	if sp := p.Pkgs["models/bpemodel"]; sp != nil {
		if t := sp.Type("Word"); t != nil {
			if m := p.Prog.LookupMethod(types.NewPointer(t.Type()), sp.Pkg, "MergeAll"); m != nil {
				n := 0
				for f := range g.Reach([]*ssa.Function{m}) {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if c, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(extPkg(c.Common()), "math/rand") {
								n++
							}
						}
					}
				}
				r.Add("dropout-draws", "(*models/bpemodel.Word).MergeAll", p.Pos(m.Pos()), n > 0, fmt.Sprintf("%d draws below MergeAll", n))
			}
		}
	}
	r.Min["function-deterministic"] = 60
	r.Min["dropout-draws"] = 1
	r.Min["random-only-with-dropout"] = 1
	r.Min["map-order"] = 0
}

func posKey(p *core.Program, fn *ssa.Function) string {
	if strings.HasPrefix(fn.Name(), "init") {
		return " " + p.Pos(fn.Pos())
	}
	return ""
}

var fileFuncs = map[string]bool{"Open": true, "OpenFile": true, "ReadFile": true, "Close": true, "Read": true, "ReadAll": true, "Stat": true, "Name": true, "ReadAt": true, "Seek": true, "NewFile": true}

// guarded reports whether the instruction is reached only through a branch
// that establishes that a float is greater than zero.
func guarded(p *core.Program, in ssa.Instruction, callers map[*ssa.Function][]ssa.CallInstruction, seen map[*ssa.Function]bool, fn *ssa.Function) (bool, string) {
	b := in.Block()
	for _, blk := range fn.Blocks {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, truth := range []bool{true, false} {
			s := blk.Succs[i]
			if len(s.Preds) == 1 && s.Dominates(b) && impliesPositive(iff.Cond, truth, 0) {
				return true, ""
			}
		}
	}
	if seen[fn] {
		return true, ""
	}
	seen[fn] = true
	cs := callers[fn]
	if len(cs) == 0 {
		return false, "unguarded entry " + core.Short(fn.String())
	}
	exported := fn.Object() != nil && fn.Object().Exported()
	if exported {
		return false, "callable without dropout: " + core.Short(fn.String())
	}
	for _, c := range cs {
		if ok, why := guarded(p, c, callers, seen, c.Parent()); !ok {
			return false, why
		}
	}
	return true, ""
}

// impliesPositive: cond == truth implies that some float64 is > 0.
func impliesPositive(cond ssa.Value, truth bool, depth int) bool {
	if depth > 8 {
		return false
	}
	isZero := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && isFloat(c.Type()) && constant.Sign(c.Value) == 0
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return impliesPositive(x.X, !truth, depth+1)
		}
		if x.Op == token.MUL { // a bool kept in memory: all stores must imply it
			if al, ok := x.X.(*ssa.Alloc); ok {
				n := 0
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						n++
						if !impliesPositive(st.Val, truth, depth+1) {
							return false
						}
					}
				}
				return n > 0
			}
		}
	case *ssa.BinOp:
		switch {
		case x.Op == token.GTR && isZero(x.Y), x.Op == token.LSS && isZero(x.X):
			return truth
		case x.Op == token.LEQ && isZero(x.Y), x.Op == token.GEQ && isZero(x.X):
			return !truth // NaN: dropout not greater than zero; harmless to be strict
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
			n := 0
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					n++
					if !impliesPositive(ret.Results[0], truth, depth+1) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value) != truth // never that way
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if impliesPositive(e, truth, depth+1) {
				continue
			}
			// the edge itself may be guarded (a && b)
			pred := x.Block().Preds[i]
			ok := false
			for d := pred; d != nil && !ok; d = d.Idom() {
				if id := d.Idom(); id != nil && len(d.Preds) == 1 {
					if iff, isIf := id.Instrs[len(id.Instrs)-1].(*ssa.If); isIf {
						for j, tr := range []bool{true, false} {
							if id.Succs[j] == d && impliesPositive(iff.Cond, tr, depth+1) {
								ok = true
							}
						}
					}
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsUntyped) != 0
}

// loopOf is the set of blocks of the natural loop headed by the block of the
// Next instruction that consumes the iterator.
func loopOf(next *ssa.Next) map[*ssa.BasicBlock]bool {
	head := next.Block()
	body := map[*ssa.BasicBlock]bool{head: true}
	var stack []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			stack = append(stack, p)
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if body[b] {
			continue
		}
		body[b] = true
		stack = append(stack, b.Preds...)
	}
	return body
}

// mapLoopCommutes decides whether a loop over a map has the same effect in
// every order.
func mapLoopCommutes(rg *ssa.Range) (bool, string) {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			if next != nil {
				return false, "the iterator is advanced in several places"
			}
			next = n
		}
	}
	if next == nil {
		return true, "never advanced"
	}
	body := loopOf(next)
	// values that depend on the iteration
	tainted := map[ssa.Value]bool{next: true}
	var keyVal ssa.Value
	for _, ref := range *next.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
			keyVal = e
		}
	}
	for again := true; again; {
		again = false
		for b := range body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || tainted[v] {
					continue
				}
				if e, isE := in.(*ssa.Extract); isE && e.Index == 0 && e.Tuple == ssa.Value(next) {
					continue // whether another element exists
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tainted[*op] {
						tainted[v] = true
						again = true
					}
				}
			}
		}
	}
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if x.Key == keyVal {
					continue // distinct keys, each written once
				}
				if !tainted[x.Key] && !tainted[x.Value] {
					continue // the same write each time
				}
				if guardedByAbsence(x, body, tainted) {
					continue
				}
				return false, "a map entry whose key is not the range key is overwritten, the last one wins"
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && body[al.Block()] {
					continue // a temporary of this iteration
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if al, ok := fa.X.(*ssa.Alloc); ok && body[al.Block()] {
						continue
					}
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok && body[al.Block()] {
						continue
					}
				}
				if !tainted[x.Val] && !tainted[x.Addr] {
					if _, isConst := x.Val.(*ssa.Const); isConst {
						continue
					}
				}
				if commutativeUpdate(x) {
					continue
				}
				return false, "memory that outlives the iteration is written in iteration order"
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						if al, isIter := appendBase(x).(*ssa.Phi); isIter && body[al.Block()] {
							return false, "elements are appended in iteration order"
						}
						if appendEscapes(x, body) {
							return false, "elements are appended in iteration order"
						}
					}
					continue
				}
				if f := x.Call.StaticCallee(); f != nil && pureCall(f, map[*ssa.Function]bool{}) {
					continue
				}
				return false, "a call with effects is made in iteration order: " + calleeName(&x.Call)
			case *ssa.Return:
				for _, res := range x.Results {
					if tainted[res] {
						return false, "returns a value that depends on which element comes first"
					}
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return false, "an effect is made in iteration order"
			}
		}
		// exits other than the natural end
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			if b == next.Block() {
				continue
			}
			// leaving early: nothing tainted may be used behind the exit
			for _, in := range s.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					for i, pr := range s.Preds {
						if pr == b && tainted[phi.Edges[i]] {
							return false, "leaves the loop with a value that depends on which element comes first"
						}
					}
				}
				if ret, ok := in.(*ssa.Return); ok {
					for _, res := range ret.Results {
						if tainted[res] {
							return false, "returns a value that depends on which element comes first"
						}
					}
				}
			}
			for v := range tainted {
				in, ok := v.(ssa.Instruction)
				if !ok || !body[in.Block()] {
					continue
				}
				for _, ref := range *v.Referrers() {
					if ref.Block() != nil && !body[ref.Block()] && s.Dominates(ref.Block()) {
						return false, "leaves the loop early and uses the element it stopped at"
					}
				}
			}
		}
	}
	// loop-carried values
	for _, in := range next.Block().Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range next.Block().Preds {
			if !body[pr] {
				continue
			}
			if !commutativeCarry(phi, phi.Edges[i], body) {
				return false, "a variable carried through the loop depends on the order"
			}
		}
	}
	return true, "the effects of the iterations commute"
}

func appendBase(c *ssa.Call) ssa.Value { return c.Call.Args[0] }

// appendEscapes: the appended slice lives longer than the iteration.
func appendEscapes(c *ssa.Call, body map[*ssa.BasicBlock]bool) bool {
	switch b := c.Call.Args[0].(type) {
	case *ssa.Const:
		return false
	case *ssa.MakeSlice:
		return !body[b.Block()]
	case *ssa.Slice:
		if al, ok := b.X.(*ssa.Alloc); ok {
			return !body[al.Block()]
		}
	case *ssa.Call:
		if bi, ok := b.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && body[b.Block()] {
			return appendEscapes(b, body)
		}
	}
	return true
}

func commutativeCarry(phi *ssa.Phi, e ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	if e == ssa.Value(phi) {
		return true
	}
	switch x := e.(type) {
	case *ssa.BinOp:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			switch x.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
				return x.X == ssa.Value(phi) || x.Y == ssa.Value(phi)
			}
		}
	case *ssa.Phi:
		// max / min selection or conditional constant
		for i, ed := range x.Edges {
			if ed == ssa.Value(phi) {
				continue
			}
			if _, isConst := ed.(*ssa.Const); isConst {
				continue
			}
			if commutativeCarry(phi, ed, body) {
				continue
			}
			// v chosen only where v > phi or v < phi was tested
			pred := x.Block().Preds[i]
			ok := false
			for d := pred; d != nil && body[d]; d = d.Idom() {
				if id := d.Idom(); id != nil && len(d.Preds) == 1 {
					if iff, isIf := id.Instrs[len(id.Instrs)-1].(*ssa.If); isIf {
						if bo, isB := iff.Cond.(*ssa.BinOp); isB && (bo.Op == token.GTR || bo.Op == token.LSS) &&
							((bo.X == ed && bo.Y == ssa.Value(phi)) || (bo.Y == ed && bo.X == ssa.Value(phi))) {
							ok = true
						}
					}
				}
			}
			if !ok {
				return false
			}
		}
		return true
	case *ssa.Const:
		return true
	}
	return false
}

func commutativeUpdate(st *ssa.Store) bool {
	bo, ok := st.Val.(*ssa.BinOp)
	if !ok {
		return false
	}
	if bt, ok := bo.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	if bo.Op != token.ADD && bo.Op != token.OR && bo.Op != token.AND && bo.Op != token.MUL {
		return false
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == st.Addr {
			return true
		}
	}
	return false
}

// guardedByAbsence: the update is made only where the key was looked up in the
// same map and found absent, and the iteration that finds it present leaves
// the loop for good (so no order lets one win).
func guardedByAbsence(mu *ssa.MapUpdate, body map[*ssa.BasicBlock]bool, tainted map[ssa.Value]bool) bool {
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := iff.Cond, false
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, true
		}
		ex, ok := cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		lk, ok := ex.Tuple.(*ssa.Lookup)
		if !ok || !sameMap(lk.X, mu.Map) || lk.Index != mu.Key {
			continue
		}
		present, absent := b.Succs[0], b.Succs[1]
		if neg {
			present, absent = absent, present
		}
		if len(absent.Preds) == 1 && absent.Dominates(mu.Block()) || absent == mu.Block() {
			if !body[present] {
				return true
			}
			// the present branch may still lead out of the loop only
			if leavesLoop(present, body, map[*ssa.BasicBlock]bool{}) {
				return true
			}
		}
	}
	return false
}

func sameMap(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 {
		if ua.X == ub.X {
			return true
		}
		fa, ok1 := ua.X.(*ssa.FieldAddr)
		fb, ok2 := ub.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.X == fb.X && fa.Field == fb.Field
	}
	return false
}

func leavesLoop(b *ssa.BasicBlock, body, seen map[*ssa.BasicBlock]bool) bool {
	if !body[b] {
		return true
	}
	if seen[b] {
		return false
	}
	seen[b] = true
	if len(b.Succs) == 0 {
		return true
	}
	for _, s := range b.Succs {
		if !leavesLoop(s, body, seen) {
			return false
		}
	}
	return true
}

// pureCall: no store outside its own frame, no nondeterminism.
func pureCall(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if len(f.Blocks) == 0 {
		if f.Object() == nil || f.Object().Pkg() == nil {
			return false
		}
		switch f.Object().Pkg().Path() {
		case "strings", "unicode", "unicode/utf8", "strconv", "math", "errors":
			return f.Signature.Recv() == nil
		case "fmt":
			return strings.HasPrefix(f.Name(), "S") || f.Name() == "Errorf"
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.Alloc:
					continue
				case *ssa.FieldAddr:
					if _, ok := a.X.(*ssa.Alloc); ok {
						continue
					}
				case *ssa.IndexAddr:
					if _, ok := a.X.(*ssa.Alloc); ok {
						continue
					}
				}
				return false
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "len" || bi.Name() == "cap" || bi.Name() == "append" {
						continue
					}
					return false
				}
				c := x.Call.StaticCallee()
				if c == nil || !pureCall(c, seen) {
					return false
				}
			}
		}
	}
	return true
}
