package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"gtcheck/core"

	"golang.org/x/tools/go/ssa"
)

// CheckErrors decides C20 by a typestate analysis on every path of every
// function that receives an error (or a mandatory ok flag): from the call that
// may report it, each path on which it was reported must end in a return whose
// error result is known to be non-nil.
//
// The abstract state of a path is: for each tracked value, what is known about
// it (nil, non-nil, true, false), the contents of error variables kept in
// memory because a deferred closure uses them, and whether a scanner that
// stopped has been asked for its error. States are finite, so the exploration
// ends; loops are covered because a state seen before is not explored again.

var errorType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return types.Identical(t, errorType) }

// mandatoryOK are the calls whose ok == false result is a failure the caller
// has to report (the others are ordinary questions).
var mandatoryOK = map[string]bool{
	"(*normalizedstring.NormalizedString).Slice": true,
	"(*vocabulary.Vocabulary).GetString":         true,
}

// neverFails are library calls documented to return a nil error.
func neverFails(c *ssa.CallCommon) bool {
	n := extName(c)
	return strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer).Write")
}

type fact int8

const (
	unknownF fact = iota
	isNil         // nil or false
	notNil        // non-nil or true
)

type epath struct {
	facts map[ssa.Value]fact      // about roots
	alias map[ssa.Value]ssa.Value // value -> root on this path
	mem   map[ssa.Value]ssa.Value // *error variable -> value held
	scan  map[ssa.Value]bool      // scanners that stopped and were not asked
	got   map[ssa.Value]bool      // the source has been evaluated on this path
}

func (p *epath) clone() *epath {
	q := &epath{map[ssa.Value]fact{}, map[ssa.Value]ssa.Value{}, map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}}
	for k, v := range p.facts {
		q.facts[k] = v
	}
	for k, v := range p.alias {
		q.alias[k] = v
	}
	for k, v := range p.mem {
		q.mem[k] = v
	}
	for k, v := range p.scan {
		q.scan[k] = v
	}
	for k, v := range p.got {
		q.got[k] = v
	}
	return q
}

func vname(v ssa.Value) string {
	if v == nil {
		return "?"
	}
	if c, ok := v.(*ssa.Const); ok {
		return "const " + c.String()
	}
	return fmt.Sprintf("%p", v)
}

func (p *epath) key() string {
	var s []string
	for k, v := range p.facts {
		s = append(s, "f"+vname(k)+fmt.Sprint(v))
	}
	for k, v := range p.alias {
		s = append(s, "a"+vname(k)+vname(v))
	}
	for k, v := range p.mem {
		s = append(s, "m"+vname(k)+vname(v))
	}
	for k, v := range p.scan {
		if v {
			s = append(s, "s"+vname(k))
		}
	}
	for k, v := range p.got {
		if v {
			s = append(s, "g"+vname(k))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

func (p *epath) root(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		r, ok := p.alias[v]
		if !ok || r == v {
			return v
		}
		v = r
	}
	return v
}

// lookups are the calls that say with their last result whether they found
// something: what else they give must not be used unless they did.
var lookups = map[string]bool{
	"(*vocabulary.Vocabulary).GetID":             true,
	"(*vocabulary.Vocabulary).GetString":         true,
	"(*models/bpemodel.MergeMap).Get":            true,
	"(*normalizedstring.NormalizedString).Slice": true,
}

// lookup is the call that gave a value.
type lookup struct {
	call *ssa.Call
	ok   ssa.Value // nil if it is never looked at
	key  string
}

// usesLookup records uses of values of lookups not known to have succeeded.
func (a *errAnalysis) usesLookup(in ssa.Instruction, st *epath) {
	if len(a.found) == 0 {
		return
	}
	switch x := in.(type) {
	case *ssa.Phi, *ssa.Extract, *ssa.DebugRef:
		return
	case *ssa.Return:
		for _, r := range x.Results {
			if b, ok := r.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				return // handed on with the flag
			}
		}
	case *ssa.Store:
		if al, ok := x.Addr.(*ssa.Alloc); ok {
			if _, val := a.found[st.root(x.Val)]; val {
				st.mem[al] = st.root(x.Val)
			} else {
				delete(st.mem, al)
			}
			return
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if v, ok := st.mem[fa.X]; ok {
				a.useLookup(v, in, st)
			}
			return
		}
		if _, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return
		}
	}
	for _, o := range in.Operands(nil) {
		if *o != nil {
			a.useLookup(st.root(*o), in, st)
		}
	}
}

func (a *errAnalysis) useLookup(v ssa.Value, in ssa.Instruction, st *epath) {
	l, ok := a.found[v]
	if !ok || l.ok != nil && st.facts[st.root(l.ok)] == notNil {
		return
	}
	if c, isConst := v.(*ssa.Const); isConst && c != nil {
		return
	}
	if _, again := a.misused[l.call]; !again {
		pos := in.Pos()
		if !pos.IsValid() {
			pos = l.call.Pos()
		}
		a.misused[l.call] = a.p.Pos(pos)
	}
}

type errAnalysis struct {
	found   map[ssa.Value]lookup // values of lookups
	flags   map[ssa.Value]bool   // and their flags
	misused map[*ssa.Call]string
	p       *core.Program
	r       *core.Report
	g       *CallGraph
	sources map[ssa.Value]string // error (or ok) values and their description
	fn      *ssa.Function
	where   map[ssa.Value]token.Pos
	failed  map[ssa.Value]string
	failPos map[ssa.Value]token.Pos
	visited map[string]bool
	steps   int
	errIdx  int
	okIdx   int // one more than the index of the flag that reports failures, in a helper without error
	scanBad string
	nonNil  map[*ssa.Function]int // -1 in progress, 1 yes, 2 no
}

// CheckErrors runs the analysis.
func CheckErrors(p *core.Program, r *core.Report) {
	g := NewCallGraph(p)
	ord, lord := map[string]int{}, map[string]int{}
	wraps := flagWrappers(p, g)
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		a := &errAnalysis{p: p, r: r, g: g, sources: map[ssa.Value]string{}, where: map[ssa.Value]token.Pos{},
			failed: map[ssa.Value]string{}, failPos: map[ssa.Value]token.Pos{}, visited: map[string]bool{}, fn: fn, errIdx: -1,
			found: map[ssa.Value]lookup{}, flags: map[ssa.Value]bool{}, misused: map[*ssa.Call]string{},
			nonNil: map[*ssa.Function]int{}}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isErr(res.At(i).Type()) {
				a.errIdx = i
			}
		}
		if wraps[fn] {
			a.okIdx = res.Len()
		}
		deferred := false
		usedByDefer := isDeferClosure(fn)
		scanners := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				name := calleeName(cc)
				if neverFails(cc) {
					continue
				}
				sig := cc.Signature()
				ei, oi := -1, -1
				for i := 0; i < sig.Results().Len(); i++ {
					if isErr(sig.Results().At(i).Type()) {
						ei = i
					}
				}
				if call, isCall := in.(*ssa.Call); isCall && lookups[name] {
					a.addLookup(call, core.Short(fn.String())+" <- "+name)
				}
				if (mandatoryOK[name] || wraps[cc.StaticCallee()]) && !inVocabulary(fn) {
					oi = sig.Results().Len() - 1
				}
				if name == "(*bufio.Scanner).Scan" {
					scanners++
				}
				if ei < 0 && oi < 0 {
					continue
				}
				if isConstructor(cc) {
					continue // makes an error rather than reporting one
				}
				k := core.Short(fn.String()) + " <- " + name
				ord[k]++
				if ord[k] > 1 {
					k = fmt.Sprintf("%s #%d", k, ord[k])
				}
				r.Stats["fallible_calls"]++
				switch in.(type) {
				case *ssa.Defer, *ssa.Go:
					r.Fail("error-observed", k, p.Pos(in.Pos()), "the error of a deferred call is dropped")
					continue
				}
				call := in.(*ssa.Call)
				idx := ei
				if oi >= 0 {
					idx = oi
				}
				var src ssa.Value
				if sig.Results().Len() == 1 {
					src = call
				} else {
					for _, ref := range *call.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index == idx {
							src = e
						}
					}
				}
				if src == nil || len(*src.Referrers()) == 0 {
					r.Fail("error-observed", k, p.Pos(in.Pos()), "the failure of the call is ignored")
					continue
				}
				a.sources[src] = k
				a.where[src] = in.Pos()
				deferred = deferred || usedByDefer
			}
		}
		if len(a.sources) == 0 && scanners == 0 && len(a.found) == 0 {
			continue
		}
		r.Stats["functions_with_fallible_calls"]++
		if usedByDefer {
			a.deferClosure()
			continue
		}
		// mandatory checks: explore all paths
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Fail("error-observed", core.Short(fn.String()), p.Pos(fn.Pos()), "paths not analysable: %v", e)
				}
			}()
			a.explore(fn.Blocks[0], nil, &epath{map[ssa.Value]fact{}, map[ssa.Value]ssa.Value{}, map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}})
		}()
		r.Stats["path_states"] += a.steps
		for src, k := range a.sources {
			if why, bad := a.failed[src]; bad {
				r.Fail("error-observed", k, p.Pos(a.failPos[src]), "%s", why)
			} else {
				r.Pass("error-observed", k, p.Pos(a.where[src]), "every path on which it fails returns an error")
			}
		}
		looked := map[*ssa.Call]bool{}
		for _, l := range a.found {
			if looked[l.call] {
				continue
			}
			looked[l.call] = true
			r.Stats["lookups"]++
			k := l.key
			lord[k]++
			if lord[k] > 1 {
				k = fmt.Sprintf("%s #%d", k, lord[k])
			}
			if at, bad := a.misused[l.call]; bad {
				r.Fail("lookup-found", k, at, "what the lookup gave is used on a path on which it may not have found anything")
			} else {
				r.Pass("lookup-found", k, p.Pos(l.call.Pos()), "its result is only used where it was found")
			}
		}
		if scanners > 0 {
			k := core.Short(fn.String()) + " scanner"
			if a.scanBad != "" {
				r.Fail("scanner-error", k, a.scanBad, "success is returned without asking the scanner for its error")
			} else {
				r.Pass("scanner-error", k, p.Pos(fn.Pos()), "Err is consulted before success is returned")
			}
		}
	}
	r.Min["error-observed"] = 25
	r.Min["scanner-error"] = 1
	r.Min["lookup-found"] = 5
}

// flagWrappers are the unexported helpers without error result that report a
// failure with a flag, as their last result.
func flagWrappers(p *core.Program, g *CallGraph) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, fn := range p.Funcs {
			res := fn.Signature.Results()
			n := res.Len()
			if out[fn] || n < 1 || fn.Object() == nil || fn.Object().Exported() || inVocabulary(fn) {
				continue
			}
			if b, ok := res.At(n - 1).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				continue
			}
			hasErr := false
			for i := 0; i < n; i++ {
				hasErr = hasErr || isErr(res.At(i).Type())
			}
			if hasErr {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && !out[fn] && (mandatoryOK[calleeName(&c.Call)] || out[c.Call.StaticCallee()]) {
						out[fn], again = true, true
					}
				}
			}
		}
	}
	return out
}

// inVocabulary: for the vocabulary itself a missing id is an ordinary answer.
func inVocabulary(fn *ssa.Function) bool {
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == core.ModPath+"/vocabulary"
}

func (a *errAnalysis) addLookup(call *ssa.Call, key string) {
	n := call.Call.Signature().Results().Len()
	if n < 2 || call.Referrers() == nil {
		return
	}
	l := lookup{call: call, key: key}
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == n-1 {
			l.ok = e
			a.flags[e] = true
		}
	}
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index != n-1 {
			a.found[e] = l
		}
	}
}

// isConstructor reports calls that build an error value.
func isConstructor(c *ssa.CallCommon) bool {
	switch extName(c) {
	case "fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap":
		return true
	}
	return false
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke " + core.Short(c.Method.FullName())
	}
	if f := c.StaticCallee(); f != nil {
		return core.Short(f.String())
	}
	return "callback " + shortType(c.Value.Type())
}

func isDeferClosure(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == fn {
					return true
				}
				if d.Call.Value == ssa.Value(fn) {
					return true
				}
			}
		}
	}
	return false
}

// deferClosure: an error seen in a deferred closure must, whenever it is
// non-nil and no other error is already set, be stored into a captured error
// variable.
func (a *errAnalysis) deferClosure() {
	for src, k := range a.sources {
		var stores []*ssa.Store
		for _, b := range a.fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Val == src {
					if _, fv := st.Addr.(*ssa.FreeVar); fv {
						stores = append(stores, st)
					}
				}
			}
		}
		if len(stores) == 0 {
			a.r.Fail("error-observed", k, a.p.Pos(a.where[src]), "the deferred closure does not pass the failure on")
			continue
		}
		// every path that avoids the store has e == nil or the captured error non-nil
		ok := true
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, st := range stores {
				if st.Block() == b {
					return
				}
			}
			last := b.Instrs[len(b.Instrs)-1]
			if _, ret := last.(*ssa.Return); ret {
				ok = false
				return
			}
			if iff, isIf := last.(*ssa.If); isIf {
				if bo, isB := iff.Cond.(*ssa.BinOp); isB && (bo.Op == token.NEQ || bo.Op == token.EQL) {
					x, y := bo.X, bo.Y
					if isNilConst(x) {
						x, y = y, x
					}
					if isNilConst(y) {
						nilSucc := 1
						if bo.Op == token.EQL {
							nilSucc = 0
						}
						if x == src { // skip the branch on which it did not fail
							walk(b.Succs[1-nilSucc])
							return
						}
						if u, isU := x.(*ssa.UnOp); isU && u.Op == token.MUL {
							for _, st := range stores {
								if st.Addr == u.X { // skip the branch with an earlier error
									walk(b.Succs[nilSucc])
									return
								}
							}
						}
					}
				}
			}
			for _, s := range b.Succs {
				walk(s)
			}
		}
		walk(a.fn.Blocks[0])
		if ok {
			a.r.Pass("error-observed", k, a.p.Pos(a.where[src]), "stored into the function's error result unless one is already set")
		} else {
			a.r.Fail("error-observed", k, a.p.Pos(a.where[src]), "a path of the deferred closure drops the failure")
		}
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (a *errAnalysis) fail(src ssa.Value, pos token.Pos, format string, x ...interface{}) {
	if _, dup := a.failed[src]; !dup {
		a.failed[src] = fmt.Sprintf(format, x...)
		if !pos.IsValid() {
			pos = a.where[src]
		}
		a.failPos[src] = pos
	}
}

func isOK(s ssa.Value) bool { return !isErr(s.Type()) }

func zeroConst(v constant.Value) constant.Value {
	switch v.Kind() {
	case constant.Bool:
		return constant.MakeBool(false)
	case constant.String:
		return constant.MakeString("")
	}
	return constant.MakeInt64(0)
}

func neverStored(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			if _, dbg := r.(*ssa.DebugRef); !dbg {
				return false
			}
		}
	}
	return true
}

func (a *errAnalysis) partial(s ssa.Value, pos token.Pos, i int) {
	a.fail(s, pos, "result %d is handed out together with the error", i)
}

// pending lists the sources that were evaluated, may have failed and have not
// been found nil on this path.
func (a *errAnalysis) pending(st *epath) (out []ssa.Value) {
	for s := range a.sources {
		if !st.got[s] {
			continue
		}
		f := st.facts[s]
		bad := f != isNil
		if _, isBool := s.Type().Underlying().(*types.Basic); isBool {
			bad = f != notNil
		}
		if bad {
			out = append(out, s)
		}
	}
	return
}

func (a *errAnalysis) explore(b, from *ssa.BasicBlock, st *epath) {
	// phis, in parallel
	type pa struct {
		phi *ssa.Phi
		v   ssa.Value
	}
	var pas []pa
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == from {
				pas = append(pas, pa{phi, st.root(phi.Edges[i])})
				break
			}
		}
	}
	for _, q := range pas {
		if a.interesting(q.phi.Type()) || len(a.found) > 0 {
			st.alias[q.phi] = q.v
			if q.v == ssa.Value(q.phi) {
				delete(st.alias, q.phi)
			}
		}
	}
	k := fmt.Sprintf("%d|%s", b.Index, st.key())
	if a.visited[k] {
		return
	}
	a.visited[k] = true
	a.steps++
	if a.steps > 20000 {
		panic("too many paths")
	}
	for _, in := range b.Instrs {
		a.usesLookup(in, st)
		switch x := in.(type) {
		case *ssa.Call:
			if calleeName(&x.Call) == "(*bufio.Scanner).Err" && len(x.Call.Args) > 0 {
				delete(st.scan, st.root(x.Call.Args[0]))
			}
			a.evaluate(x, st)
		case *ssa.Extract:
			a.evaluate(x, st)
		case *ssa.Store:
			if _, isAlloc := x.Addr.(*ssa.Alloc); isAlloc && a.interesting(x.Val.Type()) {
				st.mem[x.Addr] = st.root(x.Val)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if v, ok := st.mem[x.X]; ok {
					st.alias[x] = v
				} else {
					delete(st.alias, x)
					delete(st.facts, x)
				}
			}
		case *ssa.RunDefers:
			// deferred closures may only turn a nil error into a non-nil one
			// (deferClosure checks theirs), so what is known stays true
		case *ssa.Panic:
			for _, s := range a.pending(st) {
				f := st.facts[s]
				if f != unknownF {
					a.fail(s, x.Pos(), "the failure ends in a panic instead of an error")
				}
			}
			return
		case *ssa.Return:
			a.ret(x, st)
			return
		case *ssa.If:
			t, f := st.clone(), st.clone()
			okT := a.assume(x.Cond, true, t)
			okF := a.assume(x.Cond, false, f)
			if okT {
				a.explore(b.Succs[0], b, t)
			}
			if okF {
				a.explore(b.Succs[1], b, f)
			}
			return
		case *ssa.Jump:
			a.explore(b.Succs[0], b, st)
			return
		}
	}
}

func (a *errAnalysis) interesting(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsBoolean != 0
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

// evaluate notes that v gets a new value on this path.
func (a *errAnalysis) evaluate(v ssa.Value, st *epath) {
	if _, src := a.sources[v]; src {
		if st.got[v] {
			for _, s := range a.pending(st) {
				if s == v {
					held := false
					for _, m := range st.mem {
						held = held || m == v
					}
					a.fail(v, a.where[v], "the failure of one iteration is overwritten by the next (kept: %v)", held)
				}
			}
		}
		st.got[v] = true
		delete(st.facts, v)
		delete(st.alias, v)
	} else if _, val := a.found[v]; val || a.interesting(v.Type()) {
		delete(st.facts, v)
		delete(st.alias, v)
	}
}

func (a *errAnalysis) set(v ssa.Value, f fact, st *epath) bool {
	v = st.root(v)
	if c, ok := v.(*ssa.Const); ok {
		k := isNil
		if c.Value != nil && !(c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value)) {
			k = notNil
		}
		return k == f
	}
	if a.knownNonNil(v, st) {
		return f == notNil
	}
	if old := st.facts[v]; old != unknownF && old != f {
		return false
	}
	st.facts[v] = f
	return true
}

// assume refines the state; false means the branch cannot be taken.
func (a *errAnalysis) assume(cond ssa.Value, truth bool, st *epath) bool {
	cond = st.root(cond)
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.assume(x.X, !truth, st)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			u, v := x.X, x.Y
			if isNilConst(u) {
				u, v = v, u
			}
			if isNilConst(v) && isErr(u.Type()) {
				f := isNil
				if (x.Op == token.NEQ) == truth {
					f = notNil
				}
				return a.set(u, f, st)
			}
			if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				want := constant.BoolVal(c.Value)
				if (x.Op == token.NEQ) == truth {
					want = !want
				}
				return a.assume(u, want, st)
			}
		}
		return true
	case *ssa.Call:
		if calleeName(&x.Call) == "(*bufio.Scanner).Scan" && !truth {
			st.scan[st.root(x.Call.Args[0])] = true
		}
	}
	f := isNil
	if truth {
		f = notNil
	}
	if b, ok := cond.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		// only remember what can matter again
		if _, src := a.sources[cond]; !src && !a.flags[cond] {
			if _, isConst := cond.(*ssa.Const); !isConst {
				return true
			}
		}
		return a.set(cond, f, st)
	}
	return true
}

// knownNonNil reports values that are certainly non-nil errors.
func (a *errAnalysis) knownNonNil(v ssa.Value, st *epath) bool {
	v = st.root(v)
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		switch extName(&x.Call) {
		case "fmt.Errorf", "errors.New":
			return true
		}
		if f := x.Call.StaticCallee(); f != nil && a.p.InModule(f) && len(f.Blocks) > 0 && isErr(x.Type()) {
			return a.wrapsNonNil(f, &x.Call, st)
		}
	case *ssa.UnOp:
		if gl, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return globalNonNil(gl)
		}
	}
	return st.facts[v] == notNil && isErr(v.Type())
}

// wrapsNonNil: a helper of the module that returns a non-nil error whenever it
// is called with the non-nil errors it is given here.
func (a *errAnalysis) wrapsNonNil(f *ssa.Function, c *ssa.CallCommon, st *epath) bool {
	nn := map[ssa.Value]bool{}
	for i, p := range f.Params {
		if isErr(p.Type()) && i < len(c.Args) && st.facts[st.root(c.Args[i])] == notNil {
			nn[p] = true
		}
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				if !isErr(r.Type()) {
					continue
				}
				if nn[r] {
					continue
				}
				e := &epath{facts: map[ssa.Value]fact{}, alias: map[ssa.Value]ssa.Value{}}
				if rc, isCall := r.(*ssa.Call); isCall && rc.Call.StaticCallee() == f {
					return false
				}
				if !a.knownNonNil(r, e) {
					return false
				}
			}
		}
	}
	return true
}

// globalNonNil: a package-level error assigned once, at initialisation, from a
// constructor.
func globalNonNil(g *ssa.Global) bool {
	stores, good := 0, 0
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		var fs []*ssa.Function
		fs = append(fs, f)
		fs = append(fs, f.AnonFuncs...)
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
						stores++
						switch x := st.Val.(type) {
						case *ssa.MakeInterface:
							good++
						case *ssa.Call:
							if n := extName(&x.Call); n == "fmt.Errorf" || n == "errors.New" {
								good++
							}
						}
					}
				}
			}
		}
	}
	if stores == 0 && !core.InModulePath(g.Pkg.Pkg.Path()) {
		return true // io.EOF and the like
	}
	return stores == 1 && good == 1
}

func (a *errAnalysis) ret(x *ssa.Return, st *epath) {
	var ev ssa.Value
	if a.errIdx >= 0 {
		ev = st.root(x.Results[a.errIdx])
	}
	nonNil := ev != nil && a.knownNonNil(ev, st)
	pend := a.pending(st)
	for _, s := range pend {
		if nonNil || (ev != nil && st.root(s) == ev) {
			continue
		}
		// another pending error being returned as it is does not cover this one
		if a.okIdx > 0 {
			f := st.root(x.Results[a.okIdx-1])
			if c, ok := f.(*ssa.Const); ok && c.Value != nil && !constant.BoolVal(c.Value) || f == st.root(s) || st.facts[f] == isNil {
				continue
			}
		}
		what := "the failure is not reported: a path on which the call fails returns success"
		if ev == nil {
			what = "the failure is not reported: the function has no error result"
		} else if st.facts[s] == unknownF {
			what = "a path returns without looking at the failure"
		}
		a.fail(s, x.Pos(), "%s", what)
	}
	for _, s := range pend {
		if ev == nil || !(st.facts[s] == notNil || st.root(s) == ev || isOK(s)) {
			continue
		}
		for i, res := range x.Results {
			if i == a.errIdx {
				continue
			}
			v := st.root(res)
			if c, isConst := v.(*ssa.Const); isConst && (c.Value == nil || constant.Compare(c.Value, token.EQL, zeroConst(c.Value))) {
				continue
			}
			if e, isEx := v.(*ssa.Extract); isEx {
				if e2, isEx2 := s.(*ssa.Extract); isEx2 && e.Tuple == e2.Tuple {
					continue // handed on together with the error of the same call
				}
			}
			if l, isLoad := v.(*ssa.UnOp); isLoad && l.Op == token.MUL {
				if al, isAlloc := l.X.(*ssa.Alloc); isAlloc && neverStored(al) {
					continue // a zero struct
				}
			}
			a.partial(s, x.Pos(), i)
		}
	}
	if a.errIdx >= 0 && !nonNil {
		for sc, stopped := range st.scan {
			if stopped {
				a.scanBad = a.p.Pos(x.Pos())
				_ = sc
			}
		}
	}
}
