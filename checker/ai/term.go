package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// Every operation finishes.
//
// A loop ends if every iteration makes progress towards an end that does not
// move. What is looked for, on the SSA form alone:
//
//   - the loop takes the next element of something that is finite: a string,
//     a map it does not add to, the lines of a scanner, the matches of a
//     regular expression behind the last one;
//   - a condition that is judged in every iteration, and ends the loop,
//     compares two numbers that come closer to each other by at least one
//     with every iteration;
//   - it goes on only while a number that grows is a key of a map it does not
//     add to.
//
// The loops that remain are decided with the invariants of the abstract
// interpretation of the package they are in: a difference of two quantities
// of the loop (numbers, lengths) has to fall with every iteration, and may
// not be negative when one begins. The candidates of a word are counted as
// they are taken and added.

const (
	rTerm  = "every loop makes progress towards its end"
	rRec   = "nothing calls itself without an end"
	rBlock = "nothing waits for ever"
)

// CheckC31 decides that every operation finishes.
func CheckC31(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	var open []*loopInfo
	where := map[*loopInfo]*ssa.Function{}
	for _, fn := range p.Funcs {
		fi := x.info(fn)
		if fi.bad != "" {
			r.Fail(rTerm, core.Short(fn.String())+"|flow", p.Pos(fn.Pos()), "%s", fi.bad)
		}
		for i, l := range fi.sortedLoops() {
			key := fmt.Sprintf("%s|loop %d", core.Short(fn.String()), i+1)
			if why := structural(fi, l); why != "" {
				r.Pass(rTerm, key, p.Pos(headPos(l.head)), "%s", why)
				continue
			}
			open = append(open, l)
			where[l] = fn
		}
		x.blocking(fn)
	}
	x.recursion()
	r.Min[rTerm], r.Min[rRec] = 40, 100
	// the loops that remain
	runs := map[string][]func(*core.Program, *core.Report){
		"models/wordpiecemodel": {CheckC16, CheckC17},
		"models/bpemodel":       {CheckC14, CheckC13, CheckC19},
		"vocabulary":            {CheckC18},
		"splitpattern":          {CheckC02},
		"normalizedstring":      {CheckC07, CheckC04, CheckC09, CheckC28, CheckC08},
		"pretokenizedstring":    {CheckC10, CheckC12, CheckC11},
		"pretokenizers":         {CheckC26, CheckC25, CheckC23},
		"normalizers":           {CheckC24, CheckC25},
		"strutils":              {CheckC27},
		"encodings":             {CheckC11},
	}
	for len(open) > 0 {
		l := open[0]
		fn := where[l]
		pkg := strings.TrimPrefix(core.Short(pkgOf(fn)), "/")
		rs := runs[pkg]
		if rs == nil {
			for k, v := range runs {
				if strings.HasPrefix(pkg, k) {
					rs = v
				}
			}
		}
		for _, run := range rs {
			need := false
			for _, l := range open {
				need = need || pkgOf(where[l]) == pkgOf(fn)
			}
			if !need {
				break
			}
			seen := x.observe(p, run)
			var rest []*loopInfo
			for _, o := range open {
				v := seen[o.head]
				if v == nil {
					rest = append(rest, o)
					continue
				}
				f := where[o]
				r.Add(rTerm, fmt.Sprintf("%s|loop at %s", core.Short(f.String()), p.Pos(headPos(o.head))), p.Pos(headPos(o.head)), v.bad == 0,
					fmt.Sprintf("%d of %d visits have no measure that falls with every iteration and stays above a bound; measure: %s", v.bad, v.n, v.rank))
			}
			open = rest
		}
		var rest []*loopInfo
		for _, o := range open {
			if pkgOf(where[o]) != pkgOf(fn) {
				rest = append(rest, o)
				continue
			}
			r.Fail(rTerm, fmt.Sprintf("%s|loop at %s", core.Short(where[o].String()), p.Pos(headPos(o.head))), p.Pos(headPos(o.head)), "no reason is found why this loop ends")
		}
		open = rest
	}
	x.Close("operations")
	r.Trusted = append(r.Trusted, "library functions and callbacks given by callers finish", "regexp2 reports finitely many matches, bufio.Scanner finitely many lines", "components are not part of themselves")
}

func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

func (fi *fnInfo) sortedLoops() []*loopInfo {
	var out []*loopInfo
	for _, l := range fi.loops {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].head.Index < out[j].head.Index })
	return out
}

type termVisit struct {
	n, bad int
	rank   string
}

var termHook func(x *Interp, l *loopInfo, tag string, pairs []termPair, last bool) bool

type termPair struct{ head, back *State }

// observe runs an analysis for the sake of its loops.
func (x *Interp) observe(p *core.Program, run func(*core.Program, *core.Report)) map[*ssa.BasicBlock]*termVisit {
	seen := map[*ssa.BasicBlock]*termVisit{}
	termHook = func(x *Interp, l *loopInfo, tag string, pairs []termPair, last bool) bool {
		v := seen[l.head]
		if v == nil {
			v = &termVisit{}
			seen[l.head] = v
		}
		rank, ok := "what waits, and the symbols", x.Drains != nil && x.Drains(pairs)
		if !ok {
			rank, ok = x.ranked(tag, pairs)
		}
		if !ok && !last {
			return false
		}
		v.n++
		if ok {
			v.rank = rank
		} else {
			v.bad++
		}
		return true
	}
	defer func() { termHook = nil }()
	rep := core.NewReport("")
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("GTCHECK_PANIC") != "" {
					panic(e)
				}
				x.Rep.Notes = append(x.Rep.Notes, fmt.Sprint(e))
			}
		}()
		run(p, rep)
	}()
	for k, n := range rep.Stats {
		x.Rep.Stats[k] += n
	}
	return seen
}

// terms are the quantities of a loop.
func (x *Interp) terms(st *State, names []ssa.Value) map[string]Lin {
	out := map[string]Lin{"0": K(0)}
	f := st.top()
	var see func(n string, v Val, d int)
	see = func(n string, v Val, d int) {
		switch w := v.(type) {
		case IntV:
			out[n] = w.L
		case SliceV:
			out["len("+n+")"] = w.Len
		case StrV:
			out["len("+n+")"] = strLen0(w)
		case StructV:
			for i, e := range w.F {
				see(fmt.Sprintf("%s.%d", n, i), e, d)
			}
		case PtrV:
			if d > 0 || w.Obj == 0 {
				return
			}
			if o := st.heap[w.Obj]; o != nil && o.Seq == nil && o.V != nil && o.Bad == "" {
				var path []int
				for _, e := range w.Path {
					if e.IsIdx {
						return
					}
					path = append(path, e.Field)
				}
				if sv, ok := o.V.(StructV); ok || len(path) == 0 {
					if len(path) > 1 || len(path) == 1 && path[0] >= len(sv.F) {
						return
					}
					see("*"+n, getPath(o.V, path), d+1)
				}
			}
		}
	}
	for _, v := range names {
		if w := f.Env[v]; w != nil {
			n := v.Name()
			if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
				n = ph.Comment + "/" + n
			}
			see(n, w, 0)
		}
	}
	return out
}

// ranked finds a difference of two quantities that falls with every iteration.
func (x *Interp) ranked(tag string, pairs []termPair) (string, bool) {
	if len(pairs) == 0 {
		return "no iteration begins again", true
	}
	type cand struct{ a, b string }
	var cands []cand
	for i, p := range pairs {
		if p.back.dead || p.back.P.bot {
			continue
		}
		names := x.order(p.head.top())
		h, b := map[string]Lin{}, x.terms(p.back, names)
		direct := x.terms(p.head, names)
		for n := range direct {
			h[n] = direct[n]
			if p.back.HasG(tag + n) {
				h[n] = p.back.G(tag + n)
			}
		}
		if i == 0 || cands == nil {
			var ks []string
			for k := range h {
				if _, ok := b[k]; ok {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				for _, l := range ks {
					if k != l {
						cands = append(cands, cand{k, l})
					}
				}
			}
		}
		var keep []cand
		for _, c := range cands {
			h1, o1 := h[c.a]
			h2, o2 := h[c.b]
			b1, o3 := b[c.a]
			b2, o4 := b[c.b]
			if !o1 || !o2 || !o3 || !o4 {
				continue
			}
			rh, rb := h1.Sub(h2), b1.Sub(b2)
			if x.ProveGE(p.back, rh.Sub(rb).AddK(-1)) && x.ProveGE(p.back, rh.AddK(1)) {
				keep = append(keep, c)
			}
		}
		if p.back.unreachable() {
			continue
		}
		if cands = keep; len(cands) == 0 {
			return "", false
		}
	}
	if len(cands) == 0 {
		return "no iteration begins again", true
	}
	return cands[0].a + " - " + cands[0].b, true
}

// drains reports whether the candidates that wait become fewer, or the symbols
// do, in an iteration that takes a candidate.
func (m *merging) drains(p termPair) bool {
	x, st := m.x, p.back
	if !st.HasG("T.pos") || st.HasG("stray") {
		return false
	}
	list := func(s *State) Lin {
		n := K(0)
		for _, v := range s.top().Env {
			if sv, ok := v.(SliceV); ok {
				if o := s.heap[sv.Obj]; o != nil && types.Identical(o.Elem, m.wt) {
					n = n.Add(sv.Len)
				}
			}
		}
		return n
	}
	q := st.G("re").AddK(-1)
	for _, k := range []string{"+L", "+R"} {
		if st.HasG(k) {
			q = q.AddK(1)
		}
	}
	d := q.Add(list(st)).Sub(list(p.head))
	if x.ProveGE(st, K(0).Sub(d).AddK(-1)) || x.ProveEQ(st, d) && x.ProveGE(st, K(0).Sub(q).AddK(-1)) {
		return true
	}
	if st.unreachable() {
		return true
	}
	// one symbol less
	if !st.HasG("n") {
		return false
	}
	t := x.Type(bpePkg, "WordSymbol")
	for _, e := range st.mats["csym"] {
		if x.ProveEQ(st, e.idx.Sub(st.G("n"))) {
			v, ok := getPath(st.heap[e.obj].V, fieldPath(t, "Length")).(IntV)
			return ok && x.ProveEQ(st, v.L)
		}
	}
	return false
}

// blocking reports what may wait for something else.
func (x *Interp) blocking(fn *ssa.Function) {
	n := 0
	bad := func(pos token.Pos, what string) {
		n++
		x.Rep.Fail(rBlock, fmt.Sprintf("%s|%s %d", core.Short(fn.String()), what, n), x.Prog.Pos(pos), "%s may never return", what)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Send:
				bad(v.Pos(), "sending to a channel")
			case *ssa.Select:
				if v.Blocking {
					bad(v.Pos(), "a select")
				}
			case *ssa.UnOp:
				if v.Op == token.ARROW {
					bad(v.Pos(), "receiving from a channel")
				}
			case ssa.CallInstruction:
				c := v.Common().StaticCallee()
				if c == nil || c.Pkg == nil {
					continue
				}
				switch s := c.String(); {
				case s == "(*sync.Mutex).Lock" || s == "(*sync.RWMutex).Lock" || s == "(*sync.RWMutex).RLock":
					if !released(fn, in, strings.Replace(s, "Lock", "Unlock", 1)) {
						bad(v.Pos(), "a lock that is not released on every path, or is taken again,")
					}
				case s == "(*sync.WaitGroup).Wait" || s == "(*sync.Cond).Wait" || strings.HasPrefix(s, "os.Exit"):
					bad(v.Pos(), s)
				}
			}
		}
	}
	if n == 0 {
		x.Rep.Pass(rBlock, core.Short(fn.String()), x.Prog.Pos(fn.Pos()), "no blocking instruction")
	}
}

// released: every path from the lock to a return unlocks, or a deferred call does.
func released(fn *ssa.Function, lock ssa.Instruction, unlock string) bool {
	name := func(in ssa.Instruction) string {
		if c, ok := in.(ssa.CallInstruction); ok {
			if f := c.Common().StaticCallee(); f != nil {
				return f.String()
			}
		}
		return ""
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if name(in) == unlock {
				return true
			}
			if strings.HasSuffix(name(in), "Lock") && strings.HasPrefix(name(in), "(*sync.") {
				return false
			}
			if _, ok := in.(*ssa.Return); ok {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if !walk(s, 0) {
					return false
				}
			}
		}
		return true
	}
	for i, in := range lock.Block().Instrs {
		if in == lock {
			return walk(lock.Block(), i+1)
		}
	}
	return false
}

// recursion looks for functions that call themselves.
func (x *Interp) recursion() {
	calls := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range x.Prog.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if f := c.Common().StaticCallee(); f != nil && x.Prog.InModule(f) && len(f.Blocks) > 0 {
					calls[fn] = append(calls[fn], c)
				}
			}
		}
	}
	for _, fn := range x.Prog.Funcs {
		// the calls of fn from which it is reached again
		seen := map[*ssa.Function]bool{}
		var reach func(f *ssa.Function) bool
		reach = func(f *ssa.Function) bool {
			if f == fn {
				return true
			}
			if seen[f] {
				return false
			}
			seen[f] = true
			for _, c := range calls[f] {
				if reach(c.Common().StaticCallee()) {
					return true
				}
			}
			return false
		}
		bad := ""
		var self []ssa.CallInstruction
		for _, c := range calls[fn] {
			f := c.Common().StaticCallee()
			if f == fn {
				self = append(self, c)
			} else if reach(f) {
				bad = x.Prog.Pos(c.Pos())
			}
		}
		if len(self) > 0 && !descends(fn, self) {
			bad = x.Prog.Pos(self[0].Pos())
		}
		// the same method of itself, through an interface
		if len(fn.Params) > 0 && fn.Signature.Recv() != nil {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == fn.Name() {
						if mi, ok := c.Common().Value.(*ssa.MakeInterface); ok && mi.X == ssa.Value(fn.Params[0]) {
							bad = x.Prog.Pos(c.Pos())
						}
					}
				}
			}
		}
		x.Rep.Add(rRec, core.Short(fn.String()), x.Prog.Pos(fn.Pos()), bad == "", "calls itself again, at "+bad)
	}
}

// descends: a parameter of all the calls gets smaller, and the calls depend on
// a comparison with it.
func descends(fn *ssa.Function, calls []ssa.CallInstruction) bool {
	for i, p := range fn.Params {
		ok := true
		dir := 0
		for _, c := range calls {
			switch a := c.Common().Args[i].(type) {
			case *ssa.Slice:
				k, isK := constInt(a.Low)
				ok = ok && a.X == ssa.Value(p) && isK && k >= 1
			case *ssa.BinOp:
				k, isK := constInt(a.Y)
				ok = ok && isK && k >= 1 && a.X == ssa.Value(p) && (a.Op == token.ADD || a.Op == token.SUB)
				d := 1
				if a.Op == token.SUB {
					d = -1
				}
				ok = ok && (dir == 0 || dir == d) && guards(c.Block(), p, d)
				dir = d
			default:
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// guards: b is reached only while p is below (d=1) or above (d=-1) something
// that is passed on unchanged.
func guards(b *ssa.BasicBlock, p ssa.Value, d int) bool {
	for c := b; c.Idom() != nil; c = c.Idom() {
		iff, ok := c.Idom().Instrs[len(c.Idom().Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := cmp.Op
		if c.Idom().Succs[1] == c {
			op = negate(op)
		} else if c.Idom().Succs[0] != c {
			continue
		}
		if cmp.Y == p {
			op = flip(op)
		} else if cmp.X != p {
			continue
		}
		if d > 0 && (op == token.LSS || op == token.LEQ) || d < 0 && (op == token.GTR || op == token.GEQ) {
			return true
		}
	}
	return false
}

func negate(op token.Token) token.Token {
	return map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
}

func flip(op token.Token) token.Token {
	if o, ok := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]; ok {
		return o
	}
	return op
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// structural gives the reason why a loop ends, if it can be seen in its form.
func structural(fi *fnInfo, l *loopInfo) string {
	var latches []*ssa.BasicBlock
	for _, p := range l.head.Preds {
		if l.blocks[p] {
			latches = append(latches, p)
		}
	}
	every := func(b *ssa.BasicBlock) bool {
		for _, t := range latches {
			if !b.Dominates(t) {
				return false
			}
		}
		return true
	}
	inside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && l.blocks[in.Block()]
	}
	addsTo := func(m types.Type, key ssa.Value) bool {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.MapUpdate:
					if types.Identical(v.Map.Type(), m) && (key == nil || v.Key != key) {
						return true
					}
				case ssa.CallInstruction:
					// a call may add to the map if it can reach it
					f := v.Common().StaticCallee()
					if f == nil || len(f.Blocks) > 0 && core.InModulePath(pkgOf(f)) && updatesMap(f, m, map[*ssa.Function]bool{}) {
						if _, builtin := v.Common().Value.(*ssa.Builtin); !builtin && !inter(v) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for b := range l.blocks {
		if !every(b) || !innermost(fi, l, b) {
			continue
		}
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Next:
				rg, ok := v.Iter.(*ssa.Range)
				if !ok || inside(rg) {
					continue
				}
				if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
					var key ssa.Value
					for _, u := range *v.Referrers() {
						if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
							key = e
						}
					}
					if addsTo(rg.X.Type(), key) {
						continue
					}
				}
				return "it visits each element once"
			case *ssa.Call:
				f := v.Call.StaticCallee()
				if f == nil {
					continue
				}
				switch f.String() {
				case "(*bufio.Scanner).Scan":
					if leavesOn(l, every, v) {
						return "it reads each line once"
					}
				case "(*github.com/dlclark/regexp2.Regexp).FindNextMatch":
					// of the match of this iteration
					ph, ok := v.Call.Args[1].(*ssa.Phi)
					if !ok || ph.Block() != l.head {
						continue
					}
					good := true
					for i, e := range ph.Edges {
						if l.blocks[l.head.Preds[i]] {
							x, isX := e.(*ssa.Extract)
							good = good && isX && x.Tuple == ssa.Value(v) && x.Index == 0
						}
					}
					if good && leavesNil(l, every, ph) {
						return "it visits each match once"
					}
				}
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		out0, out1 := !l.blocks[b.Succs[0]], !l.blocks[b.Succs[1]]
		if out0 == out1 {
			continue
		}
		cond, truth := iff.Cond, out1 // goes on if cond == truth
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, truth = u.X, !truth
		}
		if truth {
			if m, ok := whileKey(l, cond); ok && !addsTo(m, nil) {
				return "it goes on only while a growing number is a key of a map"
			}
		}
		c, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := c.Op
		if !truth {
			op = negate(op)
		}
		a, z := c.X, c.Y
		switch op {
		case token.GTR, token.GEQ:
			a, z = z, a
		case token.LSS, token.LEQ:
		default:
			continue
		}
		// goes on while a < z: a - z has to grow
		alo, _, ok1 := moves(fi, l, a, 0)
		_, zhi, ok2 := moves(fi, l, z, 0)
		if ok1 && ok2 && alo-zhi >= 1 {
			return "two numbers come closer with every iteration"
		}
	}
	return ""
}

// innermost: b is in no loop inside l (what happens there may happen any
// number of times, also never).
func innermost(fi *fnInfo, l *loopInfo, b *ssa.BasicBlock) bool {
	for _, k := range fi.loops {
		if k != l && l.blocks[k.head] && k.blocks[b] {
			return false
		}
	}
	return true
}

// inter: a call of a function of another module.
func inter(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f != nil && !core.InModulePath(pkgOf(f))
}

func updatesMap(f *ssa.Function, t types.Type, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && types.Identical(u.Map.Type(), t) {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && core.InModulePath(pkgOf(g)) && updatesMap(g, t, seen) {
					return true
				}
			}
		}
	}
	return false
}

// leavesOn: the loop ends if the call reports false.
func leavesOn(l *loopInfo, every func(*ssa.BasicBlock) bool, v ssa.Value) bool {
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if ok && every(b) {
			if iff.Cond == v && !l.blocks[b.Succs[1]] {
				return true
			}
			if u, ok := iff.Cond.(*ssa.UnOp); ok && u.Op == token.NOT && u.X == v && !l.blocks[b.Succs[0]] {
				return true
			}
		}
	}
	return false
}

// leavesNil: the loop ends if v, or what it becomes, is nil.
func leavesNil(l *loopInfo, every func(*ssa.BasicBlock) bool, ph *ssa.Phi) bool {
	match := func(v ssa.Value) bool {
		if v == ssa.Value(ph) {
			return true
		}
		for i, e := range ph.Edges {
			if l.blocks[l.head.Preds[i]] && e == v {
				return true
			}
		}
		return false
	}
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !every(b) {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		isNil := func(v ssa.Value) bool {
			k, ok := v.(*ssa.Const)
			return ok && k.Value == nil
		}
		if !(match(c.X) && isNil(c.Y) || match(c.Y) && isNil(c.X)) {
			continue
		}
		if c.Op == token.NEQ && !l.blocks[b.Succs[1]] || c.Op == token.EQL && !l.blocks[b.Succs[0]] {
			return true
		}
	}
	return false
}

// lookedUp: v reports whether the key is in a map, looked up here or by a
// function that does just that.
func lookedUp(v ssa.Value) (m types.Type, key ssa.Value) {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return nil, nil
	}
	switch t := e.Tuple.(type) {
	case *ssa.Lookup:
		if t.CommaOk && e.Index == 1 {
			return t.X.Type(), t.Index
		}
	case *ssa.Call:
		f := t.Call.StaticCallee()
		if f == nil || len(f.Blocks) != 1 {
			return nil, nil
		}
		ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) <= e.Index {
			return nil, nil
		}
		m, k := lookedUp(ret.Results[e.Index])
		for i, p := range f.Params {
			if m != nil && k == ssa.Value(p) {
				return m, t.Call.Args[i]
			}
		}
	}
	return nil, nil
}

// whileKey: cond reports whether a number that grows with every iteration is
// a key of a map.
func whileKey(l *loopInfo, cond ssa.Value) (types.Type, bool) {
	grows := func(ph *ssa.Phi) bool {
		if ph.Block() != l.head {
			return false
		}
		for i, e := range ph.Edges {
			if !l.blocks[l.head.Preds[i]] {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
				return false
			}
			if k, isK := constInt(b.Y); !isK || k < 1 {
				return false
			}
		}
		return true
	}
	if m, key := lookedUp(cond); m != nil {
		if b, ok := key.(*ssa.BinOp); ok && b.Op == token.ADD {
			if _, isK := constInt(b.Y); isK {
				key = b.X
			}
		}
		ph, ok := key.(*ssa.Phi)
		return m, ok && grows(ph)
	}
	ph, ok := cond.(*ssa.Phi)
	if !ok || ph.Block() != l.head {
		return nil, false
	}
	for _, in := range l.head.Instrs {
		n, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if n == ph || !grows(n) {
			continue
		}
		good := true
		var m types.Type
		for i := range ph.Edges {
			if !l.blocks[l.head.Preds[i]] {
				continue
			}
			t, key := lookedUp(ph.Edges[i])
			good = good && t != nil && key == n.Edges[i]
			if t != nil {
				m = t
			}
		}
		if good && m != nil {
			return m, true
		}
	}
	return nil, false
}

// moves bounds how much v grows from one iteration to the next, where v is
// what it is in the current iteration when it is judged.
func moves(fi *fnInfo, l *loopInfo, v ssa.Value, d int) (lo, hi int64, ok bool) {
	if d > 8 {
		return
	}
	in, isIn := v.(ssa.Instruction)
	if !isIn || !l.blocks[in.Block()] {
		return 0, 0, true
	}
	switch w := v.(type) {
	case *ssa.BinOp:
		a1, a2, ok1 := moves(fi, l, w.X, d+1)
		b1, b2, ok2 := moves(fi, l, w.Y, d+1)
		if !ok1 || !ok2 {
			return
		}
		switch w.Op {
		case token.ADD:
			return a1 + b1, a2 + b2, true
		case token.SUB:
			return a1 - b2, a2 - b1, true
		}
		return 0, 0, a1 == 0 && a2 == 0 && b1 == 0 && b2 == 0
	case *ssa.Call:
		if b, ok := w.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if same(l, w.Call.Args[0], 0) {
				if _, isMap := w.Call.Args[0].Type().Underlying().(*types.Map); !isMap {
					return 0, 0, true
				}
			}
		}
		return
	case *ssa.UnOp:
		return 0, 0, same(l, w, 0)
	case *ssa.Phi:
		if w.Block() != l.head {
			return
		}
		first := true
		for i, e := range w.Edges {
			if !l.blocks[l.head.Preds[i]] {
				continue
			}
			a, b, ok := added(fi, l, w, e, map[ssa.Value]bool{})
			if !ok {
				return 0, 0, false
			}
			if first || a < lo {
				lo = a
			}
			if first || b > hi {
				hi = b
			}
			first = false
		}
		return lo, hi, !first
	}
	return
}

// same reports whether v is the same in every iteration: it comes from
// outside, or is read from memory of which no memory of its type is written.
func same(l *loopInfo, v ssa.Value, d int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.blocks[in.Block()] {
		return true
	}
	if d > 6 {
		return false
	}
	switch w := v.(type) {
	case *ssa.FieldAddr:
		return same(l, w.X, d+1)
	case *ssa.Field:
		return same(l, w.X, d+1)
	case *ssa.Convert:
		return same(l, w.X, d+1)
	case *ssa.ChangeType:
		return same(l, w.X, d+1)
	case *ssa.UnOp:
		if w.Op != token.MUL {
			return w.Op != token.ARROW && same(l, w.X, d+1)
		}
		if !same(l, w.X, d+1) {
			return false
		}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if writes(in, w.X, map[*ssa.Function]bool{}) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// writes reports whether in may write what addr points to.
func writes(in ssa.Instruction, addr ssa.Value, seen map[*ssa.Function]bool) bool {
	switch w := in.(type) {
	case *ssa.Store:
		a, ok1 := addr.(*ssa.FieldAddr)
		b, ok2 := w.Addr.(*ssa.FieldAddr)
		if ok1 && ok2 {
			return a.Field == b.Field && types.Identical(a.X.Type(), b.X.Type()) || !flat(w.Val.Type())
		}
		if _, local := w.Addr.(*ssa.Alloc); local && w.Addr != addr {
			return false
		}
		if ok1 {
			// a whole struct, or a variable of the type of the field
			return types.Identical(w.Val.Type(), deref(a.X.Type())) || types.Identical(w.Val.Type(), deref(a.Type())) && !ok2
		}
		return types.Identical(w.Addr.Type(), addr.Type())
	case ssa.CallInstruction:
		if _, ok := w.Common().Value.(*ssa.Builtin); ok {
			return false
		}
		f := w.Common().StaticCallee()
		if f == nil {
			return true
		}
		if seen[f] || !core.InModulePath(pkgOf(f)) {
			// other modules do not know the types of this one
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if writes(in, addr, seen) {
					return true
				}
			}
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// flat: no struct that could contain another one.
func flat(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return !ok
}

// added bounds what e is more than ph, in the same iteration.
func added(fi *fnInfo, l *loopInfo, ph *ssa.Phi, e ssa.Value, seen map[ssa.Value]bool) (lo, hi int64, ok bool) {
	if e == ssa.Value(ph) {
		return 0, 0, true
	}
	if seen[e] {
		return
	}
	seen[e] = true
	defer delete(seen, e)
	switch w := e.(type) {
	case *ssa.BinOp:
		k, isK := constInt(w.Y)
		x := w.X
		if !isK && w.Op == token.ADD {
			k, isK = constInt(w.X)
			x = w.Y
		}
		if !isK || w.Op != token.ADD && w.Op != token.SUB {
			return
		}
		if w.Op == token.SUB {
			k = -k
		}
		a, b, ok := added(fi, l, ph, x, seen)
		return a + k, b + k, ok
	case *ssa.Phi:
		if fi.loops[w.Block()] != nil {
			return // of a loop inside
		}
		for i, g := range w.Edges {
			a, b, ok := added(fi, l, ph, g, seen)
			if !ok {
				return 0, 0, false
			}
			if i == 0 || a < lo {
				lo = a
			}
			if i == 0 || b > hi {
				hi = b
			}
		}
		return lo, hi, true
	}
	return
}
