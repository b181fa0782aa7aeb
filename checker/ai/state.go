package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// Interp is one analysis: a program, the declared families and the reporting.
type Interp struct {
	Skip   map[string]bool // rules not to report
	Tidy   bool            // joins drop facts about positions that no longer have a name
	rename bool            // joins do not keep the names of what changes

	spText, spLit *StrBase
	spMatches     *matchSeq
	spTag         string
	spPred        func(x *Interp, st *State, r Lin) *Formula
	Prog          *core.Program
	Rep           *core.Report
	fams          map[string]*Fam
	nsym          Sym
	nobj          ObjID
	nbase         int
	mute          int
	depth         int
	stack         []*ssa.Function
	mark          Sym // symbols up to mark are stable names in summaries
	Steps         int
	MaxSt         int
	infos         map[*ssa.Function]*fnInfo
	Back          func(st *State, depth int) []*State // called when a loop begins again
	clipped       bool
	LenOf         map[string]func(st *State, v Val) []Outcome // len of a named type
	terming       int
	Drains        func(pairs []termPair) bool                        // why a loop ends that the harness knows
	Peel          bool                                               // outermost loops: first iterations are kept apart
	Hint          func(st *State) (Lin, bool)                        // what may never be negative at the start of a loop
	SubTag        func(st *State, p Piece, lo, hi Lin) (Piece, bool) // parts of named texts
	Stubs         map[string]Stub
	Global        map[*ssa.Global]ObjID
	Roots         []ObjID // objects the harness looks at afterwards
	// hooks of a harness
	Specs          map[string]*ChainSpec
	SpecFor        func(t types.Type) *ChainSpec // for the types not in Specs
	OnWrite        func(x *Interp, st *State, s StrV)
	OnReadRune     func(x *Interp, st *State, b *StrBase, k, r Lin)
	OnStore        func(x *Interp, st *State, p PtrV, v Val, pos token.Pos)
	OnSharedAppend func(x *Interp, st *State, s SliceV, pos token.Pos)
	OnMapSet       func(x *Interp, st *State, m MapV, k, v Val, pos token.Pos)
	Maps           MapModel
	MapGet         map[string]func(x *Interp, st *State, k Val) []MapOut
	AssertTag      func(x *Interp, st *State, o OpaqueV, t types.Type) (Val, bool, bool)
	NoPanics       bool // run-time panics are obligations
	RulePanic      string
	loops          []*loopInfo
	Only           map[string]bool // the rules reported
	MakeHint       func(st *State) // adds facts of interest when memory is reserved
	Unsup          map[string]string
	Trace          bool
	LoudInit       bool // package initialisation is part of what is decided
	initState      *State
	Inlined        map[*ssa.Function]bool
	tagLoads       map[string]func(x *Interp, st *State, o OpaqueV) PtrV
	bitCmp         map[int64]bool
	swaps          map[*ssa.BasicBlock]*swapInfo
}

// Stub replaces a call.
type Stub func(x *Interp, st *State, call *ssa.CallCommon, args []Val) []Outcome

// Outcome is one way a call ends.
type Outcome struct {
	St    *State
	Ret   Val
	Panic bool
}

// Fam declares an uninterpreted function of one integer.
type Fam struct {
	Name   string
	Lo, Hi *int64 // bounds of the slope
	N      *Lin   // domain [0,N]
	V0, VN *Lin   // values at the ends
	Inv    bool   // strictly increasing: the index is found from the value
	Keep   bool   // entries of values in use survive joins
	Inst   bool   // entries at and before a counter survive joins with states that lack them
	Always []Lin  // entries at these indices, of symbols older than all loops, survive joins
	Rev    *Lin   // indices at Rev minus a counter are of interest
	OnNew  func(x *Interp, st *State, idx, v Lin)
	// Link adds facts that always hold between existing entries at the same
	// index; it is applied again after joins.
	Link func(x *Interp, st *State, idx, v Lin)
	// Cong: equal arguments give equal results; idempotent marker
}

type memoEnt struct{ idx, v Lin }

// Obj is a heap object. Objects are immutable: an update replaces it.
type Obj struct {
	V       Val // cell contents
	Seq     *Seq
	Elem    types.Type
	Boxed   bool // the elements are pointers to structs, held in place
	Map     *MapObj
	It      *Iter
	Reads   []readEnt
	Fwd     *PtrV  // the cell moved into a sequence
	Bad     string // contents unknown, why
	Name    string
	Checked bool // elements were checked when they were added
	Shared  bool // came from outside: not owned by the analysed code
	Frozen  bool // referenced by an element that was summarised
}

type readEnt struct {
	idx Lin
	v   Val
}

// Iter is the state of a range over a string or map.
type Iter struct {
	Str    StrV
	K, KHi Lin // rune indices
	Map    Val
	Byte   bool
}

// MapObj is the abstract content of a map.
type MapObj struct {
	Name string
	Ents []mapEnt // most recent last
	Len  *Lin
}

type mapEnt struct{ K, V Val }

// Frame holds the values of one activation.
type Frame struct {
	Fn     *ssa.Function
	Env    map[ssa.Value]Val
	Defers []deferred
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
}

// State is an abstract state: the set of concrete states for which some
// valuation of the symbols satisfies P.
type State struct {
	P      *Poly
	frames []*Frame
	heap   map[ObjID]*Obj
	memo   map[string][]memoEnt
	sets   map[Sym]*RuneSet
	ghost  map[string]Val
	mats   map[string][]matEnt
	facts  map[string]bool // opaque boolean facts already decided
	amb    []Lin           // facts l >= 0 about lasting symbols, true from the start
	dead   bool
}

// Ambient makes the inequalities known now survive every join.
func (st *State) Ambient() { st.amb = append([]Lin(nil), st.P.ge...) }

type matEnt struct {
	idx Lin
	obj ObjID
}

func NewInterp(p *core.Program, r *core.Report) *Interp {
	x := &Interp{Prog: p, Rep: r, fams: map[string]*Fam{}, infos: map[*ssa.Function]*fnInfo{},
		Stubs: map[string]Stub{}, Global: map[*ssa.Global]ObjID{}, Unsup: map[string]string{}, Inlined: map[*ssa.Function]bool{},
		tagLoads: map[string]func(x *Interp, st *State, o OpaqueV) PtrV{}}
	x.declWidth()
	return x
}

func NewState() *State {
	return &State{P: NewPoly(), heap: map[ObjID]*Obj{}, memo: map[string][]memoEnt{}, sets: map[Sym]*RuneSet{},
		ghost: map[string]Val{}, mats: map[string][]matEnt{}, facts: map[string]bool{}}
}

func (x *Interp) Fresh(name string) Lin {
	x.nsym++
	if name != "" {
		SymNames[x.nsym] = name
	}
	return V(x.nsym)
}

// FreshNat returns a fresh symbol >= 0.
func (x *Interp) FreshNat(st *State, name string) Lin {
	l := x.Fresh(name)
	st.P.AddGE(l)
	return l
}

func (x *Interp) NewObj(st *State, o *Obj) ObjID {
	x.nobj++
	st.heap[x.nobj] = o
	return x.nobj
}

func (st *State) Clone() *State {
	n := &State{P: st.P.Clone(), heap: make(map[ObjID]*Obj, len(st.heap)), memo: make(map[string][]memoEnt, len(st.memo)),
		sets: make(map[Sym]*RuneSet, len(st.sets)), ghost: make(map[string]Val, len(st.ghost)), mats: make(map[string][]matEnt, len(st.mats)),
		facts: make(map[string]bool, len(st.facts)), dead: st.dead, amb: st.amb}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.memo {
		n.memo[k] = v[:len(v):len(v)]
	}
	for k, v := range st.sets {
		n.sets[k] = v
	}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	for k, v := range st.mats {
		n.mats[k] = v[:len(v):len(v)]
	}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		if i < len(st.frames)-1 {
			n.frames[i] = f // callers do not change while a callee runs
		} else {
			n.frames[i] = f.clone()
		}
	}
	return n
}

func (f *Frame) clone() *Frame {
	g := &Frame{Fn: f.Fn, Env: make(map[ssa.Value]Val, len(f.Env)), Defers: f.Defers[:len(f.Defers):len(f.Defers)]}
	for k, v := range f.Env {
		g.Env[k] = v
	}
	return g
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// Ghost registers.
func (st *State) SetG(name string, l Lin)  { st.ghost[name] = IntV{L: l} }
func (st *State) G(name string) Lin        { return st.ghost[name].(IntV).L }
func (st *State) HasG(name string) bool    { _, ok := st.ghost[name]; return ok }
func (st *State) SetGV(name string, v Val) { st.ghost[name] = v }
func (st *State) GV(name string) Val       { return st.ghost[name] }

// Families.

func (x *Interp) Decl(f *Fam) *Fam { x.fams[f.Name] = f; return f }

func I64(v int64) *int64 { return &v }
func L(l Lin) *Lin       { return &l }

// Find returns the recorded value of fam at idx.
func (x *Interp) Find(st *State, fam string, idx Lin) (Lin, bool) {
	r := st.P.Reduce(idx)
	es := st.memo[fam]
	for i := range es {
		if st.P.Reduce(es[i].idx).Eq(r) {
			return es[i].v, true
		}
	}
	for i := range es {
		d := st.P.Reduce(es[i].idx).Sub(r)
		if _, c := d.Const(); c {
			continue
		}
		if st.P.EntailsEQ(d) {
			return es[i].v, true
		}
	}
	return Lin{}, false
}

// App is the value of fam at idx.
func (x *Interp) App(st *State, fam string, idx Lin) Lin {
	if v, ok := x.Find(st, fam, idx); ok {
		return v
	}
	v := x.Fresh(fam)
	x.Bind(st, fam, idx, v)
	return v
}

// Bind records fam(idx) = v and adds its axioms.
func (x *Interp) Bind(st *State, fam string, idx, v Lin) {
	st.memo[fam] = append(st.memo[fam], memoEnt{idx, v})
	f := x.fams[fam]
	if f == nil {
		return
	}
	x.axioms(st, f, len(st.memo[fam])-1)
	if f.OnNew != nil {
		f.OnNew(x, st, idx, v)
	}
	if f.Link != nil {
		f.Link(x, st, idx, v)
	}
}

// at is the recorded value of fam at exactly idx.
func (x *Interp) at(st *State, fam string, idx Lin) (Lin, bool) {
	r := st.P.Reduce(idx)
	es := st.memo[fam]
	for i := range es {
		if st.P.Reduce(es[i].idx).Eq(r) {
			return es[i].v, true
		}
	}
	return Lin{}, false
}

// relink merges the entries at equal indices, and adds the link facts and the
// axioms between entries at a constant distance.
func (x *Interp) relink(st *State) {
	for _, n := range sortedFams(st) {
		f := x.fams[n]
		es := st.memo[n]
		for again := true; again && !st.P.bot; {
			again = false
			seen := map[string]int{}
			out := make([]memoEnt, 0, len(es))
			for _, e := range es {
				k := lkey(st.P.Reduce(e.idx))
				if i, ok := seen[k]; ok {
					if d := st.P.Reduce(out[i].v.Sub(e.v)); !d.IsK(0) {
						st.P.AddEq(d)
						again = true
					}
					continue
				}
				seen[k] = len(out)
				out = append(out, e)
			}
			es = out
		}
		st.memo[n] = es
		if f == nil || st.P.bot {
			continue
		}
		for _, e := range es {
			if f.V0 != nil && st.P.Reduce(e.idx).IsK(0) {
				st.P.AddEq(e.v.Sub(*f.V0))
			}
			if f.VN != nil && f.N != nil && st.P.Reduce(e.idx.Sub(*f.N)).IsK(0) {
				st.P.AddEq(e.v.Sub(*f.VN))
			}
		}
		if f.Link != nil {
			for _, e := range es {
				f.Link(x, st, e.idx, e.v)
			}
		}
		if f.Lo != nil || f.Hi != nil {
			for i := range es {
				for j := i + 1; j < len(es); j++ {
					if c, ok := st.P.Reduce(es[j].idx.Sub(es[i].idx)).Const(); ok {
						if c > 0 {
							x.slope(st, f, es[i], es[j])
						} else if c < 0 {
							x.slope(st, f, es[j], es[i])
						}
					}
				}
			}
		}
	}
}

func sortedFams(st *State) []string {
	names := make([]string, 0, len(st.memo))
	for n := range st.memo {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

func (x *Interp) axioms(st *State, f *Fam, i int) {
	e := st.memo[f.Name][i]
	p := st.P
	if f.V0 != nil {
		if p.Reduce(e.idx).IsK(0) {
			p.AddEq(e.v.Sub(*f.V0))
		} else {
			x.slope(st, f, memoEnt{K(0), *f.V0}, e)
		}
	}
	if f.VN != nil && f.N != nil {
		if p.Reduce(e.idx.Sub(*f.N)).IsK(0) {
			p.AddEq(e.v.Sub(*f.VN))
		} else {
			x.slope(st, f, e, memoEnt{*f.N, *f.VN})
		}
	}
	if f.Lo == nil && f.Hi == nil {
		return
	}
	for j, o := range st.memo[f.Name] {
		if j == i {
			continue
		}
		d := p.Reduce(e.idx.Sub(o.idx))
		if c, ok := d.Const(); ok {
			if c > 0 {
				x.slope(st, f, o, e)
			} else if c < 0 {
				x.slope(st, f, e, o)
			} else {
				p.AddEq(e.v.Sub(o.v))
			}
			continue
		}
		if p.EntailsGE(d) {
			x.slope(st, f, o, e)
		} else if p.EntailsGE(d.Neg()) {
			x.slope(st, f, e, o)
		}
	}
}

// slope adds the bounds for a <= b.
func (x *Interp) slope(st *State, f *Fam, a, b memoEnt) {
	dv, di := b.v.Sub(a.v), b.idx.Sub(a.idx)
	if f.Lo != nil {
		st.P.AddGEnew(dv.Sub(di.Mul(*f.Lo)))
	}
	if f.Hi != nil {
		st.P.AddGEnew(di.Mul(*f.Hi).Sub(dv))
	}
}

// Saturate re-instantiates the pairwise axioms: the order of two indices may
// have become known, or follow from the order of the values.
func (x *Interp) Saturate(st *State) {
	names := make([]string, 0, len(st.memo))
	for n := range st.memo {
		names = append(names, n)
	}
	sort.Strings(names)
	for round := 0; round < 2; round++ {
		n0 := len(st.P.ge) + 1000*len(st.P.eq)
		for _, n := range names {
			f := x.fams[n]
			if f == nil || (f.Lo == nil && f.Hi == nil) {
				// congruence
				if f != nil && f.OnNew == nil && f.Lo == nil {
					continue
				}
				if f == nil || f.Lo == nil {
					continue
				}
			}
			es := st.memo[n]
			for i := range es {
				for j := i + 1; j < len(es); j++ {
					a, b := es[i], es[j]
					d := st.P.Reduce(b.idx.Sub(a.idx))
					if c, ok := d.Const(); ok {
						if c == 0 {
							st.P.AddEq(a.v.Sub(b.v))
						}
						continue
					}
					ge, le := st.P.EntailsGE(d), st.P.EntailsGE(d.Neg())
					switch {
					case ge && le:
						st.P.AddEq(d)
						st.P.AddEq(a.v.Sub(b.v))
						continue
					case ge:
						x.slope(st, f, a, b)
						if st.P.EntailsGE(d.AddK(-1)) {
							x.slope(st, f, a, memoEnt{b.idx, b.v})
						}
						continue
					case le:
						x.slope(st, f, b, a)
						continue
					}
					if f.Inv && *f.Lo >= 1 {
						dv := b.v.Sub(a.v)
						// values order the indices
						if st.P.EntailsEQ(dv) {
							st.P.AddEq(d)
						} else if st.P.EntailsGE(dv) {
							st.P.AddGE(d)
							x.slope(st, f, a, b)
							if st.P.EntailsGE(dv.AddK(-1)) {
								st.P.AddGE(d.AddK(-1))
							}
						} else if st.P.EntailsGE(dv.Neg()) {
							st.P.AddGE(d.Neg())
							x.slope(st, f, b, a)
							if st.P.EntailsGE(dv.Neg().AddK(-1)) {
								st.P.AddGE(d.Neg().AddK(-1))
							}
						}
					}
				}
			}
		}
		if st.P.bot || len(st.P.ge)+1000*len(st.P.eq) == n0 {
			break
		}
	}
	if st.P.Unsat() {
		st.dead = true
	}
}

// ProveGE tries to establish l >= 0.
func (x *Interp) ProveGE(st *State, l Lin) bool {
	if st.P.EntailsGE(l) {
		return true
	}
	q := st.Clone()
	x.Saturate(q)
	if q.dead || q.P.bot {
		st.dead = true
		st.P.setBot()
		return true
	}
	if q.P.EntailsGE(l) {
		st.P = q.P
		return true
	}
	return false
}

func (x *Interp) ProveEQ(st *State, l Lin) bool {
	if st.P.EntailsEQ(l) {
		return true
	}
	return x.ProveGE(st, l) && x.ProveGE(st, l.Neg())
}

// ProveNE reports whether l is never 0.
func (x *Interp) ProveNE(st *State, l Lin) bool {
	if st.P.EntailsNE(l) {
		return true
	}
	return x.ProveGE(st, l.AddK(-1)) || x.ProveGE(st, l.Neg().AddK(-1))
}

// Sets.

// setOf returns the known set of l (shifted), if l is a symbol plus constant.
func (x *Interp) setOf(st *State, l Lin) (*RuneSet, Sym, int64, int64, bool) {
	r := st.P.Reduce(l)
	if len(r.t) != 1 || (r.t[0].c != 1 && r.t[0].c != -1) {
		return nil, 0, 0, 0, false
	}
	rep := r.t[0].s
	var set *RuneSet
	for s, t := range st.sets {
		q := st.P.Reduce(V(s))
		if len(q.t) == 1 && q.t[0].s == rep {
			var u *RuneSet
			if q.t[0].c == 1 {
				u = t.Shift(-q.c) // rep = s - c
			} else if q.t[0].c == -1 {
				u = t.Neg().Shift(q.c) // rep = c - s
			} else {
				continue
			}
			if set == nil {
				set = u
			} else {
				set = set.Intersect(u)
			}
		}
	}
	if set == nil {
		return nil, rep, r.t[0].c, r.c, false
	}
	return set, rep, r.t[0].c, r.c, true
}

// addSet restricts l to set; false when that is impossible.
func (x *Interp) addSet(st *State, l Lin, set *RuneSet) bool {
	r := st.P.Reduce(l)
	if c, ok := r.Const(); ok {
		return set.Has(c)
	}
	if len(r.t) != 1 || (r.t[0].c != 1 && r.t[0].c != -1) {
		// introduce a name
		n := x.Fresh("")
		st.P.AddEq(n.Sub(r))
		// the newest symbol becomes the pivot; name it through the set anyway
		s, _ := n.Single()
		st.sets[s] = set
		x.boundSet(st, l, set)
		return !set.Empty()
	}
	rep, sg, c := r.t[0].s, r.t[0].c, r.c
	u := set.Shift(-c)
	if sg == -1 {
		u = u.Neg()
	}
	if old, _, _, _, ok := x.setOf(st, V(rep)); ok {
		u = u.Intersect(old)
	}
	// numeric bounds
	u = x.clip(st, V(rep), u)
	if u.Empty() {
		return false
	}
	st.sets[rep] = u
	x.boundSet(st, V(rep), u)
	return !st.P.bot
}

// clip removes from the ends of u what the polyhedron excludes.
func (x *Interp) clip(st *State, l Lin, u *RuneSet) *RuneSet {
	for len(u.R) > 0 && st.P.EntailsGE(l.AddK(-u.R[0][1]-1)) {
		u = &RuneSet{u.R[1:]}
	}
	for len(u.R) > 0 && st.P.EntailsGE(l.Neg().AddK(u.R[len(u.R)-1][0]-1)) {
		u = &RuneSet{u.R[:len(u.R)-1]}
	}
	return u
}

func (x *Interp) boundSet(st *State, l Lin, u *RuneSet) {
	if u.Empty() {
		st.P.setBot()
		return
	}
	lo, hi := u.R[0][0], u.R[len(u.R)-1][1]
	if lo == hi {
		st.P.AddEq(l.AddK(-lo))
		return
	}
	if lo > setMin {
		st.P.AddGE(l.AddK(-lo))
	}
	if hi < setMax {
		st.P.AddGE(l.Neg().AddK(hi))
	}
}

// asSet turns a comparison over a set-tracked symbol into a membership.
func (x *Interp) asSet(st *State, f *Formula) *RuneSet {
	_, _, sg, c, ok := x.setOf(st, f.L)
	_ = sg
	_ = c
	if !ok {
		return nil
	}
	switch f.Op {
	case fGE:
		return NewSet([2]int64{0, setMax})
	case fEQ:
		return NewSet([2]int64{0, 0})
	case fNE:
		return NewSet([2]int64{0, 0}).Complement()
	}
	return nil
}

// Assume returns the refinements of st in which f holds (st is consumed).
func (x *Interp) Assume(st *State, f *Formula) []*State {
	switch f.Op {
	case fConst:
		if f.B {
			return []*State{st}
		}
		return nil
	case fAnd:
		var out []*State
		for _, s := range x.Assume(st, f.X) {
			out = append(out, x.Assume(s, f.Y)...)
		}
		return out
	case fOr:
		other := st.Clone()
		out := x.Assume(st, f.X)
		for _, s := range x.Assume(other, FNot(f.X)) {
			out = append(out, x.Assume(s, f.Y)...)
		}
		return out
	case fSet:
		if x.addSet(st, f.L, f.Set) && !st.P.bot {
			return []*State{st}
		}
		return nil
	}
	if set := x.asSet(st, f); set != nil {
		if x.addSet(st, f.L, set) && !st.P.bot && !st.P.unsatNear(f.L) {
			return []*State{st}
		}
		return nil
	}
	switch f.Op {
	case fGE:
		if st.P.EntailsGE(f.L.Neg()) {
			return x.Assume(st, FEQ(f.L))
		}
		st.P.AddGE(f.L)
		if st.P.bot || st.P.unsatNear(f.L) || !x.checkSets(st) {
			return nil
		}
		return []*State{st}
	case fEQ:
		old := f.L
		st.P.AddEq(f.L)
		if st.P.bot || st.P.unsatNear(old) || st.P.Unsat() || !x.checkSets(st) {
			return nil
		}
		return []*State{st}
	case fNE:
		if st.P.EntailsGE(f.L) {
			return x.Assume(st, FGE(f.L.AddK(-1)))
		}
		if st.P.EntailsGE(f.L.Neg()) {
			return x.Assume(st, FGE(f.L.Neg().AddK(-1)))
		}
		o := st.Clone()
		a := x.Assume(st, FGE(f.L.AddK(-1)))
		return append(a, x.Assume(o, FGE(f.L.Neg().AddK(-1)))...)
	}
	panic("assume")
}

// checkSets propagates constants and merged symbols into the sets.
func (x *Interp) checkSets(st *State) bool {
	for s := range st.sets {
		r := st.P.Reduce(V(s))
		if c, ok := r.Const(); ok {
			if !st.sets[s].Has(c) {
				return false
			}
			continue
		}
		if len(r.t) == 1 && r.t[0].s != s {
			if u, _, _, _, ok := x.setOf(st, V(s)); ok && u.Empty() {
				return false
			}
		}
	}
	return true
}

// Decide evaluates f in st: 1 true, -1 false, 0 unknown.
func (x *Interp) Decide(st *State, f *Formula) int {
	switch f.Op {
	case fConst:
		if f.B {
			return 1
		}
		return -1
	case fGE:
		if st.P.EntailsGE(f.L) {
			return 1
		}
		if st.P.EntailsGE(f.L.Neg().AddK(-1)) {
			return -1
		}
	case fEQ, fNE:
		s := 1
		if f.Op == fNE {
			s = -1
		}
		if st.P.EntailsEQ(f.L) {
			return s
		}
		if st.P.EntailsNE(f.L) {
			return -s
		}
	case fAnd:
		a, b := x.Decide(st, f.X), x.Decide(st, f.Y)
		if a == -1 || b == -1 {
			return -1
		}
		if a == 1 && b == 1 {
			return 1
		}
		return 0
	case fOr:
		a, b := x.Decide(st, f.X), x.Decide(st, f.Y)
		if a == 1 || b == 1 {
			return 1
		}
		if a == -1 && b == -1 {
			return -1
		}
		return 0
	}
	set := f.Set
	if f.Op != fSet {
		set = x.asSet(st, f)
	}
	if set == nil {
		return 0
	}
	if c, ok := st.P.Reduce(f.L).Const(); ok {
		if set.Has(c) {
			return 1
		}
		return -1
	}
	have, _, sg, c, ok := x.setOf(st, f.L)
	if !ok {
		return 0
	}
	u := set.Shift(-c)
	if sg == -1 {
		u = u.Neg()
	}
	if have.Intersect(u).Empty() {
		return -1
	}
	if have.Minus(u).Empty() {
		return 1
	}
	return 0
}

// ForkBool splits st on f.
func (x *Interp) ForkBool(st *State, f *Formula) (yes, no []*State) {
	switch x.Decide(st, f) {
	case 1:
		return []*State{st}, nil
	case -1:
		return nil, []*State{st}
	}
	o := st.Clone()
	yes = x.Assume(st, f)
	no = x.Assume(o, FNot(f))
	return
}

// Unsupported records a construct the analysis cannot handle.
func (x *Interp) Unsupported(key, detail string) {
	if _, ok := x.Unsup[key]; !ok {
		x.Unsup[key] = detail
	}
}

// Obl records an obligation unless the current pass is not final. A run-time
// panic is reported whatever rules are selected, but for the sizes given to
// make, which some operations bound by properties of the runes they counted.
func (x *Interp) Obl(rule, key, pos string, ok bool, format string, a ...interface{}) {
	if x.mute > 0 || x.Skip[rule] || x.Only != nil && !x.Only[rule] && (rule != x.RulePanic || !x.NoPanics || strings.HasSuffix(key, "|make") && x.MakeHint == nil) {
		return
	}
	d := fmt.Sprintf(format, a...)
	x.Rep.Add(rule, key, pos, ok, d)
}

func (x *Interp) Muted() bool { return x.mute > 0 }

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (st *State) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "P=%s\n", st.P)
	var fs []string
	for f := range st.memo {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		fmt.Fprintf(&b, "  %s:", f)
		for _, e := range st.memo[f] {
			fmt.Fprintf(&b, " (%s)=%s", st.P.Reduce(e.idx), st.P.Reduce(e.v))
		}
		b.WriteString("\n")
	}
	var ss []Sym
	for k := range st.sets {
		ss = append(ss, k)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, k := range ss {
		fmt.Fprintf(&b, "  %s in %d runes\n", V(k), st.sets[k].Count())
	}
	var gs []string
	for g := range st.ghost {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		fmt.Fprintf(&b, "  ghost %s=%s\n", g, showVal(st, st.ghost[g]))
	}
	return b.String()
}

func showVal(st *State, v Val) string {
	switch v := v.(type) {
	case IntV:
		return st.P.Reduce(v.L).String()
	case BoolV:
		return v.F.String()
	case StructV:
		var s []string
		for _, f := range v.F {
			s = append(s, showVal(st, f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case StrV:
		var s []string
		for _, p := range v.P {
			switch p.Kind {
			case pSub:
				s = append(s, fmt.Sprintf("%s[%s:%s]", p.Base.Name, st.P.Reduce(p.Lo), st.P.Reduce(p.Hi)))
			case pLit:
				s = append(s, fmt.Sprintf("%q", p.Lit))
			case pRune:
				s = append(s, "rune "+st.P.Reduce(p.Lo).String())
			default:
				s = append(s, "...["+st.P.Reduce(p.Hi).String()+"]")
			}
		}
		return "str(" + strings.Join(s, "+") + ")"
	case SliceV:
		return fmt.Sprintf("slice#%d[%s:+%s]", v.Obj, st.P.Reduce(v.Off), st.P.Reduce(v.Len))
	case PtrV:
		s := fmt.Sprintf("ptr#%d", v.Obj)
		for _, e := range v.Path {
			if e.IsIdx {
				s += "[" + st.P.Reduce(e.Idx).String() + "]"
			} else {
				s += fmt.Sprintf(".%d", e.Field)
			}
		}
		return s
	case nil:
		return "nil?"
	}
	return fmt.Sprintf("%T%v", v, v)
}
