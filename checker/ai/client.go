package ai

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// Normalizers and pre-tokenizers: what they ask of the strings they are given.
// The strings are opaque; each operation on one is an effect, the effects
// between the start and the end of a call are its trace, and traces are
// compared with what the documentation of each component promises.

const (
	rTable   = "bytes are written with the byte-level alphabet"
	rClass   = "characters are classified as documented"
	rOption  = "every configuration does exactly what its options say"
	rPattern = "texts are cut at the documented delimiters"
	rPass    = "a component that fails says so, and only then"
)

type partial struct {
	del *RuneSet
	to  map[string]*RuneSet // what the runes of a set become; the others stay
}

type pattern struct {
	kind string // set, regexp2, regexp, string
	set  *RuneSet
	of   string
	one  *Lin // the only rune of the pattern
	inv  bool
}

type clientRun struct {
	x        *Interp
	name     string
	pos      string
	rules    []string
	cns, pts OpaqueV
	sets     []*RuneSet
	parts    map[string]*partial
	pats     map[string]*pattern
	texts    map[string]*StrBase
	rep      *Lin // the replacement rune of the configuration
	steps    []clientStep
	script   string // kind of scripts that are understood
	rc       types.Type
	fr, fc   int
	items    Lin
	p        *PTS
}

// clientStep is an expected call of a method of the pre-tokenized string.
type clientStep struct {
	kind  string
	trace func(st *State) []string // acceptable effects
}

func (c *clientRun) fail(st *State, key string, ok bool, format string, a ...interface{}) {
	if st != nil && st.unreachable() {
		return
	}
	if !ok && st != nil && c.x.Trace && !c.x.Muted() {
		dbg("FAILED %s %s: %s\n%s\n", c.name, key, fmt.Sprintf(format, a...), st)
	}
	rules := c.rules
	if strings.Contains(key, "error") || key == "goes on" {
		rules = []string{rPass}
	}
	for _, r := range rules {
		c.x.Obl(r, c.name+"|"+key, c.pos, ok, c.name+": "+format, a...)
	}
}

func (c *clientRun) setID(s *RuneSet) string {
	if s.Count() <= 4 {
		return s.String()
	}
	for i, t := range c.sets {
		if t.Eq(s) {
			return fmt.Sprintf("set%d", i)
		}
	}
	c.sets = append(c.sets, s)
	return fmt.Sprintf("set%d(%d runes)", len(c.sets)-1, s.Count())[:len(fmt.Sprintf("set%d", len(c.sets)-1))]
}

func (c *clientRun) partID(p *partial) string {
	var ks []string
	for k, s := range p.to {
		if !s.Empty() {
			ks = append(ks, k+"<-"+c.setID(s))
		}
	}
	sort.Strings(ks)
	if !p.del.Empty() {
		ks = append(ks, "remove "+c.setID(p.del))
	}
	if len(ks) == 0 {
		return ""
	}
	id := "map[" + strings.Join(ks, ", ") + "]"
	c.parts[id] = p
	return id
}

// then is the trace after another effect.
func (c *clientRun) then(trace, e string) string {
	if e == "" {
		return trace
	}
	if trace == "" {
		return e
	}
	es := strings.Split(trace, ";")
	last := es[len(es)-1]
	if p, q := c.parts[last], c.parts[e]; p != nil && q != nil {
		n := &partial{del: p.del, to: map[string]*RuneSet{}}
		moved := p.del
		for k, s := range p.to {
			var r int64
			if _, err := fmt.Sscanf(k, "'%d'", &r); err != nil {
				return trace + ";" + e
			}
			moved = moved.union(s)
			dest := k
			if q.del.Has(r) {
				n.del = n.del.union(s)
				continue
			}
			for k2, s2 := range q.to {
				if s2.Has(r) {
					dest = k2
				}
			}
			n.add(dest, s)
		}
		n.del = n.del.union(q.del.Minus(moved))
		for k, s := range q.to {
			n.add(k, s.Minus(moved))
		}
		id := c.partID(n)
		es = es[:len(es)-1]
		if id != "" {
			es = append(es, id)
		}
		return strings.Join(es, ";")
	}
	if strings.HasPrefix(last, "trim") && strings.HasPrefix(e, "trim") {
		l := strings.Contains(last+e, "L")
		r := strings.Contains(last+e, "R")
		es[len(es)-1] = trimEffect(l, r)
		return strings.Join(es, ";")
	}
	return trace + ";" + e
}

func (p *partial) add(k string, s *RuneSet) {
	if s.Empty() {
		return
	}
	if o := p.to[k]; o != nil {
		s = o.union(s)
	}
	// a rune that becomes itself stays
	var r int64
	if n, _ := fmt.Sscanf(k, "'%d'", &r); n == 1 {
		s = s.Minus(NewSet([2]int64{r, r}))
	}
	if !s.Empty() {
		p.to[k] = s
	}
}

func trimEffect(l, r bool) string {
	e := "trim"
	if l {
		e += "L"
	}
	if r {
		e += "R"
	}
	if e == "trim" {
		return ""
	}
	return e
}

func (c *clientRun) trace(st *State) string { return st.GV("trace").(OpaqueV).Tag }
func (c *clientRun) effect(st *State, e string) {
	st.SetGV("trace", OpaqueV{Tag: c.then(c.trace(st), e)})
}

// text is the text of the normalized string as it is now.
func (c *clientRun) text(st *State) *StrBase {
	t := c.trace(st)
	b := c.texts[t]
	if b == nil {
		b = c.x.NewBase(st, "text"+fmt.Sprint(len(c.texts)))
		c.texts[t] = b
	} else {
		c.x.declBase(st, b)
		st.P.AddGE(b.N)
		st.P.AddGE(b.R)
	}
	return b
}

// symSet is what is known of a rune.
func (x *Interp) symSet(st *State, l Lin) *RuneSet {
	if v, ok := st.P.Reduce(l).Const(); ok {
		return NewSet([2]int64{v, v})
	}
	s, _, sg, k, ok := x.setOf(st, l)
	if !ok {
		return nil
	}
	if sg == -1 {
		s = s.Neg()
	}
	return s.Shift(k).Intersect(ValidRunes)
}

// runePred finds the runes that a predicate accepts.
func (c *clientRun) runePred(st *State, call *ssa.CallCommon, f Val) (set *RuneSet, one *Lin, ok bool) {
	x := c.x
	s := st.Clone()
	r := x.Fresh("rune")
	x.addSet(s, r, ValidRunes)
	yes, no := &RuneSet{}, &RuneSet{}
	ok = true
	for _, o := range x.Call(s, call, f, []Val{IntV{L: r}}, call.Pos()) {
		if o.Panic {
			continue
		}
		b, isB := o.Ret.(BoolV)
		if !isB {
			return nil, nil, false
		}
		ts, fs := x.ForkBool(o.St, b.F)
		for _, t := range ts {
			if t.unreachable() {
				continue
			}
			if c.rep != nil && x.ProveEQ(t, r.Sub(*c.rep)) {
				one = c.rep
				continue
			}
			u := x.symSet(t, r)
			if u == nil {
				return nil, nil, false
			}
			yes = yes.union(u)
		}
		for _, t := range fs {
			if t.unreachable() {
				continue
			}
			if c.rep != nil && x.ProveNE(t, r.Sub(*c.rep)) {
				continue
			}
			u := x.symSet(t, r)
			if u == nil {
				return nil, nil, false
			}
			no = no.union(u)
		}
	}
	if one != nil {
		return nil, one, yes.Empty() && no.Empty()
	}
	return yes, nil, yes.Intersect(no).Empty() && yes.union(no).Eq(ValidRunes)
}

// runeMap finds what a function makes of each rune.
func (c *clientRun) runeMap(st *State, call *ssa.CallCommon, f Val) (*partial, bool) {
	x := c.x
	s := st.Clone()
	r := x.Fresh("rune")
	x.addSet(s, r, ValidRunes)
	p := &partial{del: &RuneSet{}, to: map[string]*RuneSet{}}
	all := &RuneSet{}
	for _, o := range x.Call(s, call, f, []Val{IntV{L: r}}, call.Pos()) {
		if o.Panic || o.St.unreachable() {
			continue
		}
		v, isI := o.Ret.(IntV)
		u := x.symSet(o.St, r)
		if !isI || u == nil || !all.Intersect(u).Empty() {
			return nil, false
		}
		all = all.union(u)
		if k, isC := o.St.P.Reduce(v.L).Const(); isC {
			p.add(fmt.Sprintf("'%d'", k), u)
			continue
		}
		if x.ProveEQ(o.St, v.L.Sub(r)) {
			continue
		}
		done := false
		for _, m := range []string{"unicode.ToLower", "unicode.ToUpper", "unicode.ToTitle"} {
			if w, ok := x.Find(o.St, "map:"+m, r); ok && x.ProveEQ(o.St, w.Sub(v.L)) {
				p.add(m, u)
				done = true
			}
		}
		if !done {
			return nil, false
		}
	}
	return p, all.Eq(ValidRunes)
}

// content describes a text given to an operation.
func (c *clientRun) content(st *State, v Val) string {
	s, ok := v.(StrV)
	if !ok {
		return "?"
	}
	if t, ok := asLit(s); ok {
		return fmt.Sprintf("%q", t)
	}
	if len(s.P) == 1 && s.P[0].Kind == pRune && c.rep != nil && c.x.ProveEQ(st, s.P[0].Lo.Sub(*c.rep)) {
		return "replacement"
	}
	return "?"
}

// emptyText reports whether a text is certainly empty.
func emptyText(v Val) bool {
	t, ok := asLit(v.(StrV))
	return ok && t == ""
}

func (c *clientRun) patID(p *pattern) string {
	k := p.kind
	switch {
	case p.one != nil:
		k = "rune replacement"
	case p.set != nil:
		k = "runes " + c.setID(p.set)
	default:
		k += " " + p.of
	}
	if p.inv {
		k = "not " + k
	}
	c.pats[k] = p
	return k
}

func (c *clientRun) patVal(p *pattern) Val { return OpaqueV{Tag: "pattern:" + c.patID(p)} }

// patOf describes a pattern given to an operation.
func (c *clientRun) patOf(v Val) string {
	for {
		i, ok := v.(IfaceV)
		if !ok {
			break
		}
		v = i.V
	}
	if o, ok := v.(OpaqueV); ok && strings.HasPrefix(o.Tag, "pattern:") {
		return strings.TrimPrefix(o.Tag, "pattern:")
	}
	return "?"
}

// constInt is the value of a constant of the module.
func (x *Interp) constInt(pkg, name string) int64 {
	o, ok := x.Pkg(pkg).Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic("constant " + pkg + "." + name + " not found")
	}
	v, _ := constant.Int64Val(constant.ToInt(o.Val()))
	return v
}

var behaviours = []string{"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"}

// newClient installs what the components use.
func (x *Interp) newClient(st *State, name string, fn *ssa.Function, rules ...string) *clientRun {
	c := &clientRun{x: x, name: name, pos: x.Prog.Pos(fn.Pos()), rules: rules,
		cns: OpaqueV{Tag: "cns"}, pts: OpaqueV{Tag: "pts"},
		parts: map[string]*partial{}, pats: map[string]*pattern{}, texts: map[string]*StrBase{}}
	c.rc = x.Type(nsPkg, "RuneChange")
	c.fr, c.fc = FieldIdx(c.rc, "Rune"), FieldIdx(c.rc, "Change")
	x.Specs = nil
	st.SetGV("trace", OpaqueV{Tag: ""})
	type method = func(st *State, call *ssa.CallCommon, a []Val) []Outcome
	ns := func(name string, f method) {
		x.Stubs[nsMethod+name] = func(x *Interp, st *State, call *ssa.CallCommon, a []Val) []Outcome {
			if o, ok := a[0].(OpaqueV); !ok || o.Tag != "cns" {
				if ok && o.Tag == "item" && (name == "IsEmpty" || name == "Len" || name == "Get") {
					return one(st, x.Havoc(st, resultType(call.Signature()), name))
				}
				x.Unsupported("receiver of "+name, "an unknown normalized string")
				return one(st, x.Havoc(st, resultType(call.Signature()), name))
			}
			return f(st, call, a)
		}
	}
	// every other method is an unknown effect
	ms := x.Prog.Prog.MethodSets.MethodSet(types.NewPointer(x.Type(nsPkg, "NormalizedString")))
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		ns(n, func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
			c.effect(st, "unknown:"+n)
			return one(st, x.Havoc(st, resultType(call.Signature()), n))
		})
	}
	ns("Get", func(st *State, call *ssa.CallCommon, a []Val) []Outcome { return one(st, c.text(st).Whole()) })
	ns("Len", func(st *State, call *ssa.CallCommon, a []Val) []Outcome { return one(st, IntV{L: c.text(st).N}) })
	ns("IsEmpty", func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
		return one(st, BoolV{FEQ(c.text(st).N)})
	})
	for _, n := range []string{"GetOriginal", "OriginalLen", "OriginalOffsets", "GetRange", "GetOriginalRange", "CoerceRangeToNormalized", "CoerceRangeToOriginal", "OriginalAlignments"} {
		n := n
		ns(n, func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
			return one(st, x.Havoc(st, resultType(call.Signature()), n))
		})
	}
	ns("Filter", func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
		set, _, ok := c.runePred(st, call, a[1])
		if !ok || set == nil {
			c.effect(st, "unknown:Filter")
		} else {
			c.effect(st, c.partID(&partial{del: ValidRunes.Minus(set), to: map[string]*RuneSet{}}))
		}
		return one(st, TupleV{})
	})
	ns("Map", func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
		p, ok := c.runeMap(st, call, a[1])
		switch {
		case !ok:
			c.effect(st, "unknown:Map")
		case len(p.to) == 1 && p.to["unicode.ToLower"] != nil && p.to["unicode.ToLower"].Eq(ValidRunes):
			c.effect(st, "lower")
		case len(p.to) == 1 && p.to["unicode.ToUpper"] != nil && p.to["unicode.ToUpper"].Eq(ValidRunes):
			c.effect(st, "upper")
		default:
			c.effect(st, c.partID(p))
		}
		return one(st, TupleV{})
	})
	plain := func(name, e string) {
		ns(name, func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
			c.effect(st, e)
			return one(st, TupleV{})
		})
	}
	plain("ToLower", "lower")
	plain("ToUpper", "upper")
	plain("Trim", "trimLR")
	plain("TrimLeft", "trimL")
	plain("TrimRight", "trimR")
	ns("TrimLeftRight", func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
		var out []Outcome
		lt, lf := x.ForkBool(st, a[1].(BoolV).F)
		for i, ls := range [][]*State{lt, lf} {
			for _, l := range ls {
				rt, rf := x.ForkBool(l, a[2].(BoolV).F)
				for j, rs := range [][]*State{rt, rf} {
					for _, s := range rs {
						c.effect(s, trimEffect(i == 0, j == 0))
						out = append(out, Outcome{St: s, Ret: TupleV{}})
					}
				}
			}
		}
		return out
	})
	for _, n := range []string{"Prepend", "Append"} {
		n := n
		ns(n, func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
			if !emptyText(a[1]) {
				c.effect(st, strings.ToLower(n)+" "+c.content(st, a[1]))
			}
			return one(st, TupleV{})
		})
	}
	fails := func(st *State, ok Outcome, ret func(e Val) Val) []Outcome {
		bad := st.Clone()
		bad.SetG("failed", K(1))
		return []Outcome{ok, {St: bad, Ret: ret(OpaqueV{Tag: "err:operation"})}}
	}
	ns("Replace", func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
		good := st.Clone()
		c.effect(good, "replace "+c.patOf(a[1])+" by "+c.content(st, a[2]))
		return fails(st, Outcome{St: good, Ret: NilV{}}, func(e Val) Val { return e })
	})
	et := types.NewPointer(x.Type(nsPkg, "NormalizedString"))
	ns("Split", func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
		good := st.Clone()
		how := "?"
		if k, ok := good.P.Reduce(a[2].(IntV).L).Const(); ok {
			for _, b := range behaviours {
				if x.constInt(nsPkg, "SplitDelimiter"+b) == k {
					how = b
				}
			}
		}
		c.effect(good, "split at "+c.patOf(a[1])+" "+how)
		n := x.FreshNat(good, "pieces")
		c.items = n
		good.SetG("pieces", n)
		src := &Source{Name: "pieces", N: n, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
			return []ElemOut{{st, OpaqueV{"item", []Lin{i}}}}
		}}
		id := x.NewObj(good, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: n}}}, Elem: et, Name: "pieces", Shared: true})
		return fails(st, Outcome{St: good, Ret: TupleV{SliceV{id, K(0), n}, NilV{}}}, func(e Val) Val { return TupleV{SliceV{}, e} })
	})
	ns("Transform", func(st *State, call *ssa.CallCommon, a []Val) []Outcome {
		c.effect(st, "script "+c.scriptKind(st, a[1], a[2]))
		return one(st, TupleV{})
	})
	c.patterns()
	if c.script = ""; x.Prog.Pkgs[ptsPkg] != nil {
		c.ptsStubs()
	}
	return c
}

// patterns replaces the constructors of split patterns.
func (c *clientRun) patterns() {
	x := c.x
	mk := func(name string, f func(st *State, call *ssa.CallCommon, a []Val) *pattern) {
		x.Stubs[core.ModPath+"/"+spPkg+"."+name] = func(x *Interp, st *State, call *ssa.CallCommon, a []Val) []Outcome {
			p := f(st, call, a)
			if p == nil {
				return one(st, OpaqueV{Tag: "pattern:?"})
			}
			return one(st, c.patVal(p))
		}
	}
	single := func(st *State, l Lin) *pattern {
		if k, ok := st.P.Reduce(l).Const(); ok {
			return &pattern{kind: "set", set: NewSet([2]int64{k, k})}
		}
		if c.rep != nil && x.ProveEQ(st, l.Sub(*c.rep)) {
			return &pattern{kind: "set", one: c.rep}
		}
		return nil
	}
	mk("FromRune", func(st *State, call *ssa.CallCommon, a []Val) *pattern { return single(st, a[0].(IntV).L) })
	mk("FromFunc", func(st *State, call *ssa.CallCommon, a []Val) *pattern {
		set, one, ok := c.runePred(st, call, a[0])
		if !ok {
			return nil
		}
		return &pattern{kind: "set", set: set, one: one}
	})
	mk("FromString", func(st *State, call *ssa.CallCommon, a []Val) *pattern {
		s := a[0].(StrV)
		if t, ok := asLit(s); ok {
			if rs := []rune(t); len(rs) == 1 {
				return single(st, K(int64(rs[0])))
			}
			return &pattern{kind: "string", of: t}
		}
		if len(s.P) == 1 && s.P[0].Kind == pRune {
			return single(st, s.P[0].Lo)
		}
		return nil
	})
	re := func(kind string) {
		mk("From"+strings.ToUpper(kind[:1])+kind[1:], func(st *State, call *ssa.CallCommon, a []Val) *pattern {
			if o, ok := a[0].(OpaqueV); ok {
				return &pattern{kind: kind, of: o.Tag}
			}
			return nil
		})
	}
	re("regexp2")
	re("regexp")
	mk("Invert", func(st *State, call *ssa.CallCommon, a []Val) *pattern {
		p := c.pats[c.patOf(a[0])]
		if p == nil {
			return nil
		}
		q := *p
		q.inv = !q.inv
		return &q
	})
}

// scriptSpec summarises the scripts of a component.
func (c *clientRun) scriptSpec(kind string) {
	x := c.x
	c.script = kind
	cjk := NewSet([2]int64{0x3400, 0x4dbf}, [2]int64{0x4e00, 0x9fff}, [2]int64{0xf900, 0xfaff}, [2]int64{0x20000, 0x2a6df},
		[2]int64{0x2a700, 0x2b73f}, [2]int64{0x2b740, 0x2b81f}, [2]int64{0x2b820, 0x2ceaf}, [2]int64{0x2f800, 0x2fa1f})
	c.x.Spec(c.rc, &ChainSpec{
		Name:  "script",
		All:   true,
		Index: true,
		Init:  func(x *Interp, st *State) []Val { return []Val{IntV{L: K(0)}, IntV{L: K(0)}} },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			f := v.(StructV).F
			rv, ch := f[c.fr].(IntV).L, f[c.fc].(IntV).L
			b := c.text(st)
			k, ph := r[0].(IntV).L, r[1].(IntV).L
			if kind == "bytes" {
				w, ok := c.byteWrite(st, b, n, rv)
				c.fail(st, "script rune", ok, "rune %s of the script is not the one for byte %s of the text (%s)", st.P.Reduce(n), st.P.Reduce(n), w)
				first, more := x.Prove(st, FEQ(ch)), x.Prove(st, FEQ(ch.AddK(-1)))
				_, atStart := x.IndexAt(st, b, n)
				ok = first && atStart || more && x.insideRune(st, b, n)
				c.fail(st, "script change", ok, "rune %s of the script is not aligned to the rune its byte belongs to (change %s)", st.P.Reduce(n), st.P.Reduce(ch))
				return r
			}
			rk := x.RuneAt(st, b, k)
			p, known := st.P.Reduce(ph).Const()
			if !known {
				c.fail(st, "script", false, "rune %s of the script is at an unknown place of its group", st.P.Reduce(n))
				return r
			}
			ok := false
			nk, np := k, K(0)
			switch x.Decide(st, x.inSet(st, rk, cjk)) {
			case -1:
				ok = p == 0 && x.ProveEQ(st, rv.Sub(rk)) && x.ProveEQ(st, ch)
				nk = k.AddK(1)
			case 1:
				switch p {
				case 0:
					ok = x.ProveEQ(st, rv.AddK(-' ')) && x.ProveEQ(st, ch)
					np = K(1)
				case 1:
					ok = x.ProveEQ(st, rv.Sub(rk)) && x.ProveEQ(st, ch.AddK(-1))
					np = K(2)
				case 2:
					ok = x.ProveEQ(st, rv.AddK(-' ')) && x.ProveEQ(st, ch.AddK(-1))
					nk = k.AddK(1)
				}
			}
			c.fail(st, "script", ok, "rune %s of the script does not follow from rune %s of the text, which has to be %s", st.P.Reduce(n), st.P.Reduce(k), "put between spaces exactly when it is a Chinese character")
			return []Val{IntV{L: nk}, IntV{L: np}}
		},
	})
	_ = x
}

// insideRune reports whether byte n is certainly not the first of a rune.
func (x *Interp) insideRune(st *State, b *StrBase, n Lin) bool {
	k, ok := x.inRune(st, b, n)
	if !ok {
		return false
	}
	return x.ProveGE(st, n.Sub(x.App(st, b.posFam(), k)).AddK(-1)) && x.ProveGE(st, x.App(st, b.posFam(), k.AddK(1)).Sub(n).AddK(-1))
}

// byteWrite checks that rv is what is written for byte n of b.
func (c *clientRun) byteWrite(st *State, b *StrBase, n, rv Lin) (string, bool) {
	x := c.x
	outs := x.readByte(st.Clone(), b, n)
	ok := len(outs) > 0
	why := ""
	for _, e := range outs {
		if e.St.unreachable() {
			continue
		}
		w := x.App(e.St, "b2r", e.V.(IntV).L)
		if !x.ProveEQ(e.St, w.Sub(rv)) {
			ok = false
			why = fmt.Sprintf("byte %s, written as %s", showVal(e.St, e.V), e.St.P.Reduce(rv))
		}
	}
	return why, ok
}

// scriptKind checks the script given to Transform.
func (c *clientRun) scriptKind(st *State, script, removed Val) string {
	x := c.x
	if c.script == "" {
		return "?"
	}
	if !x.ProveEQ(st, removed.(IntV).L) {
		return "after removed runes"
	}
	b := c.text(st)
	sl, ok := script.(SliceV)
	if !ok {
		return "?"
	}
	if x.ProveEQ(st, sl.Len) {
		if x.ProveEQ(st, b.N) {
			return c.script
		}
		return "of nothing"
	}
	ch := x.ChainOf(st, sl, c.rc)
	if ch == nil {
		return "of unknown content"
	}
	if c.script == "bytes" {
		if !x.ProveEQ(st, ch.N.Sub(b.N)) {
			return "of another length"
		}
	} else if !x.ProveEQ(st, ch.R[0].(IntV).L.Sub(b.R)) || !x.ProveEQ(st, ch.R[1].(IntV).L) {
		return "of another length"
	}
	return c.script
}

// ptsStubs replaces the methods of the pre-tokenized string: each runs its
// callback once, for an arbitrary split.
func (c *clientRun) ptsStubs() {
	x := c.x
	c.p = &PTS{}
	c.p.ST = x.Type(ptsPkg, "Split")
	c.p.sn, c.p.st = FieldIdx(c.p.ST, "NormalizedString"), FieldIdx(c.p.ST, "Tokens")
	x.Spec(c.p.ST, &ChainSpec{
		Name: "pieces",
		Init: func(x *Interp, st *State) []Val { return nil },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			f, ok := v.(StructV)
			if ok {
				o, isO := f.F[c.p.sn].(OpaqueV)
				_, isNil := f.F[c.p.st].(NilV)
				if s, isS := f.F[c.p.st].(SliceV); isS {
					isNil = s.Obj == 0
				}
				ok = isO && o.Tag == "item" && isNil && x.ProveEQ(st, o.Idx[0].Sub(n))
			}
			c.fail(st, "pieces", ok, "split %s of the result is not piece %s without tokens", st.P.Reduce(n), st.P.Reduce(n))
			return nil
		},
	})
	for _, kind := range []string{"Split", "Normalize"} {
		kind := kind
		x.Stubs["(*"+core.ModPath+"/"+ptsPkg+".PreTokenizedString)."+kind] = func(x *Interp, st *State, call *ssa.CallCommon, a []Val) []Outcome {
			return c.ptsCall(st, call, kind, a)
		}
	}
}

func (c *clientRun) ptsCall(st *State, call *ssa.CallCommon, kind string, a []Val) []Outcome {
	x := c.x
	if o, ok := a[0].(OpaqueV); !ok || o.Tag != "pts" {
		x.Unsupported("receiver of "+kind, "an unknown pre-tokenized string")
		return one(st, NilV{})
	}
	k64, _ := st.P.Reduce(st.G("step")).Const()
	k := int(k64)
	if st.HasG("failed") {
		c.fail(st, "goes on", false, "it goes on after an error")
		return nil
	}
	if k >= len(c.steps) || c.steps[k].kind != kind {
		c.fail(st, fmt.Sprintf("step %d", k), false, "operation %d on the pre-tokenized string should not be %s", k, kind)
		return one(st, NilV{})
	}
	run := st.Clone()
	run.SetGV("trace", OpaqueV{Tag: ""})
	args := []Val{c.cns}
	if kind == "Split" {
		args = []Val{IntV{L: x.FreshNat(run, "index")}, c.cns}
	}
	before := map[ObjID]*Obj{}
	for id, o := range run.heap {
		before[id] = o
	}
	var out []Outcome
	good := 0
	for _, o := range x.Call(run, call, a[1], args, call.Pos()) {
		s := o.St
		if o.Panic || s.unreachable() {
			continue
		}
		for id, old := range before {
			if now := s.heap[id]; now != old && now != nil && fmt.Sprint(now.V, now.Seq, now.Bad) != fmt.Sprint(old.V, old.Seq, old.Bad) {
				x.Unsupported("state of a callback in "+c.name, "what is done for a split changes "+now.Name+", which may change what is done for later ones")
			}
		}
		var e, res Val = o.Ret, nil
		if kind == "Split" {
			t := o.Ret.(TupleV)
			res, e = t[0], t[1]
		}
		_, isNil := e.(NilV)
		if s.HasG("failed") {
			c.fail(s, "error|"+kind, !isNil, "an error of an operation is dropped")
			s.SetGV("trace", OpaqueV{Tag: ""})
			out = append(out, Outcome{St: s, Ret: e})
			continue
		}
		c.fail(s, "no error|"+kind, isNil, "%s fails although no operation fails", kind)
		c.expect(s, fmt.Sprintf("step %d", k), c.steps[k].trace(s))
		if kind == "Split" {
			c.allPieces(s, res)
		}
		good++
		s.SetGV("trace", OpaqueV{Tag: ""})
		s.SetG("step", K(int64(k+1)))
		delete(s.ghost, "pieces")
		out = append(out, Outcome{St: s, Ret: NilV{}})
	}
	c.fail(nil, "succeeds|"+kind, good > 0, "%s never succeeds", kind)
	// one state for success, one for failure
	var res []Outcome
	seen := map[string]bool{}
	for _, o := range out {
		key := fmt.Sprint(o.St.HasG("failed"))
		if seen[key] {
			continue
		}
		seen[key] = true
		s := st.Clone()
		ret := o.Ret
		if o.St.HasG("failed") {
			s.SetG("failed", K(1))
			ret = OpaqueV{Tag: "err:operation"}
		}
		s.SetG("step", K(int64(k+1)))
		res = append(res, Outcome{St: s, Ret: ret})
	}
	return res
}

// expect checks the trace of a state.
func (c *clientRun) expect(st *State, key string, want []string) {
	got := c.trace(st)
	ok := false
	for _, w := range want {
		ok = ok || w == got
	}
	c.fail(st, key, ok, "on some input it does [%s] instead of [%s]", clip(got), clip(strings.Join(want, "] or [")))
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// allPieces checks that a callback returns all pieces.
func (c *clientRun) allPieces(st *State, v Val) {
	x := c.x
	if !st.HasG("pieces") {
		c.fail(st, "all pieces", false, "the text is never cut")
		return
	}
	n := st.G("pieces")
	sl, ok := v.(SliceV)
	if _, isNil := v.(NilV); isNil {
		sl, ok = SliceV{}, true
	}
	if ok && !x.ProveEQ(st, n) {
		ok = x.ProveEQ(st, sl.Len.Sub(n)) && x.ChainOf(st, sl, c.p.ST) != nil
	} else if ok {
		ok = x.ProveEQ(st, sl.Len)
	}
	c.fail(st, "all pieces", ok, "not every piece becomes a split")
}

// build runs a constructor.
func (c *clientRun) build(st *State, fn *ssa.Function, args ...Val) (*State, Val) {
	outs := c.x.Run(st, fn, args...)
	if len(outs) != 1 || outs[0].Panic {
		c.fail(nil, "constructor", false, "%s has %d outcomes", fn.Name(), len(outs))
		return nil, nil
	}
	return outs[0].St, outs[0].Ret
}

// normalize checks Normalize of a normalizer; want gives the effects.
func (c *clientRun) normalize(st *State, recv Val, fn *ssa.Function, want string) {
	n := 0
	for _, o := range c.x.Run(st, fn, recv, c.cns) {
		if o.Panic || o.St.unreachable() {
			continue
		}
		n++
		_, isNil := o.Ret.(NilV)
		if o.St.HasG("failed") {
			c.fail(o.St, "error", !isNil, "an error of an operation is dropped")
			continue
		}
		c.fail(o.St, "no error", isNil, "it fails although no operation fails")
		c.expect(o.St, "effects", []string{want})
	}
	c.fail(nil, "returns", n > 0, "it never returns")
}

// pretokenize checks PreTokenize.
func (c *clientRun) pretokenize(st *State, recv Val, fn *ssa.Function, steps ...clientStep) {
	c.steps = steps
	st.SetG("step", K(0))
	n := 0
	for _, o := range c.x.Run(st, fn, recv, c.pts) {
		s := o.St
		if o.Panic || s.unreachable() {
			continue
		}
		_, isNil := o.Ret.(NilV)
		if s.HasG("failed") {
			c.fail(s, "error", !isNil, "an error of an operation is dropped")
			continue
		}
		n++
		c.fail(s, "no error", isNil, "it fails although no operation fails")
		k, _ := s.P.Reduce(s.G("step")).Const()
		c.fail(s, "all steps", int(k) == len(steps), "it does %d of %d operations", k, len(steps))
	}
	c.fail(nil, "returns", n > 0, "it never succeeds")
}
