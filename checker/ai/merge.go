package ai

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// The merges of a word.
//
// The word starts with N symbols with the ids iid(i), in a row. First every
// pair of neighbours is to be asked for, in order (mq comes next), and those
// listed become candidates. Then, at the start of every iteration, the word
// is arbitrary but for the links: a symbol that is not empty has neighbours
// that are not empty and link back. A candidate (rank, id, p) is taken; n is
// the symbol behind p, nn the one behind that, pp the one before p. What the
// iteration did is compared with what it has to do when the next one starts.
// Dropped candidates wait in a list sk of nskip elements; re is the one that
// is put back next.

const (
	rMerge   = "a candidate merges the pair the table lists, and nothing else"
	rCands   = "every listed pair of neighbours is a candidate"
	rHeap    = "the lowest rank comes first, and the leftmost among equals"
	rDropout = "a candidate is dropped exactly when a draw is below the dropout"
	rRemain  = "what remains are the symbols that are not empty, in order"
	rSymAdd  = "an added symbol is linked behind the last one"
)

type merging struct {
	x        *Interp
	n        Lin
	wt, mt   types.Type // WordMerge, MergeValue
	cells    ObjID
	word     PtrV
	queue    ObjID
	pos      string
	cur      string
	f        map[string][]int
	iter     int
	csyms    ObjID
	fromSeed bool
}

// CheckC14 decides the merges, CheckC30 the dropout.
func CheckC14(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	x.Skip = map[string]bool{rDropout: true}
	x.merging()
	x.Close("merges")
	r.Min[rMerge], r.Min[rCands], r.Min[rHeap], r.Min[rRemain], r.Min[rSymAdd] = 5, 2, 4, 1, 3
}

func CheckC30(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	x.Only = map[string]bool{rDropout: true}
	x.mergeAll(x.InitGlobals(NewState(), bpePkg))
	x.Close("merges")
	r.Min[rDropout] = 3
}

func (x *Interp) merging() {
	base := x.InitGlobals(NewState(), bpePkg)
	c := os.Getenv("GTCASE")
	if c == "" || c == "heap" {
		x.mergeHeap(base.Clone())
	}
	if c == "" || c == "add" {
		x.wordAdd(base.Clone())
	}
	if c == "" || c == "MergeAll" {
		x.mergeAll(base.Clone())
	}
}

func (x *Interp) mergeAll(st *State) {
	m := &merging{x: x, wt: x.Type(bpePkg, "WordMerge")}
	m.n = x.FreshNat(st, "symbols")
	st.SetG("@n", m.n)
	for _, f := range []string{"iid", "ilen", "mrank", "mid", "sk.rank", "sk.id", "sk.pos"} {
		x.Decl(&Fam{Name: f})
	}
	for _, f := range []string{"c.ID", "c.Prev", "c.Next"} {
		x.Decl(&Fam{Name: f, Keep: true})
	}
	x.Decl(&Fam{Name: "c.Length", Keep: true, OnNew: func(x *Interp, st *State, i, v Lin) { st.P.AddGE(v) }})
	x.Decl(&Fam{Name: "live", Lo: I64(0), Hi: I64(1), N: &m.n, V0: L(K(0)), Keep: true})
	isyms := x.symbols(st, "isym", m.n, func(st *State, f string, i Lin) Val {
		switch f {
		case "ID":
			return IntV{L: x.App(st, "iid", i)}
		case "Length":
			return IntV{L: x.App(st, "ilen", i)}
		case "Prev":
			return IntV{L: i.AddK(-1)}
		}
		v := x.Fresh("next")
		return IntV{L: v}
	})
	m.csyms = x.symbols(st, "csym", m.n, func(st *State, f string, i Lin) Val {
		m.know(st)
		return IntV{L: x.App(st, "c."+f, i)}
	})
	fn := x.Method(bpePkg, "Word", "MergeAll")
	m.pos = x.Prog.Pos(fn.Pos())
	wordT := x.Type(bpePkg, "Word")
	m.word = PtrV{Obj: x.NewObj(st, &Obj{V: SliceV{isyms, K(0), m.n}, Elem: wordT, Name: "word"})}
	x.Stubs["(*"+bpePath+"MergeMap).Get"] = m.get
	x.Stubs["container/heap.Push"] = m.push
	x.Stubs["container/heap.Pop"] = m.pop
	x.Stubs["math/rand.Float64"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		if !st.HasG("T.pos") || st.HasG("drawn") {
			x.Obl(rDropout, "draws", m.pos, false, "a number is drawn before a candidate is taken, or twice for one")
		}
		st.SetG("drawn", K(1))
		return one(st, FloatV{"draw"})
	}
	left := func(st *State, v Val) []Outcome {
		var out []Outcome
		for _, s := range m.sync(st) {
			out = append(out, Outcome{St: s, Ret: IntV{L: x.FreshNat(s, "queue")}})
		}
		return out
	}
	x.Stubs["(*"+bpePath+"WordMergeHeap).Len"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return left(st, a[0]) }
	x.LenOf = map[string]func(*State, Val) []Outcome{types.TypeString(x.Type(bpePkg, "WordMergeHeap"), nil): left}
	defer func() { x.LenOf = nil }()
	x.Spec(m.wt, &ChainSpec{
		Name:  "candidates",
		All:   true,
		Init:  func(x *Interp, st *State) []Val { return nil },
		Check: func(x *Interp, st *State, n Lin, v Val) { m.skipped(st, n, v) },
		Push:  func(x *Interp, st *State, r []Val, n Lin, v Val) []Val { return nil },
		Elem: func(x *Interp, st *State, r []Val, n, i Lin) []ElemOut {
			return []ElemOut{{st, m.entry(x.App(st, "sk.rank", i), x.App(st, "sk.id", i), x.App(st, "sk.pos", i), st)}}
		},
	})
	defer x.Spec(m.wt, nil)
	symT := types.NewPointer(x.Type(bpePkg, "WordSymbol"))
	live := func(st *State, k Lin) bool {
		return x.ProveEQ(st, x.App(st, "live", k.AddK(1)).Sub(x.App(st, "live", k)).AddK(-1))
	}
	x.Spec(symT, &ChainSpec{
		Name: "symbols that remain",
		All:  true,
		Init: func(x *Interp, st *State) []Val { return []Val{IntV{L: K(0)}} },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			m.link(st)
			o, ok := v.(OpaqueV)
			if !ok || o.Tag != "csym" || !x.ProveEQ(st, n.Sub(r[0].(IntV).L)) || !x.ProveEQ(st, x.App(st, "live", o.Idx[0]).Sub(n)) || !live(st, o.Idx[0]) {
				return []Val{IntV{L: K(-1)}}
			}
			return []Val{IntV{L: n.AddK(1)}}
		},
		PushSrc: func(x *Interp, st *State, r []Val, n Lin, s Seg) ([]Val, bool) {
			if s.Kind != sSrc || s.Src.Name != "csym" {
				return nil, false
			}
			m.link(st)
			a, b := x.App(st, "live", s.Lo), x.App(st, "live", s.Hi)
			if x.ProveEQ(st, n.Sub(r[0].(IntV).L)) && x.ProveEQ(st, a.Sub(n)) && x.ProveEQ(st, b.Sub(a).Sub(s.Len())) {
				return []Val{IntV{L: n.Add(s.Len())}}, true
			}
			return nil, false
		},
		SplitSrc: func(x *Interp, st *State, n Lin, s Seg) (Lin, bool) {
			if s.Src.Name != "csym" {
				return Lin{}, false
			}
			a := x.App(st, "live", s.Lo)
			best, ok := Lin{}, false
			for _, e := range append([]memoEnt(nil), st.memo["live"]...) {
				if x.ProveGE(st, e.idx.Sub(s.Lo)) && x.ProveGE(st, s.Hi.Sub(e.idx)) && x.ProveEQ(st, e.v.Sub(a).Sub(e.idx).Add(s.Lo)) && (!ok || x.ProveGE(st, e.idx.Sub(best))) {
					best, ok = e.idx, true
				}
			}
			return best, ok
		},
	})
	defer x.Spec(symT, nil)
	m.start(st)
	// the iteration is over
	x.Back = func(st *State, depth int) []*State {
		if st.HasG("T.depth") && st.G("T.depth").IsK(int64(depth)) {
			return m.sync(st)
		}
		if m.phase(st) == "merge" && !st.HasG("T.pos") {
			m.link(st)
			m.forget(st)
		}
		return []*State{st}
	}
	x.Drains = func(pairs []termPair) bool {
		for _, p := range pairs {
			d := p.back
			if !d.HasG("T.depth") || !d.G("T.depth").IsK(int64(len(x.loops)+1)) || !m.drains(p) {
				return false
			}
		}
		return len(pairs) > 0
	}
	defer func() { x.Back, x.Drains = nil, nil }()
	st.Ambient()
	ret := 0
	for _, o := range x.Run(st, fn, m.word, OpaqueV{Tag: "merges"}, FloatV{"dropout"}) {
		if o.Panic || o.St.unreachable() {
			continue
		}
		s := o.St
		ret++
		m.link(s)
		m.forget(s)
		x.Obl(rCands, "candidates", m.pos, m.phase(s) == "merge", "the word is never merged")
		x.Obl(rMerge, "all", m.pos, !s.HasG("T.pos"), "it ends before a candidate is dealt with")
		es := x.load(s, m.word, wordT, 0)
		for _, e := range es {
			v, ok := e.V.(SliceV)
			var c *Chain
			if ok {
				c = x.ChainOf(e.St, v, symT)
			}
			if ok && c == nil {
				ok = x.ProveEQ(e.St, v.Len) && x.ProveEQ(e.St, x.App(e.St, "live", m.n))
			} else if ok {
				r := c.R[0].(IntV).L
				ok = x.ProveEQ(e.St, r.Sub(c.N)) && x.ProveEQ(e.St, c.N.Sub(x.App(e.St, "live", m.n)))
			}
			if !e.St.unreachable() {
				x.Obl(rRemain, "word", m.pos, ok, "the word that remains is not all its symbols that are not empty")
			}
		}
	}
	x.Obl(rMerge, "returns", m.pos, ret > 0, "it never returns")
}

func (m *merging) phase(st *State) string { return st.GV("phase").(OpaqueV).Tag }

func (m *merging) start(st *State) {
	st.SetGV("phase", OpaqueV{Tag: "start"})
	st.SetG("mq", K(0))
	st.SetG("nskip", K(0))
	st.SetG("re", K(0))
}

func (m *merging) entry(rank, id, pos Lin, st *State) Val {
	return m.x.mkStruct(st, m.wt, map[string]Val{"Rank": IntV{L: rank}, "ID": IntV{L: id}, "Pos": IntV{L: pos}})
}

func (m *merging) parts(v Val) (rank, id, pos Lin, ok bool) {
	g := func(n string) Lin {
		i, isI := getPath(v, fieldPath(m.wt, n)).(IntV)
		ok = ok && isI
		return i.L
	}
	ok = true
	rank = g("Rank")
	id = g("ID")
	pos = g("Pos")
	return
}

// is reports whether v is the candidate given.
func (m *merging) is(st *State, v Val, rank, id, pos Lin) bool {
	r, i, p, ok := m.parts(v)
	return ok && m.x.ProveEQ(st, r.Sub(rank)) && m.x.ProveEQ(st, i.Sub(id)) && m.x.ProveEQ(st, p.Sub(pos))
}

// get is MergeMap.Get.
func (m *merging) get(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
	mt := x.Type(bpePkg, "MergeValue")
	val := func(rank, id Lin) Val {
		return x.mkStruct(st, mt, map[string]Val{"Rank": IntV{L: rank}, "ID": IntV{L: id}})
	}
	t, ok := a[0].(OpaqueV)
	l, ok1 := a[1].(IntV)
	r, ok2 := a[2].(IntV)
	if !ok || t.Tag != "merges" || !ok1 || !ok2 {
		x.Obl(rMerge, "table", m.pos, false, "something else than the given table is asked")
		return one(st, x.Havoc(st, resultType(c.Signature()), "merge"))
	}
	var out []Outcome
	if m.phase(st) == "start" {
		q := st.G("mq")
		ok := x.ProveGE(st, m.n.Sub(q).AddK(-2)) && x.ProveEQ(st, l.L.Sub(x.App(st, "iid", q))) && x.ProveEQ(st, r.L.Sub(x.App(st, "iid", q.AddK(1))))
		if st.unreachable() {
			return nil
		}
		x.Obl(rCands, "pair", m.pos, ok, "the pair looked up is not that of the symbols %s and the next", st.P.Reduce(q))
		x.Obl(rCands, "listed", m.pos, !st.HasG("pend"), "a listed pair does not become a candidate")
		no := st.Clone()
		st.SetG("pend", q)
		st.SetG("mq", q.AddK(1))
		no.SetG("mq", q.AddK(1))
		delete(st.ghost, "pendx")
		out = append(out, Outcome{St: st, Ret: TupleV{val(x.App(st, "mrank", q), x.App(st, "mid", q)), BConst(true)}})
		out = append(out, Outcome{St: no, Ret: TupleV{x.zero(mt), BConst(false)}})
		return out
	}
	kind := ""
	if st.HasG("T.pos") && st.HasG("n") {
		p, n := st.G("T.pos"), st.G("n")
		id := st.G("T.id")
		is := func(l, k Lin) bool { return x.ProveEQ(st, l.Sub(k)) }
		cid := func(k Lin) Lin { return x.App(st, "c.ID", k) }
		switch {
		case is(l.L, cid(p)) && is(r.L, cid(n)):
			kind = "E"
		case st.HasG("pp") && is(l.L, cid(st.G("pp"))) && is(r.L, id):
			kind = "L"
		case st.HasG("nn") && is(l.L, id) && is(r.L, cid(st.G("nn"))):
			kind = "R"
		}
	}
	if st.unreachable() {
		return nil
	}
	x.Obl(rMerge, "pair", m.pos, kind != "" && !st.HasG(kind), "a pair is looked up that is not the one of the candidate and its neighbour, or of the merged symbol and its neighbours")
	if kind == "" || st.HasG(kind) {
		return one(st, x.Havoc(st, resultType(c.Signature()), "merge"))
	}
	no := st.Clone()
	st.SetG(kind, K(1))
	rank, id := x.Fresh("rank"), x.Fresh("id")
	st.SetG(kind+".rank", rank)
	st.SetG(kind+".id", id)
	no.SetG(kind, K(0))
	out = append(out, Outcome{St: st, Ret: TupleV{val(rank, id), BConst(true)}})
	return append(out, Outcome{St: no, Ret: TupleV{x.zero(mt), BConst(false)}})
}

func (m *merging) isQueue(v Val) bool {
	i, ok := v.(IfaceV)
	if !ok {
		return false
	}
	_, ok = i.V.(PtrV)
	return ok
}

// push is heap.Push.
func (m *merging) push(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
	i, ok := a[1].(IfaceV)
	ok = ok && m.isQueue(a[0])
	if !ok {
		x.Obl(rMerge, "push", m.pos, false, "an unknown candidate is added")
		st.SetG("stray", K(1))
		return one(st, TupleV{})
	}
	if m.phase(st) == "start" {
		ok := st.HasG("pend")
		if ok {
			q := st.G("pend")
			ok = m.is(st, i.V, x.App(st, "mrank", q), x.App(st, "mid", q), q)
		}
		if st.unreachable() {
			return nil
		}
		x.Obl(rCands, "candidate", m.pos, ok, "the candidate added is not the pair just found with its rank, its symbol and its place")
		delete(st.ghost, "pend")
		return one(st, TupleV{})
	}
	if st.HasG("T.pos") {
		re := st.G("re")
		if x.ProveGE(st, st.G("nskip").Sub(re).AddK(-1)) && m.is(st, i.V, x.App(st, "sk.rank", re), x.App(st, "sk.id", re), x.App(st, "sk.pos", re)) {
			st.SetG("re", re.AddK(1))
			return one(st, TupleV{})
		}
		for _, k := range [][2]string{{"L", "pp"}, {"R", "T.pos"}} {
			if st.HasG(k[0]) && st.G(k[0]).IsK(1) && !st.HasG("+"+k[0]) && m.is(st, i.V, st.G(k[0]+".rank"), st.G(k[0]+".id"), st.G(k[1])) {
				st.SetG("+"+k[0], K(1))
				return one(st, TupleV{})
			}
		}
	}
	if st.unreachable() {
		return nil
	}
	st.SetG("stray", K(1))
	x.Obl(rMerge, "push", m.pos, false, "a candidate is added that is neither a new pair of the merged symbol nor one that was dropped before")
	return one(st, TupleV{})
}

// skipped is called when the candidate v is added to a list.
func (m *merging) skipped(st *State, n Lin, v Val) {
	x := m.x
	ok := m.phase(st) == "merge" && st.HasG("T.pos") && !st.HasG("skip")
	ok = ok && m.is(st, v, st.G("T.rank"), st.G("T.id"), st.G("T.pos")) && x.ProveEQ(st, n.Sub(st.G("nskip")))
	if st.unreachable() {
		return
	}
	x.Obl(rDropout, "list", m.pos, ok, "a candidate is put aside that is not the one just taken")
	st.SetG("skip", K(1))
	if ok {
		k := st.G("nskip")
		x.Bind(st, "sk.rank", k, st.G("T.rank"))
		x.Bind(st, "sk.id", k, st.G("T.id"))
		x.Bind(st, "sk.pos", k, st.G("T.pos"))
	}
}

// pop is heap.Pop.
func (m *merging) pop(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
	x.Obl(rMerge, "queue", m.pos, m.isQueue(a[0]), "a candidate is taken from something unknown")
	var out []Outcome
	for _, s := range m.sync(st) {
		s.dropFacts("?draw<dropout", "?dropout<draw")
		rank, id, p := x.Fresh("rank"), x.Fresh("id"), x.FreshNat(s, "p")
		s.P.AddGE(m.n.Sub(p).AddK(-1))
		s.SetG("T.rank", rank)
		s.SetG("T.id", id)
		s.SetG("T.pos", p)
		s.SetG("T.depth", K(int64(len(x.loops))))
		ret := IfaceV{m.wt, m.entry(rank, id, p, s)}
		// the empty symbol
		d := s.Clone()
		d.SetG("empty", K(1))
		m.know(d)
		out = append(out, Outcome{St: d, Ret: ret})
		behind := func(s *State, g string, i Lin) Lin {
			n := x.Fresh(g)
			s.P.AddGE(n.Sub(i).AddK(-1))
			s.P.AddGE(m.n.Sub(n).AddK(-1))
			s.SetG(g, n)
			return n
		}
		for c := 0; c < 6; c++ {
			s := s.Clone()
			if c&1 == 1 {
				pp := x.FreshNat(s, "pp")
				s.P.AddGE(p.Sub(pp).AddK(-1))
				s.SetG("pp", pp)
			}
			i := p
			if c/2 >= 1 {
				i = behind(s, "n", i)
			}
			if c/2 >= 2 {
				behind(s, "nn", i)
			}
			m.know(s)
			out = append(out, Outcome{St: s, Ret: ret})
		}
	}
	return out
}

// link ties the number of symbols that remain to their lengths: as long as no
// candidate is dealt with they do not change.
func (m *merging) link(st *State) {
	x := m.x
	if m.phase(st) != "merge" || st.HasG("T.pos") {
		return
	}
	for _, e := range append([]memoEnt(nil), st.memo["c.Length"]...) {
		k := int64(0)
		if x.ProveGE(st, e.v.AddK(-1)) {
			k = 1
		} else if !x.ProveEQ(st, e.v) {
			continue
		}
		st.P.AddEq(x.App(st, "live", e.idx.AddK(1)).Sub(x.App(st, "live", e.idx)).AddK(-k))
	}
}

// forget forgets the symbols looked at: they are not changed any more.
func (m *merging) forget(st *State) {
	x := m.x
	t := x.Type(bpePkg, "WordSymbol")
	for _, e := range st.mats["csym"] {
		for _, f := range []string{"ID", "Length", "Prev", "Next"} {
			v, isI := getPath(st.heap[e.obj].V, fieldPath(t, f)).(IntV)
			if !isI || !x.ProveEQ(st, v.L.Sub(x.App(st, "c."+f, e.idx))) {
				x.Obl(rMerge, "other", m.pos, st.unreachable(), "a symbol changes although no candidate is dealt with")
			}
		}
	}
	delete(st.mats, "csym")
	st.dropFacts("c.ID", "c.Length", "c.Prev", "c.Next")
}

// know binds what is known about the symbols around the candidate.
func (m *merging) know(st *State) {
	x := m.x
	if !st.HasG("T.pos") {
		return
	}
	bind := func(f string, i Lin, v func() Lin) {
		for _, e := range st.memo["c."+f] {
			if st.P.Reduce(e.idx.Sub(i)).IsK(0) {
				return
			}
		}
		x.Bind(st, "c."+f, i, v())
	}
	is := func(l Lin) func() Lin { return func() Lin { return l } }
	next := func() Lin {
		z := x.Fresh("next")
		st.P.AddGE(z.AddK(1))
		st.P.AddGE(m.n.Sub(z).AddK(-1))
		return z
	}
	length := func() Lin {
		n := x.Fresh("length")
		st.P.AddGE(n.AddK(-1))
		return n
	}
	p := st.G("T.pos")
	if st.HasG("empty") {
		bind("Length", p, is(K(0)))
		bind("Next", p, next)
		return
	}
	bind("Length", p, length)
	if st.HasG("pp") {
		pp := st.G("pp")
		bind("Length", pp, length)
		bind("Next", pp, is(p))
		bind("Prev", p, is(pp))
	} else {
		bind("Prev", p, is(K(-1)))
	}
	i := p
	for _, g := range []string{"n", "nn"} {
		if !st.HasG(g) {
			bind("Next", i, is(K(-1)))
			return
		}
		n := st.G(g)
		bind("Length", n, length)
		bind("Next", i, is(n))
		bind("Prev", n, is(i))
		i = n
	}
	bind("Next", i, next)
}

func (st *State) dropFacts(names ...string) {
	for _, n := range names {
		delete(st.memo, n)
	}
}

// sync ends an iteration, or the start, and makes the word arbitrary.
func (m *merging) sync(st *State) []*State {
	x := m.x
	if m.phase(st) == "start" {
		q := st.G("mq")
		// no pair is left
		ok := x.ProveGE(st, q.Sub(m.n).AddK(1))
		if st.unreachable() {
			return nil
		}
		x.Obl(rCands, "all", m.pos, ok, "the pair of symbol %s and the next is not looked up", st.P.Reduce(q))
		x.Obl(rCands, "listed", m.pos, !st.HasG("pend"), "a listed pair does not become a candidate")
		delete(st.ghost, "pend")
		st.SetGV("phase", OpaqueV{Tag: "merge"})
		st.SetG("mq", K(0))
		return m.reset(st)
	}
	if !st.HasG("T.pos") {
		return []*State{st}
	}
	// dropped?
	var out []*State
	on, off := x.ForkBool(st, x.fact(st, "0<dropout"))
	for _, s := range off {
		out = append(out, m.finish(s)...)
	}
	for _, s := range on {
		if !s.HasG("drawn") {
			x.Obl(rDropout, "drawn", m.pos, false, "no number is drawn for a candidate although there is dropout")
			continue
		}
		yes, no := x.ForkBool(s, x.fact(s, "draw<dropout"))
		for _, s := range no {
			out = append(out, m.finish(s)...)
		}
		for _, s := range yes {
			x.Obl(rDropout, "dropped", m.pos, s.HasG("skip") && s.G("re").IsK(0), "a candidate is not put aside although the draw is below the dropout, or others are put back with it")
			m.same(s, "a dropped candidate")
			s.SetG("nskip", s.G("nskip").AddK(1))
			out = append(out, m.reset(s)...)
		}
	}
	return out
}

// reset makes the word arbitrary.
func (m *merging) reset(st *State) []*State {
	x := m.x
	for _, g := range []string{"T.depth", "empty", "T.rank", "T.id", "T.pos", "drawn", "skip", "n", "nn", "pp", "E", "E.rank", "E.id", "L", "L.rank", "L.id", "+L", "R", "R.rank", "R.id", "+R"} {
		delete(st.ghost, g)
	}
	st.dropFacts("c.ID", "c.Length", "c.Prev", "c.Next")
	delete(st.mats, "csym")
	delete(st.mats, "isym")
	return x.store(st, m.word, SliceV{m.csyms, K(0), m.n}, 0)
}

// same: no symbol changed and no candidate was added.
func (m *merging) same(st *State, what string) {
	m.effects(st, map[string]map[string]Lin{}, what)
	m.x.Obl(rMerge, "no candidates", m.pos, !st.HasG("+L") && !st.HasG("+R"), "new candidates are added for %s", what)
}

// effects compares the symbols of the word with what is expected of those at
// the places named by ghosts.
func (m *merging) effects(st *State, want map[string]map[string]Lin, what string) {
	x := m.x
	m.know(st)
	t := x.Type(bpePkg, "WordSymbol")
	for _, g := range []string{"T.pos", "n", "nn", "pp"} {
		if !st.HasG(g) {
			continue
		}
		i := st.G(g)
		var cur Val
		for _, e := range st.mats["csym"] {
			if x.ProveEQ(st, e.idx.Sub(i)) {
				cur = st.heap[e.obj].V
			}
		}
		for _, f := range []string{"ID", "Length", "Prev", "Next"} {
			w, special := want[g][f]
			if !special {
				w = x.App(st, "c."+f, i)
			}
			if special && len(w.t) == 0 && w.c == -99 { // anything
				continue
			}
			ok := !special || x.ProveEQ(st, w.Sub(x.App(st, "c."+f, i)))
			if cur != nil {
				v, isI := getPath(cur, fieldPath(t, f)).(IntV)
				ok = isI && x.ProveEQ(st, v.L.Sub(w))
			}
			if st.unreachable() {
				return
			}
			x.Obl(rMerge, what+"|"+g+"."+f, m.pos, ok, "%s leaves the wrong %s in the symbol %s", what, f, map[string]string{"T.pos": "of the candidate", "n": "behind it", "nn": "behind that", "pp": "before it"}[g])
		}
	}
	for _, e := range st.mats["csym"] {
		known := false
		for _, g := range []string{"T.pos", "n", "nn", "pp"} {
			known = known || st.HasG(g) && x.ProveEQ(st, e.idx.Sub(st.G(g)))
		}
		if known {
			continue
		}
		o := st.heap[e.obj]
		for _, f := range []string{"ID", "Length", "Prev", "Next"} {
			v, isI := getPath(o.V, fieldPath(t, f)).(IntV)
			if !isI || !x.ProveEQ(st, v.L.Sub(x.App(st, "c."+f, e.idx))) {
				x.Obl(rMerge, what+"|other", m.pos, st.unreachable(), "%s changes another symbol", what)
			}
		}
	}
	es := x.load(st, m.word, x.Type(bpePkg, "Word"), 0)
	ok := len(es) == 1
	if ok {
		s, isS := es[0].V.(SliceV)
		ok = isS && s.Obj == m.csyms && x.ProveEQ(st, s.Off) && x.ProveEQ(st, s.Len.Sub(m.n))
	}
	x.Obl(rMerge, what+"|word", m.pos, ok, "%s changes the row of symbols itself", what)
}

// finish: a candidate that was not dropped has been dealt with.
func (m *merging) finish(st *State) []*State {
	x := m.x
	if st.unreachable() {
		return nil
	}
	okRe := x.ProveEQ(st, st.G("re").Sub(st.G("nskip")))
	if st.unreachable() {
		return nil
	}
	x.Obl(rDropout, "kept", m.pos, !st.HasG("skip"), "a candidate is dropped although the draw is not below the dropout")
	x.Obl(rDropout, "back", m.pos, okRe, "not all candidates dropped before are put back once one is taken")
	st.SetG("re", K(0))
	st.SetG("nskip", K(0))
	if !st.HasG("n") {
		m.same(st, "a candidate without a pair")
		return m.reset(st)
	}
	if !st.HasG("E") {
		x.Obl(rMerge, "checked", m.pos, false, "a candidate is used without looking up its pair")
		return m.reset(st)
	}
	if st.G("E").IsK(0) {
		m.same(st, "a pair that is not listed")
		return m.reset(st)
	}
	var out []*State
	T, p, n := st.G("T.id"), st.G("T.pos"), st.G("n")
	yes, no := x.ForkBool(st, FEQ(st.G("E.id").Sub(T)))
	for _, s := range no {
		m.same(s, "a candidate for another symbol")
		out = append(out, m.reset(s)...)
	}
	for _, s := range yes {
		if other := x.ProveNE(s, s.G("E.rank").Sub(s.G("T.rank"))); other && !s.unreachable() {
			m.same(s, "a candidate of another rank")
			out = append(out, m.reset(s)...)
			continue
		}
		nn := K(-1)
		if s.HasG("nn") {
			nn = s.G("nn")
		}
		any := K(-99)
		total := x.App(s, "c.Length", p).Add(x.App(s, "c.Length", n))
		want := map[string]map[string]Lin{
			"T.pos": {"ID": T, "Length": total, "Next": nn},
			"n":     {"ID": any, "Length": K(0), "Prev": any, "Next": any},
			"nn":    {"Prev": p},
		}
		m.effects(s, want, "a merge")
		for _, k := range [][2]string{{"L", "pp"}, {"R", "nn"}} {
			has := s.HasG(k[1])
			x.Obl(rMerge, "candidate|"+k[0], m.pos, !has || s.HasG(k[0]), "the pair of the merged symbol with its neighbour is not looked up")
			if has && s.HasG(k[0]) {
				x.Obl(rMerge, "candidate|"+k[0], m.pos, s.G(k[0]).IsK(1) == s.HasG("+"+k[0]), "the new pair of the merged symbol and its neighbour does not become a candidate although it is listed")
			}
		}
		out = append(out, m.reset(s)...)
	}
	return out
}

// mergeHeap checks the order of candidates.
func (x *Interp) mergeHeap(st *State) {
	wt := x.Type(bpePkg, "WordMerge")
	ht := x.Type(bpePkg, "WordMergeHeap")
	n := x.FreshNat(st, "candidates")
	st.SetG("@n", n)
	fams := []string{"Rank", "ID", "Pos"}
	for _, f := range fams {
		x.Decl(&Fam{Name: "q." + f, Keep: true})
	}
	src := &Source{Name: "queue", N: n, Split: true, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
		f := map[string]Val{}
		for _, k := range fams {
			f[k] = IntV{L: x.App(st, "q."+k, i)}
		}
		return []ElemOut{{st, x.mkStruct(st, wt, f)}}
	}}
	obj := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: n}}}, Elem: wt, Name: "queue"})
	q := PtrV{Obj: x.NewObj(st, &Obj{V: SliceV{obj, K(0), n}, Elem: ht, Name: "heap"})}
	st.Ambient()
	index := func(s *State, name string) Lin {
		i := x.FreshNat(s, name)
		s.P.AddGE(n.Sub(i).AddK(-1))
		s.SetG("@"+name, i)
		return i
	}
	each := func(name string, st *State, f func(s *State, ret Val), a ...Val) {
		fn := x.Method(bpePkg, "WordMergeHeap", name)
		pos := x.Prog.Pos(fn.Pos())
		ret := 0
		for _, o := range x.Run(st, fn, append([]Val{q}, a...)...) {
			if o.Panic || o.St.unreachable() {
				continue
			}
			ret++
			f(o.St, o.Ret)
		}
		x.Obl(rHeap, name+"|returns", pos, ret > 0, "it never returns")
	}
	at := func(s *State, i Lin) []ElemOut {
		var out []ElemOut
		for _, e := range x.load(s, q, ht, 0) {
			v, ok := e.V.(SliceV)
			if !ok || v.Obj == 0 {
				continue
			}
			out = append(out, x.readAt(e.St, v.Obj, v.Off.Add(i))...)
		}
		return out
	}
	isEl := func(s *State, v Val, i Lin) bool {
		for _, k := range fams {
			l, ok := getPath(v, fieldPath(wt, k)).(IntV)
			if !ok || !x.ProveEQ(s, l.L.Sub(x.App(s, "q."+k, i))) {
				return false
			}
		}
		return true
	}
	length := func(s *State) (Lin, bool) {
		for _, e := range x.load(s, q, ht, 0) {
			if v, ok := e.V.(SliceV); ok {
				return v.Len, true
			}
		}
		return Lin{}, false
	}
	// others: every other element is where it was
	others := func(name string, s *State, upTo Lin, not ...Lin) {
		k := x.FreshNat(s, "k")
		s.P.AddGE(upTo.Sub(k).AddK(-1))
		sts := []*State{s}
		for _, i := range not {
			var next []*State
			for _, t := range sts {
				for _, f := range []*Formula{FGE(k.Sub(i).AddK(-1)), FGE(i.Sub(k).AddK(-1))} {
					next = append(next, x.Assume(t.Clone(), f)...)
				}
			}
			sts = next
		}
		for _, t := range sts {
			es := at(t.Clone(), k)
			for _, e := range es {
				ok := isEl(e.St, e.V, k)
				if !e.St.unreachable() {
					x.Obl(rHeap, name+"|others", "", ok, "%s changes another candidate", name)
				}
			}
		}
	}
	pos := func(n string) string { return x.Prog.Pos(x.Method(bpePkg, "WordMergeHeap", n).Pos()) }
	s := st.Clone()
	each("Len", s, func(s *State, ret Val) {
		l, ok := ret.(IntV)
		x.Obl(rHeap, "Len", pos("Len"), ok && x.ProveEQ(s, l.L.Sub(n)), "the length is not the number of candidates")
	})
	s = st.Clone()
	i, j := index(s, "i"), index(s, "j")
	each("Less", s, func(s *State, ret Val) {
		d := x.App(s, "q.Rank", i).Sub(x.App(s, "q.Rank", j))
		e := x.App(s, "q.Pos", i).Sub(x.App(s, "q.Pos", j))
		less := FOr(FGE(d.Neg().AddK(-1)), FAnd(FEQ(d), FGE(e.Neg().AddK(-1))))
		yes, no := x.ForkBool(s, x.boolOf(ret))
		for _, t := range yes {
			for _, u := range x.Assume(t, FNot(less)) {
				if !u.unreachable() {
					x.Obl(rHeap, "Less|before", pos("Less"), false, "a candidate comes before one of lower rank, or of equal rank further left")
				}
			}
		}
		for _, t := range no {
			for _, u := range x.Assume(t, less) {
				if !u.unreachable() {
					x.Obl(rHeap, "Less|after", pos("Less"), false, "a candidate does not come before one of higher rank, or of equal rank further right")
				}
			}
		}
		x.Obl(rHeap, "Less", pos("Less"), true, "")
	}, IntV{L: i}, IntV{L: j})
	for c := -1; c <= 1; c++ {
		s = st.Clone()
		i, j = index(s, "i"), index(s, "j")
		switch c {
		case -1:
			s.P.AddGE(j.Sub(i).AddK(-1))
		case 0:
			j = i
		case 1:
			s.P.AddGE(i.Sub(j).AddK(-1))
		}
		each("Swap", s, func(s *State, ret Val) {
			for _, e := range at(s.Clone(), i) {
				x.Obl(rHeap, "Swap", pos("Swap"), isEl(e.St, e.V, j), "the candidates are not swapped")
			}
			for _, e := range at(s.Clone(), j) {
				x.Obl(rHeap, "Swap", pos("Swap"), isEl(e.St, e.V, i), "the candidates are not swapped")
			}
			l, ok := length(s)
			x.Obl(rHeap, "Swap|length", pos("Swap"), ok && x.ProveEQ(s, l.Sub(n)), "swapping changes the number of candidates")
			others("Swap", s, n, i, j)
		}, IntV{L: i}, IntV{L: j})
	}
	s = st.Clone()
	f := map[string]Val{"Rank": IntV{L: x.Fresh("rank")}, "ID": IntV{L: x.Fresh("id")}, "Pos": IntV{L: x.Fresh("pos")}}
	each("Push", s, func(s *State, ret Val) {
		l, ok := length(s)
		x.Obl(rHeap, "Push|length", pos("Push"), ok && x.ProveEQ(s, l.Sub(n).AddK(-1)), "not one candidate is added")
		for _, e := range at(s.Clone(), n) {
			ok := true
			for _, k := range fams {
				v, isI := getPath(e.V, fieldPath(wt, k)).(IntV)
				ok = ok && isI && x.ProveEQ(e.St, v.L.Sub(f[k].(IntV).L))
			}
			x.Obl(rHeap, "Push", pos("Push"), ok, "the last candidate is not the one added")
		}
		others("Push", s, n)
	}, IfaceV{wt, x.mkStruct(s, wt, f)})
	s = st.Clone()
	s.P.AddGE(n.AddK(-1))
	each("Pop", s, func(s *State, ret Val) {
		l, ok := length(s)
		x.Obl(rHeap, "Pop|length", pos("Pop"), ok && x.ProveEQ(s, l.Sub(n).AddK(1)), "not one candidate is removed")
		v, isI := ret.(IfaceV)
		x.Obl(rHeap, "Pop", pos("Pop"), isI && isEl(s, v.V, n.AddK(-1)), "the candidate returned is not the last one")
		others("Pop", s, n.AddK(-1))
	})
}

// wordAdd checks that symbols are added at the end.
func (x *Interp) wordAdd(st *State) {
	n := x.FreshNat(st, "symbols")
	st.SetG("@n", n)
	fn := x.Method(bpePkg, "Word", "Add")
	pos := x.Prog.Pos(fn.Pos())
	x.Decl(&Fam{Name: "a.ID", Keep: true})
	x.Decl(&Fam{Name: "a.Length", Keep: true})
	for c := 0; c < 2; c++ {
		s := st.Clone()
		if c == 0 {
			s.P.AddEq(n)
		} else {
			s.P.AddGE(n.AddK(-1))
		}
		init := func(st *State, f string, i Lin) Lin {
			switch f {
			case "Prev":
				return i.AddK(-1)
			case "Next":
				if x.ProveEQ(st, i.Sub(n).AddK(1)) {
					return K(-1)
				}
				return i.AddK(1)
			}
			return x.App(st, "a."+f, i)
		}
		syms := x.symbols(s, "asym", n, func(st *State, f string, i Lin) Val { return IntV{L: init(st, f, i)} })
		wt := x.Type(bpePkg, "Word")
		w := PtrV{Obj: x.NewObj(s, &Obj{V: SliceV{syms, K(0), n}, Elem: wt, Name: "word"})}
		id, length := x.Fresh("id"), x.Fresh("length")
		s.Ambient()
		ret := 0
		for _, o := range x.Run(s, fn, w, IntV{L: id}, IntV{L: length}) {
			if o.Panic || o.St.unreachable() {
				continue
			}
			ret++
			st := o.St
			for _, e := range x.load(st, w, wt, 0) {
				v, ok := e.V.(SliceV)
				ok = ok && v.Obj != 0 && x.ProveEQ(st, v.Len.Sub(n).AddK(-1))
				x.Obl(rSymAdd, "length", pos, ok, "not one symbol is added")
				if !ok {
					continue
				}
				check := func(st *State, i Lin, key string, want map[string]Lin) {
					for _, e := range x.readAt(st, v.Obj, v.Off.Add(i)) {
						for _, l := range x.load(e.St, e.V, x.Type(bpePkg, "WordSymbol"), 0) {
							for f, w := range want {
								g, isI := getPath(l.V, fieldPath(x.Type(bpePkg, "WordSymbol"), f)).(IntV)
								ok := isI && x.ProveEQ(l.St, g.L.Sub(w))
								if !l.St.unreachable() {
									x.Obl(rSymAdd, key+"|"+f, pos, ok, "the %s of %s is not right", f, key)
								}
							}
						}
					}
				}
				check(st.Clone(), n, "the new symbol", map[string]Lin{"ID": id, "Length": length, "Prev": n.AddK(-1), "Next": K(-1)})
				if c == 1 {
					l := n.AddK(-1)
					check(st.Clone(), l, "the last symbol before", map[string]Lin{"ID": x.App(st, "a.ID", l), "Length": x.App(st, "a.Length", l), "Prev": l.AddK(-1), "Next": n})
					t := st.Clone()
					k := x.FreshNat(t, "k")
					t.P.AddGE(n.Sub(k).AddK(-2))
					check(t, k, "another symbol", map[string]Lin{"ID": x.App(t, "a.ID", k), "Length": x.App(t, "a.Length", k), "Prev": k.AddK(-1), "Next": k.AddK(1)})
				}
			}
		}
		x.Obl(rSymAdd, "returns", pos, ret > 0, "it never returns")
	}
}
