package ai

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// The merge table read from a file. Line n of the file is the text "line" n. Of
// the current line, NT is the number of its terms; with two of them, LEN and
// RLEN are their lengths, and LEFT, RIGHT and MERGED the ids of the two and of
// the left one followed by the right one without prefix.

const (
	rMergeLine = "each line is skipped if it is a version line, or sets one merge with the next rank"
	rMergeFail = "a line that is no merge, or a failing read, gives an error and no table"
	rMergeDone = "the table is given only if the whole file was read"
	rMergeMap  = "the table holds what was set for the pair, in order"
)

const mergePkg = "models/bpemodel"

type mergeFile struct {
	x        *Interp
	fn       *ssa.Function
	pos      string
	mv       types.Type
	rank, id int
	prefix   Lin
}

// CheckC19 decides what merge files load to.
func CheckC19(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	m := &mergeFile{x: x, mv: x.Type(mergePkg, "MergeValue"), rank: -1, id: -1}
	s := m.mv.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Rank":
			m.rank = i
		case "ID":
			m.id = i
		}
	}
	if m.rank < 0 || m.id < 0 || s.NumFields() != 2 {
		panic("a merge value is not a rank and an id")
	}
	base := x.InitGlobals(NewState(), mergePkg)
	m.file(base.Clone())
	m.table(base.Clone())
	x.Close("merge file")
	r.Min[rMergeLine], r.Min[rMergeFail], r.Min[rMergeDone], r.Min[rMergeMap] = 3, 4, 3, 3
}

func (m *mergeFile) obl(st *State, rule, key string, ok bool, f string, a ...interface{}) {
	if !st.unreachable() {
		m.x.Obl(rule, key, m.pos, ok, f, a...)
	}
}

func (m *mergeFile) line(st *State) Lin { return st.G("line") }

// text is a part of the current line.
func (m *mergeFile) text(st *State, name string) StrV {
	x, n := m.x, m.line(st)
	l := st.G("LEN")
	switch name {
	case "right":
		l = st.G("RLEN")
	case "line":
		l = x.FreshNat(st, "len")
	case "rest":
		l = x.FreshNat(st, "len")
	}
	return StrV{[]Piece{{Kind: pTag, Lit: name, Lo: n, Hi: l}}}
}

// isNow reports whether a text is that part of the current line.
func (m *mergeFile) isNow(st *State, v Val, name string) bool {
	n, ok := isTerm(v, name)
	return ok && ghostIs(st, "cur", "yes") && m.x.ProveEQ(st, n.Sub(m.line(st)))
}

// two forks on the line having exactly two terms.
func (m *mergeFile) two(st *State) (yes, one, more []*State) {
	x := m.x
	d := st.G("NT").AddK(-2)
	many, one := x.ForkBool(st, FGE(d))
	for _, q := range many {
		e, more2 := x.ForkBool(q, FGE(d.Neg()))
		for _, q := range e {
			q.P.AddEq(d)
		}
		yes, more = append(yes, e...), append(more, more2...)
	}
	for _, q := range append(append([]*State(nil), one...), more...) {
		q.SetGV("terms", tagged("other"))
	}
	return
}

func (m *mergeFile) begin(st *State, c Val) {
	st.SetGV("cur", c)
	for _, g := range []string{"skip", "terms", "left", "right", "merged"} {
		st.SetGV(g, tagged("?"))
	}
	st.SetGV("set", tagged("no"))
	for _, f := range []string{"NT", "LEN", "RLEN", "LEFT", "RIGHT", "MERGED"} {
		v := m.x.Fresh(f)
		switch f {
		case "NT":
			st.P.AddGE(v.AddK(-1))
		case "LEN", "RLEN":
			st.P.AddGE(v)
		}
		st.SetG(f, v)
	}
}

func (m *mergeFile) scan(st *State) []Outcome {
	x := m.x
	if ghostIs(st, "cur", "end") {
		x.Unsupported("scan", "the file is scanned again behind its end")
		return nil
	}
	if ghostIs(st, "cur", "yes") {
		ok := ghostIs(st, "set", "yes") || ghostIs(st, "skip", "yes")
		m.obl(st, rMergeLine, "lines", ok, "a line that is no version line is passed without a merge")
	}
	next, end, bad := st, st.Clone(), st.Clone()
	next.SetG("line", st.G("line").AddK(1))
	m.begin(next, tagged("yes"))
	m.begin(end, tagged("end"))
	m.begin(bad, tagged("end"))
	bad.SetGV("failed", tagged("yes"))
	return []Outcome{{St: next, Ret: BConst(true)}, {St: end, Ret: BConst(false)}, {St: bad, Ret: BConst(false)}}
}

// found forks on the outcome of a lookup.
func (m *mergeFile) found(st *State, g, fam string) []Outcome {
	out := func(st *State, ok bool) Outcome {
		if ok {
			st.SetGV(g, tagged("found"))
			return Outcome{St: st, Ret: TupleV{IntV{L: st.G(fam)}, BConst(true)}}
		}
		st.SetGV(g, tagged("missing"))
		return Outcome{St: st, Ret: TupleV{IntV{L: K(0)}, BConst(false)}}
	}
	switch {
	case ghostIs(st, g, "found"):
		return []Outcome{out(st, true)}
	case ghostIs(st, g, "missing"):
		return []Outcome{out(st, false)}
	}
	no := st.Clone()
	return []Outcome{out(st, true), out(no, false)}
}

func (m *mergeFile) getID(st *State, a []Val) []Outcome {
	x := m.x
	o, ok := a[0].(OpaqueV)
	m.obl(st, rMergeLine, "vocabulary", ok && o.Tag == "vocab", "terms are looked up in another vocabulary")
	s, _ := a[1].(StrV)
	two := ghostIs(st, "cur", "yes") && x.ProveEQ(st, st.G("NT").AddK(-2))
	switch {
	case two && m.isNow(st, s, "left"):
		return m.found(st, "left", "LEFT")
	case two && m.isNow(st, s, "right"):
		return m.found(st, "right", "RIGHT")
	case two && len(s.P) >= 1 && m.isNow(st, StrV{s.P[:1]}, "left"):
		rest := StrV{s.P[1:]}
		// what is left of the right term
		if len(s.P) == 1 && x.ProveEQ(st, st.G("RLEN").Sub(m.prefix)) ||
			m.isNow(st, rest, "right") && x.ProveEQ(st, m.prefix) || m.isNow(st, rest, "right from prefix") {
			return m.found(st, "merged", "MERGED")
		}
	}
	m.obl(st, rMergeLine, "terms", false, "it looks up %s, which is no term of the merge", showVal(st, a[1]))
	no := st.Clone()
	return []Outcome{{St: st, Ret: TupleV{IntV{L: x.Fresh("id")}, BConst(true)}}, {St: no, Ret: TupleV{IntV{L: K(0)}, BConst(false)}}}
}

// Get, Set and Next make it the model of the table.
func (m *mergeFile) Get(st *State, o MapV, k Val) []MapOut {
	c := st.Clone()
	return []MapOut{{st, m.x.Havoc(st, m.mv, "merge"), true}, {c, nil, false}}
}

func (m *mergeFile) Next(st *State, it *Iter, id ObjID, tt *types.Tuple) []ElemOut {
	m.x.Unsupported("range over merges", "a loop over the merges")
	return nil
}

func (m *mergeFile) Set(st *State, o MapV, k, val Val, pos token.Pos) Lin {
	x := m.x
	key, ok1 := k.(ArrV)
	v, ok2 := val.(StructV)
	ok := ok1 && ok2 && len(key.E) == 2 && len(v.F) == 2 && ghostIs(st, "cur", "yes")
	is := func(v Val, fam string) bool {
		i, ok := v.(IntV)
		return ok && x.ProveEQ(st, i.L.Sub(st.G(fam)))
	}
	ok = ok && is(key.E[0], "LEFT") && is(key.E[1], "RIGHT") && is(v.F[m.id], "MERGED")
	m.obl(st, rMergeLine, "ids", ok, "the merge %s -> %s is not that of the line", showVal(st, k), showVal(st, val))
	if ok {
		r, isInt := v.F[m.rank].(IntV)
		m.obl(st, rMergeLine, "rank", isInt && x.ProveEQ(st, r.L.Sub(st.G("merges"))), "the rank is not the number of merges so far")
		good := ghostIs(st, "skip", "no") && ghostIs(st, "set", "no") && ghostIs(st, "left", "found") && ghostIs(st, "right", "found") && ghostIs(st, "merged", "found")
		m.obl(st, rMergeLine, "whole", good, "a merge is set before all of the line was checked, or twice")
	}
	old, had := st.GV("map").(MapV)
	m.obl(st, rMergeLine, "one table", !had || old.Obj == o.Obj, "merges go to different tables")
	st.SetGV("map", o)
	st.SetGV("set", tagged("yes"))
	st.SetG("merges", st.G("merges").AddK(1))
	l := x.FreshNat(st, "maplen")
	return l
}

// isTable reports whether v points to a table of its own holding what was set.
func (m *mergeFile) isTable(st *State, v Val) bool {
	p, ok := v.(PtrV)
	if !ok || len(p.Path) != 0 {
		return false
	}
	o, ok := st.heap[p.Obj].V.(MapV)
	if !ok {
		return false
	}
	if w, had := st.GV("map").(MapV); had {
		return w.Obj == o.Obj
	}
	h := st.heap[o.Obj]
	return !h.Shared && h.Map.Len != nil && st.P.Reduce(*h.Map.Len).IsK(0) && m.x.ProveEQ(st, st.G("merges"))
}

func (m *mergeFile) file(st *State) {
	x := m.x
	m.fn = x.Func(mergePkg, "MergeMapFromFile")
	m.pos = x.Prog.Pos(m.fn.Pos())
	m.prefix = x.FreshNat(st, "length of the prefix")
	st.SetG("@prefix", m.prefix)
	isFile := func(v Val) bool {
		if i, ok := v.(IfaceV); ok {
			v = i.V
		}
		o, ok := v.(OpaqueV)
		return ok && o.Tag == "file"
	}
	sep := func(v Val) bool {
		if s, ok := v.(StrV); ok {
			t, lit := asLit(s)
			return lit && t == " "
		}
		i, ok := v.(IntV)
		return ok && i.L.IsK(' ')
	}
	list := func(st *State, vs ...Val) Val {
		id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sElems, Elems: vs}}}, Elem: types.Typ[types.String]})
		n := K(int64(len(vs)))
		return SliceV{id, K(0), n}
	}
	other := func(fn, what string) []Outcome {
		x.Unsupported(fn, what)
		return nil
	}
	stubs := map[string]Stub{
		"os.Open": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			n, ok := isTerm(a[0], "name")
			m.obl(st, rMergeFail, "name", ok && n.IsK(0), "it opens another file")
			bad := st.Clone()
			bad.SetGV("failed", tagged("yes"))
			return []Outcome{{St: st, Ret: TupleV{OpaqueV{Tag: "file"}, NilV{}}}, {St: bad, Ret: TupleV{NilV{}, OpaqueV{Tag: "err:open"}}}}
		},
		"(*os.File).Close": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			bad := st.Clone()
			bad.SetGV("close", tagged("failed"))
			return []Outcome{{St: st, Ret: NilV{}}, {St: bad, Ret: OpaqueV{Tag: "err:close"}}}
		},
		"bufio.NewScanner": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			m.obl(st, rMergeDone, "scans", isFile(a[0]) && !ghostIs(st, "cur", "yes") && !ghostIs(st, "cur", "end"), "it does not scan the file, once")
			return one(st, OpaqueV{Tag: "scanner"})
		},
		"(*bufio.Scanner).Scan": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return m.scan(st) },
		"(*bufio.Scanner).Text": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			if !ghostIs(st, "cur", "yes") {
				return one(st, StrV{})
			}
			return one(st, m.text(st, "line"))
		},
		"(*bufio.Scanner).Err": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			if ghostIs(st, "cur", "end") && ghostIs(st, "failed", "yes") {
				return one(st, OpaqueV{Tag: "err:scan"})
			}
			return one(st, NilV{})
		},
		"strings.HasPrefix": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			p, _ := a[1].(StrV)
			if t, lit := asLit(p); !m.isNow(st, a[0], "line") || !lit || t != "#version" {
				b := x.freshBool(st)
				return one(st, BoolV{b})
			}
			switch {
			case ghostIs(st, "skip", "yes"):
				return one(st, BConst(true))
			case ghostIs(st, "skip", "no"):
				return one(st, BConst(false))
			}
			no := st.Clone()
			st.SetGV("skip", tagged("yes"))
			no.SetGV("skip", tagged("no"))
			return []Outcome{{St: st, Ret: BConst(true)}, {St: no, Ret: BConst(false)}}
		},
		vocMethod + "GetID": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return m.getID(st, a) },
	}
	split := func(limit int) Stub {
		return func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			if !m.isNow(st, a[0], "line") || !sep(a[1]) {
				return other("strings.Split", "something else than the line is split, or not at spaces")
			}
			if limit < 0 {
				l, ok := a[2].(IntV)
				k, isK := l.L.Const()
				if !ok || !isK || k == 0 || k == 1 {
					return other("strings.SplitN", "the limit is not understood")
				}
				if k > 1 {
					limit = int(k)
				} else {
					limit = 0
				}
			}
			yes, few, more := m.two(st)
			var out []Outcome
			for _, q := range yes {
				out = append(out, Outcome{St: q, Ret: list(q, m.text(q, "left"), m.text(q, "right"))})
			}
			for _, q := range few {
				out = append(out, Outcome{St: q, Ret: list(q, m.text(q, "line"))})
			}
			for _, q := range more {
				if limit == 2 {
					out = append(out, Outcome{St: q, Ret: list(q, m.text(q, "left"), m.text(q, "rest"))})
					continue
				}
				// three or more; which ones does not matter
				n := q.G("NT")
				if limit > 2 {
					n = x.FreshNat(q, "terms")
					q.P.AddGE(K(int64(limit)).Sub(n))
					q.P.AddGE(n.AddK(-3))
				}
				s := x.Havoc(q, types.NewSlice(types.Typ[types.String]), "terms").(SliceV)
				q.P.AddEq(s.Len.Sub(n))
				out = append(out, Outcome{St: q, Ret: s})
			}
			return out
		}
	}
	stubs["strings.Split"], stubs["strings.SplitN"] = split(0), split(-1)
	stubs["strings.Count"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		if !m.isNow(st, a[0], "line") || !sep(a[1]) {
			return one(st, IntV{L: x.FreshNat(st, "count")})
		}
		yes, few, more := m.two(st)
		var out []Outcome
		for _, q := range append(append(yes, few...), more...) {
			out = append(out, Outcome{St: q, Ret: IntV{L: q.G("NT").AddK(-1)}})
		}
		return out
	}
	stubs["strings.Cut"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		if !m.isNow(st, a[0], "line") || !sep(a[1]) {
			return other("strings.Cut", "something else than the line is cut, or not at spaces")
		}
		yes, few, more := m.two(st)
		var out []Outcome
		for _, q := range yes {
			out = append(out, Outcome{St: q, Ret: TupleV{m.text(q, "left"), m.text(q, "right"), BConst(true)}})
		}
		for _, q := range few {
			out = append(out, Outcome{St: q, Ret: TupleV{a[0], StrV{}, BConst(false)}})
		}
		for _, q := range more {
			out = append(out, Outcome{St: q, Ret: TupleV{m.text(q, "left"), m.text(q, "rest"), BConst(true)}})
		}
		return out
	}
	// does the part behind the first space hold another?
	within := func(st *State, v Val) ([]*State, []*State, bool) {
		switch {
		case m.isNow(st, v, "right"):
			return nil, []*State{st}, true
		case m.isNow(st, v, "rest"):
			return []*State{st}, nil, true
		}
		return nil, nil, false
	}
	index := func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		var out []Outcome
		if yes, no, ok := within(st, a[0]); ok && sep(a[1]) {
			for _, q := range yes {
				out = append(out, Outcome{St: q, Ret: IntV{L: x.FreshNat(q, "at")}})
			}
			for _, q := range no {
				out = append(out, Outcome{St: q, Ret: IntV{L: K(-1)}})
			}
			return out
		}
		if !m.isNow(st, a[0], "line") || !sep(a[1]) {
			return other("strings.Index", "something else than a space is looked for, or not in the line")
		}
		yes, few, more := m.two(st)
		for _, q := range append(yes, more...) {
			l := q.G("LEN")
			whole := a[0].(StrV).P[0].Hi
			if x.ProveEQ(q, q.G("NT").AddK(-2)) {
				q.P.AddEq(whole.Sub(l).AddK(-1).Sub(q.G("RLEN")))
			} else {
				q.P.AddGE(whole.Sub(l).AddK(-1))
			}
			out = append(out, Outcome{St: q, Ret: IntV{L: l}})
		}
		for _, q := range few {
			out = append(out, Outcome{St: q, Ret: IntV{L: K(-1)}})
		}
		return out
	}
	stubs["strings.Index"], stubs["strings.IndexByte"], stubs["strings.IndexRune"] = index, index, index
	stubs["strings.Contains"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		if yes, no, ok := within(st, a[0]); ok && sep(a[1]) {
			var out []Outcome
			for _, q := range yes {
				out = append(out, Outcome{St: q, Ret: BConst(true)})
			}
			for _, q := range no {
				out = append(out, Outcome{St: q, Ret: BConst(false)})
			}
			return out
		}
		return one(st, BoolV{x.freshBool(st)})
	}
	x.SubTag = func(st *State, p Piece, lo, hi Lin) (Piece, bool) {
		s := StrV{[]Piece{p}}
		toEnd := x.ProveEQ(st, hi.Sub(p.Hi))
		switch {
		case m.isNow(st, s, "right") && toEnd && x.ProveEQ(st, lo.Sub(m.prefix)):
			return Piece{Kind: pTag, Lit: "right from prefix", Lo: p.Lo, Hi: hi.Sub(lo)}, true
		case m.isNow(st, s, "line"):
			l := st.G("LEN")
			if x.ProveEQ(st, lo) && x.ProveEQ(st, hi.Sub(l)) {
				return m.text(st, "left").P[0], true
			}
			if toEnd && x.ProveEQ(st, lo.Sub(l).AddK(-1)) {
				if x.ProveEQ(st, st.G("NT").AddK(-2)) {
					return m.text(st, "right").P[0], true
				}
				r := m.text(st, "rest").P[0]
				r.Hi = hi.Sub(lo)
				return r, true
			}
		}
		return p, false
	}
	for n, s := range stubs {
		x.Stubs[n] = s
	}
	x.Maps = m
	x.RulePanic, x.NoPanics = rNoPanic, true
	defer func() {
		for n := range stubs {
			delete(x.Stubs, n)
		}
		x.Maps, x.SubTag = nil, nil
	}()
	st.SetG("line", K(0))
	st.SetG("merges", K(0))
	m.begin(st, tagged("none"))
	for _, g := range []string{"failed", "close", "map"} {
		st.SetGV(g, tagged("no"))
	}
	st.Ambient()
	good, bad := 0, 0
	for _, o := range x.Run(st, m.fn, termStr(x, st, "name", K(0)), OpaqueV{Tag: "vocab"}, IntV{L: m.prefix}) {
		q := o.St
		if q.unreachable() {
			continue
		}
		t, ok := o.Ret.(TupleV)
		if o.Panic || !ok || len(t) != 2 {
			m.obl(q, rMergeFail, "panics", false, "it panics")
			continue
		}
		_, isNil := t[0].(NilV)
		e := isErr(t[1])
		if e > 0 && ghostIs(q, "close", "failed") {
			continue // whatever comes with the error of closing the file
		}
		if e > 0 {
			bad++
			m.obl(q, rMergeFail, "nothing on error", isNil, "a table comes with an error")
			why := ghostIs(q, "failed", "yes")
			if !why && ghostIs(q, "cur", "yes") && ghostIs(q, "skip", "no") {
				why = ghostIs(q, "terms", "other") || x.ProveGE(q, m.prefix.Sub(q.G("RLEN")).AddK(-1)) ||
					ghostIs(q, "left", "missing") || ghostIs(q, "right", "missing") || ghostIs(q, "merged", "missing")
			}
			m.obl(q, rMergeFail, "reason", why, "it fails on a file that can be read and holds only merges")
			continue
		}
		good++
		m.obl(q, rMergeFail, "failures", e < 0 && ghostIs(q, "failed", "no"), "it succeeds although the file could not be read")
		m.obl(q, rMergeDone, "all of it", ghostIs(q, "cur", "end"), "it succeeds before the end of the file")
		m.obl(q, rMergeDone, "table", m.isTable(q, t[0]), "it does not return the table the merges were set in")
	}
	m.obl(st, rMergeDone, "returns", good > 0 && bad > 0, "it never succeeds, or never fails")
}

// mergeTable is the model of an arbitrary table.
type mergeTable struct {
	*mergeFile
	first, second, have Lin
	obj                 ObjID
	set                 bool
	val                 Val
	was                 StructV
}

func (t *mergeTable) key(st *State, m MapV, k Val) bool {
	a, ok := k.(ArrV)
	if !ok || m.Obj != t.obj || len(a.E) != 2 {
		return false
	}
	i, ok1 := a.E[0].(IntV)
	j, ok2 := a.E[1].(IntV)
	return ok1 && ok2 && t.x.ProveEQ(st, i.L.Sub(t.first)) && t.x.ProveEQ(st, j.L.Sub(t.second))
}

func (t *mergeTable) Get(st *State, m MapV, k Val) []MapOut {
	x := t.x
	t.obl(st, rMergeMap, "asked", t.key(st, m, k), "it looks up %s", showVal(st, k))
	yes, no := x.ForkBool(st, FGE(t.have.AddK(-1)))
	var out []MapOut
	for _, q := range yes {
		out = append(out, MapOut{q, t.was, true})
	}
	for _, q := range no {
		out = append(out, MapOut{q, nil, false})
	}
	return out
}

func (t *mergeTable) Next(st *State, it *Iter, id ObjID, tt *types.Tuple) []ElemOut {
	t.x.Unsupported("range over merges", "a loop over the merges")
	return nil
}

func (t *mergeTable) Set(st *State, m MapV, k, val Val, pos token.Pos) Lin {
	v, ok := val.(StructV)
	ok = ok && t.set && len(v.F) == 2 && ghostIs(st, "set", "no")
	for i := 0; ok && i < 2; i++ {
		a, ok1 := v.F[i].(IntV)
		b, ok2 := t.was.F[i].(IntV)
		ok = ok1 && ok2 && t.x.ProveEQ(st, a.L.Sub(b.L))
	}
	t.obl(st, rMergeMap, "set", ok && t.key(st, m, k), "it sets %s for %s", showVal(st, val), showVal(st, k))
	st.SetGV("set", tagged("yes"))
	return t.x.FreshNat(st, "maplen")
}

func (m *mergeFile) table(base *State) {
	x := m.x
	for _, name := range []string{"Get", "Set"} {
		st := base.Clone()
		fn := x.Method(mergePkg, "MergeMap", name)
		m.pos = x.Prog.Pos(fn.Pos())
		t := &mergeTable{mergeFile: m, set: name == "Set", first: x.Fresh("first"), second: x.Fresh("second"), have: x.FreshNat(st, "have")}
		st.P.AddGE(K(1).Sub(t.have))
		t.was = StructV{[]Val{IntV{L: x.Fresh("value")}, IntV{L: x.Fresh("value")}}}
		n := x.FreshNat(st, "merges")
		t.obj = x.NewObj(st, &Obj{Map: &MapObj{Name: "merges", Len: &n}, Name: "merges", Shared: true})
		p := PtrV{Obj: x.NewObj(st, &Obj{V: MapV{t.obj}, Elem: x.Type(mergePkg, "MergeMap"), Name: "table"})}
		args := []Val{p, IntV{L: t.first}, IntV{L: t.second}}
		if t.set {
			args = append(args, t.was)
		}
		st.SetG("@have", t.have)
		st.SetG("@first", t.first)
		st.SetG("@second", t.second)
		st.SetGV("set", tagged("no"))
		st.Ambient()
		x.Maps = t
		k := 0
		for _, o := range x.Run(st, fn, args...) {
			q := o.St
			if q.unreachable() {
				continue
			}
			k++
			ok := !o.Panic
			if t.set {
				ok = ok && ghostIs(q, "set", "yes")
				m.obl(q, rMergeMap, "Set", ok, "nothing is set")
				continue
			}
			r, is := o.Ret.(TupleV)
			if ok = ok && is && len(r) == 2; ok {
				f, there := x.boolOf(r[1]), FGE(t.have.AddK(-1))
				ok = x.Prove(q, FOr(FAnd(f, there), FAnd(FNot(f), FNot(there))))
				if ok && x.Prove(q, there) {
					v, is := r[0].(StructV)
					ok = is && len(v.F) == 2
					for i := 0; ok && i < 2; i++ {
						a, is := v.F[i].(IntV)
						ok = is && x.ProveEQ(q, a.L.Sub(t.was.F[i].(IntV).L))
					}
				}
			}
			m.obl(q, rMergeMap, "Get", ok, "it reports %s", showVal(q, o.Ret))
		}
		m.obl(st, rMergeMap, name+" returns", k > 0, "it never returns")
	}
	x.Maps = nil
}
