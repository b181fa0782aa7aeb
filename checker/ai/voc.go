package ai

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

// The vocabulary. It holds n terms; TAKEN(i) tells whether the id i is one of
// theirs. The term asked for, or added, is the text "term"; FOUND is 1 if it is
// there, with the id TID.

const (
	rVocAdd  = "adding a term keeps the two directions in agreement and all that is there"
	rVocAsk  = "lookups report what the vocabulary holds"
	rVocFile = "a file gives a vocabulary whose two directions agree, or an error"
	rVocOnly = "vocabularies are only made and changed by the operations analysed"
)

type vocab struct {
	x        *Interp
	T        types.Type
	t2i, i2t int // the fields
	pos      string
	op       string
}

func (x *Interp) vocabType() *vocab {
	v := &vocab{x: x, T: x.Type(vocPkg, "Vocabulary"), t2i: -1, i2t: -1}
	s := v.T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			k, _ := m.Key().Underlying().(*types.Basic)
			e, _ := m.Elem().Underlying().(*types.Basic)
			if k != nil && e != nil && k.Kind() == types.String && e.Info()&types.IsInteger != 0 {
				v.t2i = i
			} else if k != nil && e != nil && k.Info()&types.IsInteger != 0 && e.Kind() == types.String {
				v.i2t = i
			}
		}
	}
	if v.t2i < 0 || v.i2t < 0 || s.NumFields() != 2 {
		panic("a vocabulary is not a pair of maps")
	}
	return v
}

// CheckC18 decides what vocabularies hold.
func CheckC18(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	base := x.InitGlobals(NewState(), vocPkg)
	v := x.vocabType()
	v.made(base.Clone())
	v.added(base.Clone())
	v.answers(base.Clone())
	v.fromFile(base.Clone())
	v.writers()
	x.Close("vocabulary")
	r.Min[rVocAdd], r.Min[rVocAsk], r.Min[rVocFile], r.Min[rVocOnly] = 4, 4, 4, 2
}

// term is a text identified by a name and a number.
func termStr(x *Interp, st *State, name string, n Lin) StrV {
	return StrV{[]Piece{{Kind: pTag, Lit: name, Lo: n, Hi: x.FreshNat(st, "len")}}}
}

func isTerm(s Val, name string) (Lin, bool) {
	t, ok := s.(StrV)
	if ok && len(t.P) == 1 && t.P[0].Kind == pTag && t.P[0].Lit == name {
		return t.P[0].Lo, true
	}
	return Lin{}, false
}

func tagged(s string) Val { return OpaqueV{Tag: s} }

func (v *vocab) obl(st *State, rule, key string, ok bool, f string, a ...interface{}) {
	if !st.unreachable() {
		v.x.Obl(rule, v.op+"|"+key, v.pos, ok, v.op+": "+f, a...)
	}
}

// vocState is an arbitrary vocabulary.
type vocState struct {
	*vocab
	ptr        Val
	n, f, id   Lin
	readonly   bool
	tMap, iMap ObjID
}

func (v *vocab) arbitrary(st *State) *vocState {
	x := v.x
	s := &vocState{vocab: v}
	s.n = x.FreshNat(st, "terms")
	s.f = x.FreshNat(st, "found")
	st.P.AddGE(K(1).Sub(s.f))
	s.id = x.Fresh("id of the term")
	x.Decl(&Fam{Name: "TAKEN", Inst: true, OnNew: func(x *Interp, st *State, i, t Lin) {
		st.P.AddGE(t)
		st.P.AddGE(K(1).Sub(t))
	}})
	s.tMap = x.NewObj(st, &Obj{Map: &MapObj{Name: "t2i", Len: &s.n}, Name: "termToID", Shared: true})
	s.iMap = x.NewObj(st, &Obj{Map: &MapObj{Name: "i2t", Len: &s.n}, Name: "idToTerm", Shared: true})
	f := make([]Val, 2)
	f[v.t2i], f[v.i2t] = MapV{s.tMap}, MapV{s.iMap}
	s.ptr = PtrV{Obj: x.NewObj(st, &Obj{V: StructV{f}, Elem: v.T, Name: "vocabulary", Shared: true})}
	st.SetG("@n", s.n)
	st.SetG("@f", s.f)
	st.SetG("@id", s.id)
	st.SetGV("sized", tagged("no"))
	st.SetGV("t", tagged("no"))
	st.SetGV("i", tagged("no"))
	st.SetG("tv", K(0))
	st.SetG("iv", K(0))
	return s
}

func ghostIs(st *State, name, tag string) bool {
	o, ok := st.GV(name).(OpaqueV)
	return ok && o.Tag == tag
}

func (s *vocState) Get(st *State, m MapV, k Val) []MapOut {
	x := s.x
	switch m.Obj {
	case s.tMap:
		if _, ok := isTerm(k, "term"); ok {
			if ghostIs(st, "t", "yes") {
				return []MapOut{{st, IntV{L: st.G("tv")}, true}}
			}
			yes, no := x.ForkBool(st, FGE(s.f.AddK(-1)))
			var out []MapOut
			for _, q := range yes {
				q.P.AddEq(s.f.AddK(-1))
				out = append(out, MapOut{q, IntV{L: s.id}, true})
			}
			for _, q := range no {
				q.P.AddEq(s.f)
				out = append(out, MapOut{q, nil, false})
			}
			return out
		}
		o := st.Clone()
		return []MapOut{{st, IntV{L: x.Fresh("id")}, true}, {o, nil, false}}
	case s.iMap:
		i, ok := k.(IntV)
		if !ok {
			break
		}
		if ghostIs(st, "i", "yes") {
			x.Unsupported(s.op+"|late lookup", "an id is looked up after one was added")
		}
		t := x.App(st, "TAKEN", i.L)
		yes, no := x.ForkBool(st, FGE(t.AddK(-1)))
		var out []MapOut
		for _, q := range yes {
			q.P.AddEq(t.AddK(-1))
			if x.ProveEQ(q, i.L.Sub(s.n)) {
				q.SetGV("sized", tagged("yes"))
			}
			out = append(out, MapOut{q, termStr(x, q, "of id", i.L), true})
		}
		for _, q := range no {
			q.P.AddEq(t)
			out = append(out, MapOut{q, nil, false})
		}
		return out
	}
	x.Unsupported(s.op+"|lookup", "a lookup that is not understood")
	o := st.Clone()
	return []MapOut{{st, OpaqueV{Tag: "?"}, true}, {o, nil, false}}
}

func (s *vocState) Set(st *State, m MapV, k, val Val, pos token.Pos) Lin {
	x := s.x
	n := s.n
	if o := st.heap[m.Obj]; o != nil && o.Map.Len != nil {
		n = *o.Map.Len
	}
	fail := func() Lin {
		s.obl(st, rVocAdd, "writes", false, "it writes %s for %s at %s", showVal(st, val), showVal(st, k), x.Prog.Pos(pos))
		return n
	}
	if s.readonly || !x.ProveEQ(st, s.f) {
		return fail()
	}
	switch m.Obj {
	case s.tMap:
		_, ok := isTerm(k, "term")
		i, ok2 := val.(IntV)
		if !ok || !ok2 || ghostIs(st, "t", "yes") {
			return fail()
		}
		st.SetGV("t", tagged("yes"))
		st.SetG("tv", i.L)
		return n.AddK(1)
	case s.iMap:
		i, ok := k.(IntV)
		_, ok2 := isTerm(val, "term")
		if !ok || !ok2 || ghostIs(st, "i", "yes") || !x.ProveEQ(st, x.App(st, "TAKEN", i.L)) {
			return fail()
		}
		st.SetGV("i", tagged("yes"))
		st.SetG("iv", i.L)
		return n.AddK(1)
	}
	return fail()
}

func (s *vocState) Next(st *State, it *Iter, id ObjID, tt *types.Tuple) []ElemOut {
	s.x.Unsupported(s.op+"|range", "a loop over the vocabulary")
	return nil
}

// same reports whether the two maps are still those of the vocabulary.
func (s *vocState) same(st *State) bool {
	o := st.heap[s.ptr.(PtrV).Obj]
	f, ok := o.V.(StructV)
	if !ok || len(f.F) != 2 {
		return false
	}
	a, ok1 := f.F[s.t2i].(MapV)
	b, ok2 := f.F[s.i2t].(MapV)
	return ok1 && ok2 && a.Obj == s.tMap && b.Obj == s.iMap
}

func (v *vocab) added(st *State) {
	x := v.x
	fn := x.Method(vocPkg, "Vocabulary", "AddTerm")
	v.op, v.pos = "AddTerm", x.Prog.Pos(fn.Pos())
	s := v.arbitrary(st)
	x.Maps = s
	defer func() { x.Maps = nil }()
	st.Ambient()
	n := 0
	for _, o := range x.Run(st, fn, s.ptr, termStr(x, st, "term", K(0))) {
		q := o.St
		if q.unreachable() {
			continue
		}
		if o.Panic {
			v.obl(q, rVocAdd, "panics", false, "it panics")
			continue
		}
		n++
		v.obl(q, rVocAdd, "keeps the maps", s.same(q), "the maps of the vocabulary are replaced")
		yes, no := x.ForkBool(q, FGE(s.f.AddK(-1)))
		for _, q := range yes {
			q.P.AddEq(s.f.AddK(-1))
			v.obl(q, rVocAdd, "a term that is there", ghostIs(q, "t", "no") && ghostIs(q, "i", "no"), "a term that is there is added again")
		}
		for _, q := range no {
			q.P.AddEq(s.f)
			ok := ghostIs(q, "t", "yes") && ghostIs(q, "i", "yes")
			v.obl(q, rVocAdd, "both directions", ok && x.ProveEQ(q, q.G("tv").Sub(q.G("iv"))), "a new term does not get one id in both directions")
			if ok && !q.unreachable() {
				id := q.G("tv")
				x.relink(q)
				t, known := x.at(q, "TAKEN", id)
				v.obl(q, rVocAdd, "a free id", known && x.ProveEQ(q, t), "the id of a new term may be taken")
				v.obl(q, rVocAdd, "the next id", x.ProveEQ(q, id.Sub(s.n)) || ghostIs(q, "sized", "yes"), "the id of a new term is not the size, which is free")
			}
		}
	}
	v.obl(st, rVocAdd, "returns", n > 0, "it never returns")
}

func (v *vocab) answers(base *State) {
	x := v.x
	for _, name := range []string{"GetID", "GetString", "Size"} {
		st := base.Clone()
		fn := x.Method(vocPkg, "Vocabulary", name)
		v.op, v.pos = name, x.Prog.Pos(fn.Pos())
		s := v.arbitrary(st)
		s.readonly = true
		x.Maps = s
		i := x.Fresh("the id asked for")
		args := []Val{s.ptr}
		switch name {
		case "GetID":
			args = append(args, termStr(x, st, "term", K(0)))
		case "GetString":
			args = append(args, IntV{L: i})
		}
		st.Ambient()
		n := 0
		for _, o := range x.Run(st, fn, args...) {
			q := o.St
			if q.unreachable() {
				continue
			}
			n++
			ok := !o.Panic && s.same(q)
			switch name {
			case "Size":
				l, is := o.Ret.(IntV)
				ok = ok && is && x.ProveEQ(q, l.L.Sub(s.n))
			default:
				t, is := o.Ret.(TupleV)
				if ok = ok && is; !ok {
					break
				}
				f := x.boolOf(t[1])
				if name == "GetID" {
					there := FGE(s.f.AddK(-1))
					ok = x.Prove(q, FOr(FAnd(f, there), FAnd(FNot(f), FNot(there))))
					if l, is := t[0].(IntV); ok && x.Prove(q, there) {
						ok = is && x.ProveEQ(q, l.L.Sub(s.id))
					}
					break
				}
				there := FGE(x.App(q, "TAKEN", i).AddK(-1))
				ok = x.Prove(q, FOr(FAnd(f, there), FAnd(FNot(f), FNot(there))))
				if ok && x.Prove(q, there) {
					k, is := isTerm(t[0], "of id")
					ok = is && x.ProveEQ(q, k.Sub(i))
				}
			}
			v.obl(q, rVocAsk, "answer", ok, "it reports %s", showVal(q, o.Ret))
		}
		v.obl(st, rVocAsk, "returns", n > 0, "it never returns")
	}
	x.Maps = nil
}

// made checks that a new vocabulary is empty.
func (v *vocab) made(st *State) {
	x := v.x
	fn := x.Func(vocPkg, "NewVocabulary")
	v.op, v.pos = "NewVocabulary", x.Prog.Pos(fn.Pos())
	n := 0
	for _, o := range x.Run(st, fn) {
		n++
		ok := false
		if p, is := o.Ret.(PtrV); is && !o.Panic && len(p.Path) == 0 {
			f, is := o.St.heap[p.Obj].V.(StructV)
			if is {
				a, ok1 := f.F[v.t2i].(MapV)
				b, ok2 := f.F[v.i2t].(MapV)
				ok = ok1 && ok2 && a.Obj != b.Obj && !o.St.heap[a.Obj].Shared && !o.St.heap[b.Obj].Shared &&
					o.St.P.Reduce(x.lenOf(o.St, a)).IsK(0) && o.St.P.Reduce(x.lenOf(o.St, b)).IsK(0)
			}
		}
		v.obl(o.St, rVocAsk, "empty", ok, "a new vocabulary is not a pair of empty maps of its own")
	}
	v.obl(st, rVocAsk, "returns", n > 0, "it never returns")
}

// vocFile is the analysis of reading a file: entry k of the JSON object has
// the id JID(k) and the term k.
type vocFile struct {
	*vocab
	m    Lin
	json map[ObjID]bool
}

func (s *vocFile) Get(st *State, m MapV, k Val) []MapOut {
	x := s.x
	o := st.heap[m.Obj]
	if i, ok := k.(IntV); ok && !s.json[m.Obj] && o.Map.Len != nil {
		if st.P.Reduce(*o.Map.Len).IsK(0) {
			st.SetGV("free", i)
			return []MapOut{{st, nil, false}}
		}
		yes, no := st, st.Clone()
		if x.ProveEQ(yes, i.L.Sub(x.App(yes, "JID", yes.G("w")))) {
			yes.SetGV("dup", tagged("yes"))
		}
		no.SetGV("free", i)
		return []MapOut{{yes, termStr(x, yes, "entry", x.Fresh("earlier entry")), true}, {no, nil, false}}
	}
	x.Unsupported(s.op+"|lookup", "a lookup that is not understood")
	c := st.Clone()
	return []MapOut{{st, OpaqueV{Tag: "?"}, true}, {c, nil, false}}
}

func (s *vocFile) Set(st *State, m MapV, k, val Val, pos token.Pos) Lin {
	x := s.x
	n := *st.heap[m.Obj].Map.Len
	if t, ok := isTerm(k, "entry"); ok && !s.json[m.Obj] {
		// a copy of the object, whose terms are all different
		w := st.G("wt")
		i, ok2 := val.(IntV)
		s.obl(st, rVocFile, "entries", ok2 && x.ProveEQ(st, t.Sub(w)) && x.ProveEQ(st, i.L.Sub(x.App(st, "JID", w))) && x.ProveEQ(st, n.Sub(w)), "it writes %s for %s, which is not what the file holds", showVal(st, val), showVal(st, k))
		st.SetG("wt", w.AddK(1))
		return n.AddK(1)
	}
	i, ok := k.(IntV)
	t, ok2 := isTerm(val, "entry")
	w := st.G("w")
	ok = ok && ok2 && !s.json[m.Obj] && x.ProveEQ(st, t.Sub(w)) && x.ProveEQ(st, i.L.Sub(x.App(st, "JID", w)))
	s.obl(st, rVocFile, "entries", ok, "it writes %s for %s, which is not what the file holds", showVal(st, val), showVal(st, k))
	f, isFree := st.GV("free").(IntV)
	st.SetG("w", w.AddK(1))
	st.SetGV("free", tagged("no"))
	if ok && isFree && x.ProveEQ(st, f.L.Sub(i.L)) {
		return n.AddK(1)
	}
	l := x.Fresh("maplen")
	st.P.AddGE(l.Sub(n))
	st.P.AddGE(n.AddK(1).Sub(l))
	return l
}

func (s *vocFile) Next(st *State, it *Iter, id ObjID, tt *types.Tuple) []ElemOut {
	x := s.x
	m, ok := it.Map.(MapV)
	if _, isNil := it.Map.(NilV); !isNil && (!ok || !s.json[m.Obj]) {
		if ok && st.heap[m.Obj].Map.Len != nil && st.P.Reduce(*st.heap[m.Obj].Map.Len).IsK(0) {
			isNil = true
		} else {
			x.Unsupported(s.op+"|range", "a loop over another map")
		}
	}
	end := func(st *State) ElemOut {
		return ElemOut{st, TupleV{BConst(false), x.zeroOr(tt.At(1).Type()), x.zeroOr(tt.At(2).Type())}}
	}
	if !ok || !s.json[m.Obj] {
		return []ElemOut{end(st)}
	}
	var out []ElemOut
	st.P.AddGE(s.m.Sub(it.K)) // an invariant of the iterator
	yes, no := x.ForkBool(st, FGE(s.m.Sub(it.K).AddK(-1)))
	for _, q := range yes {
		n := *it
		n.K = it.K.AddK(1)
		q.heap[id] = &Obj{It: &n}
		out = append(out, ElemOut{q, TupleV{BConst(true), termStr(x, q, "entry", it.K), IntV{L: x.App(q, "JID", it.K)}}})
	}
	for _, q := range no {
		out = append(out, end(q))
	}
	return out
}

func (v *vocab) fromFile(st *State) {
	x := v.x
	fn := x.Func(vocPkg, "FromJSONFile")
	v.op, v.pos = "FromJSONFile", x.Prog.Pos(fn.Pos())
	s := &vocFile{vocab: v, json: map[ObjID]bool{}}
	s.m = x.FreshNat(st, "entries")
	x.Decl(&Fam{Name: "JID"})
	read := func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		t, ok := isTerm(a[0], "name")
		v.obl(st, rVocFile, "file", ok && t.IsK(0), "it reads another file")
		bad := st.Clone()
		bad.SetGV("failed", tagged("yes"))
		return []Outcome{{St: st, Ret: TupleV{OpaqueV{Tag: "data"}, NilV{}}}, {St: bad, Ret: TupleV{NilV{}, OpaqueV{Tag: "err:read"}}}}
	}
	x.Stubs["os.ReadFile"], x.Stubs["io/ioutil.ReadFile"] = read, read
	x.Stubs["encoding/json.Unmarshal"] = func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		d, ok := a[0].(OpaqueV)
		i, ok2 := a[1].(IfaceV)
		var p PtrV
		if ok2 {
			p, ok2 = i.V.(PtrV)
		}
		if pt, is := i.T.(*types.Pointer); !is || !types.Identical(pt.Elem().Underlying(), v.T.Underlying().(*types.Struct).Field(v.t2i).Type().Underlying()) {
			ok2 = false
		}
		ok = ok && d.Tag == "data" && ok2 && len(p.Path) == 0
		v.obl(st, rVocFile, "decodes", ok, "what is decoded, or where to, is not understood")
		if !ok {
			return nil
		}
		bad, null := st.Clone(), st.Clone()
		bad.SetGV("failed", tagged("yes"))
		put := func(st *State, v Val) {
			o := *st.heap[p.Obj]
			o.V = v
			st.heap[p.Obj] = &o
		}
		put(bad, OpaqueV{Tag: "partly decoded"})
		put(null, NilV{})
		null.P.AddEq(s.m)
		m := s.m
		id := x.NewObj(st, &Obj{Map: &MapObj{Name: "json", Len: &m}, Name: "the object of the file"})
		s.json[id] = true
		put(st, MapV{id})
		return []Outcome{{St: st, Ret: NilV{}}, {St: null, Ret: NilV{}}, {St: bad, Ret: OpaqueV{Tag: "err:json"}}}
	}
	defer func() {
		for _, n := range []string{"os.ReadFile", "io/ioutil.ReadFile", "encoding/json.Unmarshal"} {
			delete(x.Stubs, n)
		}
		x.Maps = nil
	}()
	x.Maps = s
	st.SetG("@m", s.m)
	st.SetG("w", K(0))
	st.SetG("wt", K(0))
	for _, g := range []string{"failed", "dup", "free"} {
		st.SetGV(g, tagged("no"))
	}
	st.Ambient()
	good, bad := 0, 0
	for _, o := range x.Run(st, fn, termStr(x, st, "name", K(0))) {
		q := o.St
		if q.unreachable() {
			continue
		}
		t, ok := o.Ret.(TupleV)
		if o.Panic || !ok {
			v.obl(q, rVocFile, "panics", false, "it panics")
			continue
		}
		var maps [2]Val
		p, isVoc := t[0].(PtrV)
		if isVoc {
			if f, is := q.heap[p.Obj].V.(StructV); is {
				maps = [2]Val{f.F[v.t2i], f.F[v.i2t]}
			}
		}
		size := func(v Val) Lin {
			m, ok := v.(MapV)
			if !ok || q.heap[m.Obj].Map.Len == nil {
				return K(-1)
			}
			return *q.heap[m.Obj].Map.Len
		}
		if isErr(t[1]) > 0 {
			bad++
			_, isNil := t[0].(NilV)
			v.obl(q, rVocFile, "nothing on error", isNil, "a vocabulary comes with an error")
			why := ghostIs(q, "failed", "yes") || ghostIs(q, "dup", "yes")
			if !why {
				// the ids are not all different
				for id, o := range q.heap {
					if o.Map != nil && !s.json[id] && o.Map.Len != nil && x.ProveGE(q, s.m.Sub(*o.Map.Len).AddK(-1)) && x.ProveEQ(q, q.G("w").Sub(s.m)) {
						why = true
					}
				}
			}
			v.obl(q, rVocFile, "errors", why, "it fails without a reason")
			continue
		}
		good++
		v.obl(q, rVocFile, "failures", isErr(t[1]) < 0 && ghostIs(q, "failed", "no"), "it succeeds although the file could not be read")
		a, _ := maps[0].(MapV)
		ok = isVoc && (s.json[a.Obj] || x.ProveEQ(q, q.G("wt").Sub(s.m)) && x.ProveEQ(q, size(maps[0]).Sub(s.m)))
		v.obl(q, rVocFile, "terms", ok, "the terms are not those of the file")
		ok = isVoc && maps[0] != maps[1] && x.ProveEQ(q, q.G("w").Sub(s.m)) && x.ProveEQ(q, size(maps[1]).Sub(s.m))
		v.obl(q, rVocFile, "all entries, once each", ok, "two terms may share an id, or be missing")
	}
	v.obl(st, rVocFile, "returns", good > 0 && bad > 0, "it never succeeds, or never fails")
}

// writers requires that all that changes a vocabulary was analysed.
func (v *vocab) writers() {
	x := v.x
	isPtr := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(p.Elem(), v.T)
	}
	n := 0
	for _, fn := range x.Prog.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				what := ""
				switch u := in.(type) {
				case *ssa.FieldAddr:
					if !isPtr(u.X.Type()) {
						break
					}
					for _, r := range *u.Referrers() {
						l, ok := r.(*ssa.UnOp)
						if !ok {
							if _, dbg := r.(*ssa.DebugRef); !dbg {
								what = "writes a map of a vocabulary"
							}
							continue
						}
						for _, r := range *l.Referrers() {
							switch r := r.(type) {
							case *ssa.Lookup, *ssa.DebugRef, *ssa.Range:
							case *ssa.Call:
								if bi, ok := r.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
									what = "passes on a map of a vocabulary"
								}
							default:
								what = "changes a map of a vocabulary, or passes it on"
							}
						}
					}
				case *ssa.Store:
					if types.Identical(u.Val.Type(), v.T) {
						what = "writes a whole vocabulary"
					}
				}
				if what == "" {
					continue
				}
				n++
				x.Obl(rVocOnly, core.Short(fn.String())+"|"+what, x.Prog.Pos(in.Pos()), x.Inlined[fn], "%s %s, and is no part of an operation that was analysed", core.Short(fn.String()), what)
			}
		}
	}
	x.Obl(rVocOnly, "found", "", n > 0, "no function makes vocabularies")
}
