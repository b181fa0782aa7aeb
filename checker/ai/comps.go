package ai

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gtcheck/core"
)

const normPkg, prePkg = "normalizers/", "pretokenizers/"

var bools = []bool{false, true}

// components runs every normalizer and pre-tokenizer in every configuration.
func (x *Interp) components() {
	only := os.Getenv("GTCASE")
	do := func(name string, f func()) {
		if only == "" || strings.HasPrefix(name, only) {
			f()
		}
	}
	base := func(pkgs ...string) *State { return x.InitGlobals(NewState(), pkgs...) }
	do("bertnormalizer", func() { x.compBert(base(normPkg + "bertnormalizer")) })
	do("stripnormalizer", func() { x.compStrip(base(normPkg + "stripnormalizer")) })
	do("lowercasenormalizer", func() { x.compLower(base(normPkg + "lowercasenormalizer")) })
	do("sequencenormalizer", func() { x.compSequence(base(normPkg + "sequencenormalizer")) })
	do("bertpretokenizer", func() { x.compBertPre(base(prePkg + "bertpretokenizer")) })
	do("bytelevelpretokenizer", func() { x.compByteLevel() })
	do("metaspacepretokenizer", func() { x.compMetaSpace(base(prePkg + "metaspacepretokenizer")) })
	do("runedelimiterpretokenizer", func() { x.compDelimiter(base(prePkg + "runedelimiterpretokenizer")) })
	do("whitespacepretokenizer", func() { x.compWord(base(prePkg + "whitespacepretokenizer")) })
	do("whitespacesplitpretokenizer", func() { x.compSpaces(base(prePkg + "whitespacesplitpretokenizer")) })
}

func (x *Interp) compBert(base *State) {
	pkg := normPkg + "bertnormalizer"
	mk, def := x.Func(pkg, "NewBertNormalizer"), x.Func(pkg, "DefaultBertNormalizer")
	fn := x.Method(pkg, "BertNormalizer", "Normalize")
	run := func(name string, con *ssa.Function, args []Val, clean, cjk, strip, lower bool) {
		st := base.Clone()
		rules := []string{rOption}
		if clean || cjk || strip {
			rules = append(rules, rClass)
		}
		c := x.newClient(st, "BertNormalizer "+name, fn, rules...)
		c.scriptSpec("Chinese characters between spaces")
		want := ""
		if clean {
			white := Table("White_Space").union(NewSet([2]int64{'\t', '\n'}, [2]int64{'\r', '\r'}))
			del := Table("Other").Minus(NewSet([2]int64{'\t', '\n'}, [2]int64{'\r', '\r'})).union(NewSet([2]int64{0, 0}, [2]int64{0xFFFD, 0xFFFD})).Intersect(ValidRunes)
			p := &partial{del: &RuneSet{}, to: map[string]*RuneSet{}}
			p.add("' '", white)
			p = &partial{del: del, to: map[string]*RuneSet{}}
			p.add("'32'", white.Minus(del))
			want = c.then(want, c.partID(p))
		}
		if cjk {
			want = c.then(want, "script "+c.script)
		}
		if strip {
			want = c.then(want, c.partID(&partial{del: Table("Mn").Intersect(ValidRunes), to: map[string]*RuneSet{}}))
		}
		if lower {
			want = c.then(want, "lower")
		}
		s, v := c.build(st, con, args...)
		if s != nil {
			c.normalize(s, v, fn, want)
		}
	}
	for m := 0; m < 16; m++ {
		b := func(i int) bool { return m>>i&1 == 1 }
		run(fmt.Sprintf("(%v,%v,%v,%v)", b(0), b(1), b(2), b(3)), mk, []Val{BConst(b(0)), BConst(b(1)), BConst(b(2)), BConst(b(3))}, b(0), b(1), b(2), b(3))
	}
	run("by default", def, nil, true, true, true, true)
}

func (x *Interp) compStrip(base *State) {
	pkg := normPkg + "stripnormalizer"
	fn := x.Method(pkg, "StripNormalizer", "Normalize")
	for _, l := range bools {
		for _, r := range bools {
			st := base.Clone()
			c := x.newClient(st, fmt.Sprintf("StripNormalizer(%v,%v)", l, r), fn, rOption)
			s, v := c.build(st, x.Func(pkg, "NewStripNormalizer"), BConst(l), BConst(r))
			if s != nil {
				c.normalize(s, v, fn, trimEffect(l, r))
			}
		}
	}
}

func (x *Interp) compLower(base *State) {
	pkg := normPkg + "lowercasenormalizer"
	fn := x.Method(pkg, "LowerCaseNormalizer", "Normalize")
	st := base.Clone()
	c := x.newClient(st, "LowerCaseNormalizer", fn, rOption)
	s, v := c.build(st, x.Func(pkg, "NewLowerCaseNormalizer"))
	if s != nil {
		c.normalize(s, v, fn, "lower")
	}
}

func (x *Interp) compSequence(base *State) {
	pkg := normPkg + "sequencenormalizer"
	fn := x.Method(pkg, "SequenceNormalizer", "Normalize")
	st := base.Clone()
	c := x.newClient(st, "SequenceNormalizer", fn, rOption)
	n := x.FreshNat(st, "normalizers")
	st.SetG("@n", n)
	st.SetG("@ran", K(0))
	src := &Source{Name: "normalizers", N: n, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
		return []ElemOut{{st, OpaqueV{"norm", []Lin{i}}}}
	}}
	mk := x.Func(pkg, "NewSequenceNormalizer")
	et := mk.Params[0].Type().Underlying().(*types.Slice).Elem()
	id := x.NewObj(st, &Obj{Seq: &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: n}}}, Elem: et, Name: "normalizers", Shared: true})
	x.Stubs["invoke:norm.Normalize"] = func(x *Interp, st *State, call *ssa.CallCommon, a []Val) []Outcome {
		if st.HasG("failed") {
			c.fail(st, "goes on", false, "it goes on after an error")
			return nil
		}
		o, ok := a[1].(OpaqueV)
		c.fail(st, "text", ok && o.Tag == "cns", "a normalizer is given something else than the text")
		i, ran := a[0].(OpaqueV).Idx[0], st.G("@ran")
		c.fail(st, "order", x.ProveEQ(st, i.Sub(ran)), "normalizer %s runs after %s others", st.P.Reduce(i), st.P.Reduce(ran))
		st.SetG("@ran", ran.AddK(1))
		bad := st.Clone()
		bad.SetG("failed", K(1))
		return []Outcome{{St: st, Ret: NilV{}}, {St: bad, Ret: OpaqueV{Tag: "err:operation"}}}
	}
	s, v := c.build(st, mk, SliceV{id, K(0), n})
	if s == nil {
		return
	}
	s.Ambient()
	for _, o := range x.Run(s, fn, v, c.cns) {
		if o.Panic || o.St.unreachable() {
			continue
		}
		_, isNil := o.Ret.(NilV)
		if o.St.HasG("failed") {
			e, ok := o.Ret.(OpaqueV)
			c.fail(o.St, "error", ok && strings.HasPrefix(e.Tag, "err:"), "an error of a normalizer is dropped")
			continue
		}
		c.fail(o.St, "no error", isNil, "it fails although no normalizer fails")
		c.fail(o.St, "all", x.ProveEQ(o.St, o.St.G("@ran").Sub(o.St.G("@n"))), "not every normalizer runs")
		c.expect(o.St, "effects", []string{""})
	}
}

func exactly(ts ...string) func(st *State) []string {
	return func(st *State) []string { return []string{strings.Join(ts, ";")} }
}

func (c *clientRun) runes(s *RuneSet) string {
	return c.patID(&pattern{kind: "set", set: s.Intersect(ValidRunes)})
}

func (x *Interp) compBertPre(base *State) {
	pkg := prePkg + "bertpretokenizer"
	fn := x.Method(pkg, "BertPreTokenizer", "PreTokenize")
	st := base.Clone()
	c := x.newClient(st, "BertPreTokenizer", fn, rClass, rPattern)
	s, v := c.build(st, x.Func(pkg, "New"))
	if s != nil {
		c.pretokenize(s, v, fn,
			clientStep{"Split", exactly("split at " + c.runes(Table("White_Space")) + " Removed")},
			clientStep{"Split", exactly("split at " + c.runes(Table("Punct")) + " Isolated")})
	}
}

func (x *Interp) compSpaces(base *State) {
	pkg := prePkg + "whitespacesplitpretokenizer"
	fn := x.Method(pkg, "WhiteSpaceSplitPreTokenizer", "PreTokenize")
	st := base.Clone()
	c := x.newClient(st, "WhiteSpaceSplitPreTokenizer", fn, rClass, rPattern)
	s, v := c.build(st, x.Func(pkg, "New"))
	if s != nil {
		c.pretokenize(s, v, fn, clientStep{"Split", exactly("split at " + c.runes(Table("White_Space")) + " Removed")})
	}
}

// replacement declares an arbitrary rune of a configuration.
func (c *clientRun) replacement(st *State) Lin {
	r := c.x.Fresh("replacement")
	c.x.addSet(st, r, ValidRunes)
	c.rep = &r
	return r
}

func (x *Interp) compDelimiter(base *State) {
	pkg := prePkg + "runedelimiterpretokenizer"
	fn := x.Method(pkg, "RuneDelimiterPreTokenizer", "PreTokenize")
	st := base.Clone()
	c := x.newClient(st, "RuneDelimiterPreTokenizer", fn, rOption, rPattern)
	r := c.replacement(st)
	s, v := c.build(st, x.Func(pkg, "New"), IntV{L: r})
	if s != nil {
		c.pretokenize(s, v, fn, clientStep{"Split", exactly("split at rune replacement Removed")})
	}
}

func (x *Interp) compWord(base *State) {
	pkg := prePkg + "whitespacepretokenizer"
	fn := x.Method(pkg, "WhiteSpacePreTokenizer", "PreTokenize")
	for _, con := range []string{"New", "NewDefault"} {
		st := base.Clone()
		c := x.newClient(st, "WhiteSpacePreTokenizer "+con, fn, rOption, rPattern)
		re := OpaqueV{Tag: "expression"}
		var args []Val
		if con == "New" {
			args = append(args, re)
		} else {
			re = x.globalTag(st, pkg, "DefaultWordRegexp")
		}
		s, v := c.build(st, x.Func(pkg, con), args...)
		if s != nil {
			c.pretokenize(s, v, fn, clientStep{"Split", exactly("split at not regexp2 " + re.Tag + " Removed")})
		}
	}
}

// globalTag is the opaque value of a package variable.
func (x *Interp) globalTag(st *State, pkg, name string) OpaqueV {
	g, ok := x.Pkg(pkg).Members[name].(*ssa.Global)
	if !ok {
		panic("variable " + pkg + "." + name + " not found")
	}
	o, ok := st.heap[x.Global[g]].V.(OpaqueV)
	if !ok {
		panic("variable " + pkg + "." + name + " is not understood")
	}
	return o
}

// prefix is the condition for a prefix: the first rune exists and is in set.
func (c *clientRun) starts(st *State, in func(st *State, r Lin) *Formula) int {
	x := c.x
	save := c.trace(st)
	st.SetGV("trace", OpaqueV{Tag: ""})
	b := c.text(st)
	st.SetGV("trace", OpaqueV{Tag: save})
	if x.ProveEQ(st, b.N) || x.ProveEQ(st, b.R) {
		return -1
	}
	s := st.Clone()
	x.Saturate(s)
	sts := x.Assume(s, FAnd(FGE(b.R.AddK(-1)), FGE(b.N.AddK(-1))))
	empty := !x.ProveGE(st, b.N.AddK(-1)) && !x.ProveGE(st, b.R.AddK(-1))
	res := 0
	for _, t := range sts {
		r := x.RuneAt(t, b, K(0))
		d := x.Decide(t, in(t, r))
		if d == 0 || res != 0 && d != res {
			return 0
		}
		res = d
	}
	if empty && res == 1 {
		return 0
	}
	if len(sts) == 0 {
		return -1
	}
	return res
}

func (x *Interp) compMetaSpace(base *State) {
	pkg := prePkg + "metaspacepretokenizer"
	fn := x.Method(pkg, "MetaSpacePreTokenizer", "PreTokenize")
	for _, cfg := range []string{"New(r,false)", "New(r,true)", "NewDefault"} {
		st := base.Clone()
		c := x.newClient(st, "MetaSpacePreTokenizer "+cfg, fn, rOption, rPattern)
		var s *State
		var v Val
		add, content, delim, pat := true, "replacement", Lin{}, "runes {0x20}"
		pat = c.runes(NewSet([2]int64{' ', ' '}))
		cut := "rune replacement"
		if cfg == "NewDefault" {
			delim = K('▁')
			content = fmt.Sprintf("%q", "▁")
			cut = c.runes(NewSet([2]int64{'▁', '▁'}))
			s, v = c.build(st, x.Func(pkg, "NewDefault"))
		} else {
			delim = c.replacement(st)
			add = cfg == "New(r,true)"
			s, v = c.build(st, x.Func(pkg, "New"), IntV{L: delim}, BConst(add))
		}
		if s == nil {
			continue
		}
		rest := "replace " + pat + " by " + content + ";split at " + cut + " MergedWithNext"
		c.pretokenize(s, v, fn, clientStep{"Split", func(st *State) []string {
			if !add {
				return []string{rest}
			}
			switch c.starts(st, func(st *State, r Lin) *Formula { return FEQ(r.Sub(delim)) }) {
			case 1:
				return []string{rest}
			case -1:
				return []string{"prepend " + content + ";" + rest}
			}
			return []string{"a prefix, depending on the text, which is not examined"}
		}})
	}
}

func (x *Interp) compByteLevel() {
	pkg := prePkg + "bytelevelpretokenizer"
	fn := x.Method(pkg, "ByteLevelPreTokenizer", "PreTokenize")
	base := x.byteTable(pkg)
	for _, cfg := range []struct {
		name      string
		add, trim bool
	}{{"New(false,false)", false, false}, {"New(true,false)", true, false}, {"New(false,true)", false, true}, {"New(true,true)", true, true}, {"NewDefault", true, true}} {
		st := base.Clone()
		c := x.newClient(st, "ByteLevelPreTokenizer "+cfg.name, fn, rOption, rPattern, rTable)
		c.scriptSpec("bytes")
		re := OpaqueV{Tag: "expression"}
		var s *State
		var v Val
		if cfg.name == "NewDefault" {
			re = x.globalTag(st, pkg, "DefaultSplittingRegexp")
			s, v = c.build(st, x.Func(pkg, "NewDefault"))
		} else {
			s, v = c.build(st, x.Func(pkg, "New"), re, BConst(cfg.add), BConst(cfg.trim))
		}
		if s == nil {
			continue
		}
		cut := "split at regexp2 " + re.Tag + " Isolated"
		add := cfg.add
		c.pretokenize(s, v, fn, clientStep{"Split", func(st *State) []string {
			if !add {
				return []string{cut}
			}
			switch c.starts(st, func(st *State, r Lin) *Formula { return x.inSet(st, r, Table("White_Space")) }) {
			case 1:
				return []string{cut}
			case -1:
				return []string{"prepend \" \";" + cut}
			}
			return []string{"a prefix, depending on the text, which is not examined"}
		}}, clientStep{"Normalize", exactly("script bytes")})
	}
}

// byteTable verifies the table from bytes to runes, which is then known by its
// name only.
func (x *Interp) byteTable(pkg string) *State {
	x.Decl(&Fam{Name: "b2r", OnNew: func(x *Interp, st *State, i, v Lin) { x.addSet(st, v, ValidRunes) }})
	printable := func(i Lin) *Formula {
		f := FBool(false)
		for _, r := range [][2]int64{{0x21, 0x7E}, {0xA1, 0xAC}, {0xAE, 0xFF}} {
			f = FOr(f, FAnd(FGE(i.AddK(-r[0])), FGE(K(r[1]).Sub(i))))
		}
		return f
	}
	n256 := K(256)
	x.countIdx("odd", n256, func(x *Interp, st *State, i Lin) *Formula { return FNot(printable(i)) })
	p := x.Pkg(pkg)
	var table *ssa.Global
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if a, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && a.Len() == 256 && types.Identical(a.Elem().Underlying(), types.Typ[types.Int32]) {
			table = g
		}
	}
	pos := ""
	if table != nil {
		pos = x.Prog.Pos(table.Pos())
	}
	x.Obl(rTable, "table|exists", pos, table != nil, "there is no table of a rune for each byte")
	if table == nil {
		return x.InitGlobals(NewState(), pkg)
	}
	x.Specs = nil
	elem := table.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
	x.Spec(elem, &ChainSpec{
		Name:  "table",
		All:   true,
		Index: true,
		Init:  func(x *Interp, st *State) []Val { return nil },
		Push: func(x *Interp, st *State, r []Val, n Lin, v Val) []Val {
			rv := v.(IntV).L
			ok := true
			yes, no := x.ForkBool(st.Clone(), printable(n))
			for _, s := range yes {
				ok = ok && x.ProveEQ(s, rv.Sub(n))
			}
			for _, s := range no {
				odd := x.App(s, "odd", n)
				x.relink(s)
				ok = ok && x.ProveEQ(s, rv.Sub(odd).AddK(-256))
			}
			x.App(st, "odd", n)
			x.App(st, "odd", n.AddK(1))
			if !st.unreachable() {
				x.Obl(rTable, "table|entry", pos, ok, "byte %s is written as rune %s", st.P.Reduce(n), st.P.Reduce(rv))
			}
			return nil
		},
	})
	x.LoudInit = true
	st := x.InitGlobals(NewState(), pkg)
	x.LoudInit = false
	id := x.Global[table]
	o := *st.heap[id]
	c := x.ChainOf(st, SliceV{id, K(0), n256}, elem)
	x.Obl(rTable, "table|complete", pos, c != nil && x.ProveEQ(st, c.N.Sub(n256)), "the table is not built entry by entry")
	src := &Source{Name: "table", N: n256, Elem: func(x *Interp, st *State, i Lin) []ElemOut {
		return []ElemOut{{st, IntV{L: x.App(st, "b2r", i)}}}
	}}
	o.Seq = &Seq{[]Seg{{Kind: sSrc, Src: src, Lo: K(0), Hi: n256}}}
	o.Bad, o.Name, o.Shared = "", table.String(), true
	st.heap[id] = &o
	x.Specs = nil
	return st
}

func clientCheck(p *core.Program, r *core.Report, rules ...string) {
	x := nsRun(p, r, append(rules, rPass, rFrozen)...)
	x.components()
	x.Close("normalizers and pre-tokenizers")
}

// CheckC23 decides the byte-level alphabet.
func CheckC23(p *core.Program, r *core.Report) {
	x := nsRun(p, r, rTable, rPass)
	x.compByteLevel()
	x.Close("byte-level pre-tokenizer")
	r.Min[rTable] = 10
}

// CheckC24 decides the classes of characters.
func CheckC24(p *core.Program, r *core.Report) {
	t := nsRun(p, r, rTrim)
	t.checkTrim(t.InitGlobals(NewState(), nsPkg))
	t.Close("trimming")
	x := nsRun(p, r, rClass, rPass)
	x.components()
	x.Close("normalizers and pre-tokenizers")
	r.Min[rClass], r.Min[rTrim] = 10, 10
}

// CheckC25 decides what the options do.
func CheckC25(p *core.Program, r *core.Report) {
	clientCheck(p, r, rOption)
	modelOptions(p, r)
	r.Min[rOption] = 30
}

// CheckC26 decides where pre-tokenizers cut.
func CheckC26(p *core.Program, r *core.Report) {
	clientCheck(p, r, rPattern)
	r.Min[rPattern] = 20
}
