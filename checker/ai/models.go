package ai

import (
	"fmt"
	"go/constant"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// models describe the functions of the standard library.
var models map[string]Stub

var setCache = map[string]*RuneSet{}

// enum lists the code points for which f holds.
func enum(name string, f func(r rune) bool) *RuneSet {
	if s := setCache[name]; s != nil {
		return s
	}
	s := &RuneSet{}
	for r := rune(0); r <= maxRune; r++ {
		if !f(r) {
			continue
		}
		if n := len(s.R); n > 0 && s.R[n-1][1] == int64(r)-1 {
			s.R[n-1][1]++
		} else {
			s.R = append(s.R, [2]int64{int64(r), int64(r)})
		}
	}
	setCache[name] = s
	return s
}

var tableNames map[string]*unicode.RangeTable

func init() {
	tableNames = map[string]*unicode.RangeTable{}
	for n, t := range unicode.Categories {
		tableNames[n] = t
	}
	for n, t := range unicode.Scripts {
		tableNames[n] = t
	}
	for n, t := range unicode.Properties {
		tableNames[n] = t
	}
	for n, c := range map[string]string{"Other": "C", "Letter": "L", "Mark": "M", "Number": "N", "Punct": "P", "Symbol": "S", "Space": "Z",
		"Upper": "Lu", "Lower": "Ll", "Title": "Lt", "Digit": "Nd"} {
		tableNames[n] = unicode.Categories[c]
	}
}

// Table is the set of a range table of the unicode package.
func Table(name string) *RuneSet {
	t := tableNames[name]
	if t == nil {
		return nil
	}
	return enum("table "+name, func(r rune) bool { return unicode.Is(t, r) })
}

// tableSet is the set denoted by a *unicode.RangeTable value.
func (x *Interp) tableSet(st *State, v Val) *RuneSet {
	switch v := (v).(type) {
	case OpaqueV:
		return Table(strings.TrimPrefix(v.Tag, "g:unicode."))
	case PtrV:
		es := x.load(st, v, nil, 0)
		if len(es) != 1 {
			return nil
		}
		s, ok := es[0].V.(StructV)
		if !ok {
			return nil
		}
		out := &RuneSet{}
		for _, f := range s.F[:2] {
			sl, ok := f.(SliceV)
			if !ok {
				return nil
			}
			segs, ok := x.contents(st, sl)
			if !ok {
				return nil
			}
			for _, g := range segs {
				if g.Kind != sElems {
					return nil
				}
				for _, e := range g.Elems {
					rs, ok := (e).(StructV)
					if !ok {
						return nil
					}
					var n [3]int64
					for i := range n {
						c, ok := st.P.Reduce(rs.F[i].(IntV).L).Const()
						if !ok {
							return nil
						}
						n[i] = c
					}
					if n[2] == 1 {
						out = out.union(NewSet([2]int64{n[0], n[1]}))
					} else if n[2] > 1 {
						for r := n[0]; r <= n[1]; r += n[2] {
							out = out.union(NewSet([2]int64{r, r}))
						}
					}
				}
			}
		}
		return out
	}
	return nil
}

func (x *Interp) inTables(st *State, r Lin, vs []Val) []Outcome {
	set := &RuneSet{}
	for _, v := range vs {
		s := x.tableSet(st, v)
		if s == nil {
			x.Unsupported("range table", fmt.Sprintf("unknown range table %v", v))
			return one(st, BoolV{x.freshBool(st)})
		}
		set = set.union(s)
	}
	return one(st, BoolV{x.inSet(st, r, set)})
}

func (x *Interp) inSet(st *State, r Lin, set *RuneSet) *Formula {
	if c, ok := st.P.Reduce(r).Const(); ok {
		return FBool(set.Has(c))
	}
	return FIn(r, set)
}

func (x *Interp) sliceElems(st *State, v Val) ([]Val, bool) {
	s, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	segs, ok := x.contents(st, s)
	if !ok {
		return nil, false
	}
	var out []Val
	for _, g := range segs {
		if g.Kind != sElems {
			return nil, false
		}
		out = append(out, g.Elems...)
	}
	return out, true
}

func (x *Interp) builderOf(st *State, v Val) (BuilderV, bool) {
	es := x.load(st, v, nil, 0)
	if len(es) != 1 {
		return BuilderV{}, false
	}
	b, ok := es[0].V.(BuilderV)
	return b, ok
}

func (x *Interp) builderWrite(st *State, p Val, s StrV) {
	b, ok := x.builderOf(st, p)
	if !ok {
		x.Unsupported("builder", "unknown strings.Builder")
		return
	}
	if x.OnWrite != nil {
		x.OnWrite(x, st, s)
	}
	n := x.concat(st, b.S, s)
	if len(n.P) > 4 {
		n = collapse(n)
	}
	x.store(st, p, BuilderV{n}, 0)
}

// PredStub models a predicate on runes by its exact set.
func predModel(name string, f func(r rune) bool) Stub {
	return func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		return one(st, BoolV{x.inSet(st, a[0].(IntV).L, enum(name, f))})
	}
}

func mapModel(name string, f func(r rune) rune) Stub {
	return func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		return one(st, image(a[0], name, x.RuneMap(st, name, a[0].(IntV).L, f)))
	}
}

// RuneMap applies an uninterpreted function from code points to code points.
func (x *Interp) RuneMap(st *State, name string, r Lin, f func(r rune) rune) Lin {
	if c, ok := st.P.Reduce(r).Const(); ok && f != nil {
		return K(int64(f(rune(c))))
	}
	fam := "map:" + name
	if x.fams[fam] == nil {
		x.Decl(&Fam{Name: fam, OnNew: func(x *Interp, st *State, i, v Lin) { x.addSet(st, v, ValidRunes) }})
	}
	return x.App(st, fam, r)
}

func strArg(v Val) StrV {
	switch v := v.(type) {
	case StrV:
		return v
	case IfaceV:
		if s, ok := v.V.(StrV); ok {
			return s
		}
	}
	return StrV{}
}

func (x *Interp) newErr(name string) Val { return OpaqueV{Tag: "err:" + name} }

func opaqueErr(name string) Stub {
	return func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return one(st, x.newErr(name)) }
}

func init() {
	models = map[string]Stub{
		"unicode.In": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			es, ok := x.sliceElems(st, a[1])
			if !ok {
				x.Unsupported("unicode.In", "unknown tables")
				return one(st, BoolV{x.freshBool(st)})
			}
			return x.inTables(st, a[0].(IntV).L, es)
		},
		"unicode.IsOneOf": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			es, ok := x.sliceElems(st, a[0])
			if !ok {
				x.Unsupported("unicode.IsOneOf", "unknown tables")
				return one(st, BoolV{x.freshBool(st)})
			}
			return x.inTables(st, a[1].(IntV).L, es)
		},
		"unicode.Is": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			return x.inTables(st, a[1].(IntV).L, a[:1])
		},
		"unicode.IsSpace":   predModel("unicode.IsSpace", unicode.IsSpace),
		"unicode.IsPunct":   predModel("unicode.IsPunct", unicode.IsPunct),
		"unicode.IsControl": predModel("unicode.IsControl", unicode.IsControl),
		"unicode.IsLetter":  predModel("unicode.IsLetter", unicode.IsLetter),
		"unicode.IsDigit":   predModel("unicode.IsDigit", unicode.IsDigit),
		"unicode.IsNumber":  predModel("unicode.IsNumber", unicode.IsNumber),
		"unicode.IsMark":    predModel("unicode.IsMark", unicode.IsMark),
		"unicode.IsGraphic": predModel("unicode.IsGraphic", unicode.IsGraphic),
		"unicode.IsPrint":   predModel("unicode.IsPrint", unicode.IsPrint),
		"unicode.IsSymbol":  predModel("unicode.IsSymbol", unicode.IsSymbol),
		"unicode.IsUpper":   predModel("unicode.IsUpper", unicode.IsUpper),
		"unicode.IsLower":   predModel("unicode.IsLower", unicode.IsLower),
		"unicode.IsTitle":   predModel("unicode.IsTitle", unicode.IsTitle),
		"unicode.ToLower":   mapModel("unicode.ToLower", unicode.ToLower),
		"unicode.ToUpper":   mapModel("unicode.ToUpper", unicode.ToUpper),
		"unicode.ToTitle":   mapModel("unicode.ToTitle", unicode.ToTitle),

		"unicode/utf8.RuneLen": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			r := a[0].(IntV).L
			var out []Outcome
			yes, no := x.ForkBool(st, x.inSet(st, r, ValidRunes))
			for _, s := range yes {
				out = append(out, Outcome{St: s, Ret: IntV{L: x.width(s, r)}})
			}
			for _, s := range no {
				out = append(out, Outcome{St: s, Ret: IntV{L: K(-1)}})
			}
			return out
		},
		"unicode/utf8.ValidRune": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			return one(st, BoolV{x.inSet(st, a[0].(IntV).L, ValidRunes)})
		},
		"unicode/utf8.ValidString": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return one(st, BConst(true)) },
		"unicode/utf8.RuneStart": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			return one(st, BoolV{FNot(x.inSet(st, a[0].(IntV).L, NewSet([2]int64{0x80, 0xBF})))})
		},
		"unicode/utf8.RuneCountInString": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			_, k, khi, _ := x.asSub(st, a[0].(StrV), "rune count", c.Pos())
			return one(st, IntV{L: khi.Sub(k)})
		},
		"unicode/utf8.DecodeLastRuneInString": decodeModel(true),
		"unicode/utf8.DecodeRuneInString":     decodeModel(false),

		"errors.New": opaqueErr("errors.New"),
		"fmt.Errorf": opaqueErr("fmt.Errorf"),
		"fmt.Println": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			return one(st, TupleV{IntV{L: K(0)}, NilV{}})
		},
		"fmt.Sprintf": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			return one(st, x.sprintf(st, a))
		},
		"fmt.Sprint": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			return one(st, x.someStr(x.FreshNat(st, "strlen")))
		},
		"strings.HasPrefix": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome { return x.hasPrefix(st, a, c) },
		"strings.HasSuffix": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			d := strLen0(a[0].(StrV)).Sub(strLen0(a[1].(StrV)))
			if st.P.Reduce(strLen0(a[1].(StrV))).IsK(0) {
				return one(st, BConst(true))
			}
			return one(st, BoolV{FAnd(FGE(d), x.freshBool(st))})
		},
		"strings.Join":   anyStr,
		"strings.Repeat": anyStr,

		"(*strings.Builder).WriteRune": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			s := x.runeStr(st, a[1].(IntV))
			x.builderWrite(st, a[0], s)
			return one(st, TupleV{IntV{L: strLen0(s)}, NilV{}})
		},
		"(*strings.Builder).WriteString": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			s := a[1].(StrV)
			x.builderWrite(st, a[0], s)
			return one(st, TupleV{IntV{L: strLen0(s)}, NilV{}})
		},
		"(*strings.Builder).WriteByte": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			b := a[1].(IntV).L
			if v, ok := st.P.Reduce(b).Const(); ok && v < 0x80 {
				x.builderWrite(st, a[0], Lit(string(rune(v))))
			} else {
				x.builderWrite(st, a[0], x.someStr(K(1)))
			}
			return one(st, NilV{})
		},
		"(*strings.Builder).String": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			b, ok := x.builderOf(st, a[0])
			if !ok {
				return one(st, x.someStr(x.FreshNat(st, "strlen")))
			}
			return one(st, b.S)
		},
		"(*strings.Builder).Len": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			b, _ := x.builderOf(st, a[0])
			return one(st, IntV{L: strLen0(b.S)})
		},
		"(*strings.Builder).Grow": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			var out []Outcome
			for _, s := range x.require(st, FGE(a[1].(IntV).L), "Grow", c.Pos()) {
				out = append(out, Outcome{St: s, Ret: TupleV{}})
			}
			return out
		},
		"(*strings.Builder).Reset": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			x.store(st, a[0], BuilderV{}, 0)
			return one(st, TupleV{})
		},
		"regexp.QuoteMeta": func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
			if t, ok := asLit(a[0].(StrV)); ok && t == "" {
				return one(st, StrV{})
			}
			if q := a[0].(StrV).P; len(q) == 1 && q[0].Kind == pSub && x.isSub(st, a[0].(StrV), q[0].Base, K(0), q[0].Base.N) {
				return one(st, OpaqueV{Tag: "quoted:" + q[0].Base.posFam()})
			}
			return one(st, OpaqueV{Tag: "quoted:?"})
		},
		"regexp.MustCompile":                     compileModel("regexp"),
		"github.com/dlclark/regexp2.MustCompile": compileModel("regexp2"),
	}
}

func anyStr(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
	return one(st, x.someStr(x.FreshNat(st, "strlen")))
}

func compileModel(kind string) Stub {
	return func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		tag := kind
		for _, v := range a {
			switch v := v.(type) {
			case StrV:
				if t, ok := asLit(v); ok {
					tag += ":" + t
				} else {
					tag += ":?"
				}
			case IntV:
				tag += ":" + st.P.Reduce(v.L).String()
			case OpaqueV:
				tag += ":" + v.Tag
			}
		}
		return one(st, OpaqueV{Tag: tag})
	}
}

func decodeModel(last bool) Stub {
	return func(x *Interp, st *State, c *ssa.CallCommon, a []Val) []Outcome {
		s := a[0].(StrV)
		var out []Outcome
		yes, no := x.ForkBool(st, FGE(strLen0(s).AddK(-1)))
		for _, t := range no {
			out = append(out, Outcome{St: t, Ret: TupleV{IntV{L: K(utf8.RuneError)}, IntV{L: K(0)}}})
		}
		for _, t := range yes {
			b, k, khi, _ := x.asSub(t, s, "decode", c.Pos())
			i := k
			if last {
				i = khi.AddK(-1)
			}
			x.Saturate(t)
			if t.dead || t.P.bot {
				continue
			}
			r := x.RuneAt(t, b, i)
			w := x.App(t, b.posFam(), i.AddK(1)).Sub(x.App(t, b.posFam(), i))
			out = append(out, Outcome{St: t, Ret: TupleV{intAt(b, i, r), IntV{L: w}}})
		}
		return out
	}
}

func (x *Interp) hasPrefix(st *State, a []Val, c *ssa.CallCommon) []Outcome {
	s, p := a[0].(StrV), a[1].(StrV)
	if st.P.Reduce(strLen0(p)).IsK(0) {
		return one(st, BConst(true))
	}
	t, lit := asLit(p)
	single := lit && utf8.RuneCountInString(t) == 1
	var r0 Lin
	if single {
		r, _ := utf8.DecodeRuneInString(t)
		r0 = K(int64(r))
	} else if len(p.P) == 1 && p.P[0].Kind == pRune {
		single, r0 = true, p.P[0].Lo
	}
	if single {
		var out []Outcome
		yes, no := x.ForkBool(st, FGE(strLen0(s).AddK(-1)))
		for _, q := range no {
			out = append(out, Outcome{St: q, Ret: BConst(false)})
		}
		for _, q := range yes {
			b, k, _, _ := x.asSub(q, s, "prefix", c.Pos())
			x.Saturate(q)
			r := x.RuneAt(q, b, k)
			out = append(out, Outcome{St: q, Ret: BoolV{FEQ(r.Sub(r0))}})
		}
		return out
	}
	d := strLen0(s).Sub(strLen0(p))
	return one(st, BoolV{FAnd(FGE(d), x.freshBool(st))})
}

func (x *Interp) sprintf(st *State, a []Val) Val {
	f, ok := asLit(a[0].(StrV))
	var args []Val
	ok2 := true
	if sv, isS := a[1].(SliceV); isS {
		args, ok2 = x.sliceElems(st, sv)
	}
	if !ok || !ok2 {
		return x.someStr(x.FreshNat(st, "strlen"))
	}
	var parts []StrV
	lit := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		j := i
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[j]
		parts = append(parts, Lit(lit))
		lit = ""
		var arg Val
		if n < len(args) {
			arg = (args[n])
		}
		n++
		done := false
		if iv, isI := arg.(IfaceV); isI && j == i {
			switch v := iv.V.(type) {
			case StrV:
				if verb == 's' || verb == 'v' {
					parts = append(parts, v)
					done = true
				}
			case IntV:
				if verb == 'c' {
					parts = append(parts, x.runeStr(st, v))
					done = true
				}
			}
		}
		if !done {
			parts = append(parts, x.someStr(x.FreshNat(st, "strlen")))
		}
		i = j
	}
	parts = append(parts, Lit(lit))
	return x.concat(st, parts...)
}

var _ = constant.Bool
