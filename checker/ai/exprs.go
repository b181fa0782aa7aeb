package ai

import (
	"strconv"
	"strings"

	"gtcheck/core"
	"gtcheck/rx"
)

// The default expressions: the value of each package variable, and what the
// default constructor puts in the component, have to match the same, at every
// position of every text, as the reference expression.

const rExpr = "the default expression is equivalent to the reference expression"

var references = []struct{ pkg, global, expr string }{
	{"pretokenizers/bytelevelpretokenizer", "DefaultSplittingRegexp", `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`},
	{"pretokenizers/whitespacepretokenizer", "DefaultWordRegexp", `\w+|[^\w\s]+`},
}

// CheckC29 compares the default expressions with the reference ones.
func CheckC29(p *core.Program, r *core.Report) {
	x := nsRun(p, r, rExpr)
	classes, states := 0, 0
	decide := func(key, pos string, v Val, ref string) {
		o, ok := v.(OpaqueV)
		if !ok || !strings.HasPrefix(o.Tag, "regexp2:") {
			x.Obl(rExpr, key, pos, false, "the expression is not known: %T", v)
			return
		}
		t := strings.TrimPrefix(o.Tag, "regexp2:")
		i := strings.LastIndex(t, ":")
		opts, err := -1, error(nil)
		if i >= 0 {
			opts, err = strconv.Atoi(t[i+1:])
		}
		if i < 0 || err != nil {
			x.Obl(rExpr, key, pos, false, "the expression is not constant: %s", t)
			return
		}
		res, err := rx.Equivalent(t[:i], opts, ref, 0)
		states += res.States
		if res.Classes > classes {
			classes = res.Classes
		}
		switch {
		case err != nil:
			x.Obl(rExpr, key, pos, false, "undecided: %v", err)
		case !res.Same:
			x.Obl(rExpr, key, pos, false, "%q with options %d does not match the same as %q: they differ at the start of %q", t[:i], opts, ref, res.Witness)
		default:
			x.Obl(rExpr, key, pos, true, "%q with options %d", t[:i], opts)
		}
	}
	for _, ref := range references {
		path := ref.pkg
		base := x.InitGlobals(NewState(), path)
		g := x.Pkg(path).Var(ref.global)
		if g == nil {
			x.Obl(rExpr, ref.global, "", false, "there is no variable %s", ref.global)
		} else {
			decide(ref.global, x.Prog.Pos(g.Pos()), base.heap[x.Global[g]].V, ref.expr)
		}
		fn := x.Pkg(path).Func("NewDefault")
		if fn == nil {
			x.Obl(rExpr, ref.pkg+".NewDefault", "", false, "there is no default constructor")
			continue
		}
		for _, o := range x.Run(base.Clone(), fn) {
			var v Val
			if pv, ok := o.Ret.(PtrV); ok && !o.Panic && o.St.heap[pv.Obj] != nil {
				if s, ok := o.St.heap[pv.Obj].V.(StructV); ok {
					for _, f := range s.F {
						if t, ok := f.(OpaqueV); ok && strings.HasPrefix(t.Tag, "regexp") {
							v = f
						}
					}
				}
			}
			decide(ref.pkg+".NewDefault", x.Prog.Pos(fn.Pos()), v, ref.expr)
		}
	}
	x.Close("expressions")
	r.Stats["automaton_state_pairs"] = states
	r.Stats["rune_classes"] = classes
	r.Min[rExpr] = 4
}
