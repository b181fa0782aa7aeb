package ai

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Poly is a convex polyhedron over integer symbols: a system of linear
// equalities in solved form (pivot = expression without pivots) and
// inequalities (>= 0) over the non-pivot symbols.
type Poly struct {
	eq  map[Sym]Lin
	ge  []Lin
	bot bool
	pts []point // points of the inequalities: quick refutations
	yes *known  // entailed expressions (they stay entailed)
}

type known struct {
	up    *known
	m     map[string]struct{}
	depth int
}

func (k *known) has(s string) bool {
	for ; k != nil; k = k.up {
		if _, ok := k.m[s]; ok {
			return true
		}
	}
	return false
}

func (k *known) add(s string) { k.m[s] = struct{}{} }

// fork gives a cache on top of k.
func (k *known) fork() *known {
	n := &known{up: k, m: map[string]struct{}{}}
	if k != nil {
		if len(k.m) == 0 {
			n.up = k.up
		}
		n.depth = k.depth + 1
		if n.depth > 6 {
			m := map[string]struct{}{}
			c := 0
			for q := k; q != nil && c < 4000; q = q.up {
				for s := range q.m {
					m[s] = struct{}{}
					c++
				}
			}
			n.up, n.depth = &known{m: m}, 1
		}
	}
	return n
}

// AddGEnew adds l >= 0 unless it follows.
func (p *Poly) AddGEnew(l Lin) {
	if !p.EntailsGE(l) {
		p.AddGE(l)
	}
}

// point is a rational point of the inequalities; absent symbols are 0.
type point map[Sym]rat

func (pt point) eval(l Lin) (v rat, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, o := r.(ovErr); !o {
				panic(r)
			}
			ok = false
		}
	}()
	v = rat{l.c, 1}
	for _, t := range l.t {
		if a := pt[t.s]; a.d != 0 && a.n != 0 {
			if t.c == 1 {
				v = v.add(a)
			} else {
				v = v.add(a.mul(rat{t.c, 1}))
			}
		}
	}
	return v, true
}

const maxPts = 12

// violated reports whether a known point has l < 0.
func (p *Poly) violated(l Lin) bool {
	for i := len(p.pts) - 1; i >= 0; i-- {
		if v, ok := p.pts[i].eval(l); ok && v.n <= -v.d {
			return true
		}
	}
	return false
}

// filterPts keeps the points with l >= 0.
func (p *Poly) filterPts(l Lin) {
	if len(p.pts) == 0 {
		return
	}
	out := make([]point, 0, len(p.pts))
	for _, pt := range p.pts {
		if v, ok := pt.eval(l); ok && v.n >= 0 {
			out = append(out, pt)
		}
	}
	p.pts = out
}

// addPoint completes a point of the constraints cons and remembers it.
func (p *Poly) addPoint(part point, touched map[Sym]bool) {
	// the rest from a known point
	if len(p.pts) > 0 {
		base := p.pts[len(p.pts)-1]
		for s, v := range base {
			if !touched[s] {
				part[s] = v
			}
		}
	}
	for _, g := range p.ge {
		if v, ok := part.eval(g); !ok || v.n < 0 {
			return
		}
	}
	if len(p.pts) >= maxPts {
		p.pts = append([]point(nil), p.pts[1:]...)
	} else {
		p.pts = p.pts[:len(p.pts):len(p.pts)]
	}
	p.pts = append(p.pts, part)
}

func NewPoly() *Poly { return &Poly{eq: map[Sym]Lin{}} }

func (p *Poly) Clone() *Poly {
	q := &Poly{eq: make(map[Sym]Lin, len(p.eq)), bot: p.bot, pts: p.pts[:len(p.pts):len(p.pts)], yes: p.yes.fork()}
	if p.yes != nil {
		p.yes = p.yes.fork()
	}
	for s, l := range p.eq {
		q.eq[s] = l
	}
	q.ge = append([]Lin(nil), p.ge...)
	return q
}

func (p *Poly) Reduce(l Lin) Lin {
	need := false
	for _, t := range l.t {
		if _, ok := p.eq[t.s]; ok {
			need = true
			break
		}
	}
	if !need {
		return l
	}
	r := K(l.c)
	for _, t := range l.t {
		if e, ok := p.eq[t.s]; ok {
			r = r.addMul(t.c, e)
		} else {
			r = r.addMul(t.c, V(t.s))
		}
	}
	return r
}

func (p *Poly) setBot() { p.bot = true; p.eq = map[Sym]Lin{}; p.ge = nil; p.pts = nil }

// AddEq adds l == 0.
func (p *Poly) AddEq(l Lin) {
	if p.bot {
		return
	}
	l = p.Reduce(l)
	if len(l.t) == 0 {
		if l.c != 0 {
			p.setBot()
		}
		return
	}
	g := l.contentGCD()
	if g > 1 {
		if l.c%g != 0 {
			p.setBot()
			return
		}
		l = l.normGE()
	}
	// Pivot: the newest symbol with a unit coefficient.
	best := -1
	for i, t := range l.t {
		if t.c == 1 || t.c == -1 {
			if best < 0 || abs(t.s) > abs(l.t[best].s) {
				best = i
			}
		}
	}
	if best < 0 {
		p.addGE(l)
		p.addGE(l.Neg())
		return
	}
	p.pivot(l, l.t[best].s)
}

func abs(s Sym) Sym {
	if s < 0 {
		return -s
	}
	return s
}

func (p *Poly) pivot(l Lin, s Sym) {
	c := l.coef(s) // +-1
	e := l.addMul(-c, V(s))
	if c == 1 {
		e = e.Neg()
	}
	for k, r := range p.eq {
		if r.coef(s) != 0 {
			p.eq[k] = r.subst(s, e)
		}
	}
	p.eq[s] = e
	old := p.ge
	p.ge = nil
	if len(p.pts) > 0 {
		// keep the points where s equals e (s unconstrained: any point)
		used := false
		for _, g := range old {
			if g.coef(s) != 0 {
				used = true
				break
			}
		}
		if used {
			d := e.Sub(V(s))
			p.filterPts(d)
			p.filterPts(d.Neg())
		}
	}
	var redo []Lin
	for _, g := range old {
		if g.coef(s) != 0 {
			redo = append(redo, g.subst(s, e))
		} else {
			p.ge = append(p.ge, g)
		}
	}
	for _, g := range redo {
		p.addGE(g)
	}
}

// AddGE adds l >= 0.
func (p *Poly) AddGE(l Lin) {
	if p.bot {
		return
	}
	p.addGE(p.Reduce(l))
}

func (p *Poly) addGE(l Lin) {
	if p.bot {
		return
	}
	l = p.Reduce(l)
	if len(l.t) == 0 {
		if l.c < 0 {
			p.setBot()
		}
		return
	}
	l = l.normGE()
	for i, g := range p.ge {
		if g.sameLinear(l) {
			if l.c >= g.c {
				return
			}
			p.ge = append(append(append([]Lin(nil), p.ge[:i]...), p.ge[i+1:]...), l)
			p.filterPts(l)
			p.checkOpp(l)
			return
		}
	}
	p.ge = append(p.ge, l)
	p.filterPts(l)
	p.checkOpp(l)
}

func (p *Poly) checkOpp(l Lin) {
	for _, g := range p.ge {
		if g.oppLinear(l) {
			sum := g.c + l.c
			if sum < 0 {
				p.setBot()
				return
			}
			if sum == 0 {
				// Equality.
				var rest []Lin
				for _, h := range p.ge {
					if !(h.Eq(g) || h.Eq(l)) {
						rest = append(rest, h)
					}
				}
				hasUnit := false
				for _, t := range l.t {
					if t.c == 1 || t.c == -1 {
						hasUnit = true
					}
				}
				if hasUnit {
					p.ge = rest
					p.AddEq(l)
				}
				return
			}
		}
	}
}

// LPCount counts simplex calls (reported in evidence).
var LPCount int

// relevant returns the inequalities connected to the symbols of l.
func relevant(ge []Lin, l Lin) []Lin {
	seen := map[Sym]bool{}
	for _, t := range l.t {
		seen[t.s] = true
	}
	used := make([]bool, len(ge))
	var out []Lin
	for changed := true; changed; {
		changed = false
		for i, g := range ge {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range g.t {
				if seen[t.s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, g)
				for _, t := range g.t {
					seen[t.s] = true
				}
			}
		}
	}
	return out
}

// EntailsGE reports whether every integer point of p satisfies l >= 0
// (decided over the rationals, after integer tightening).
func (p *Poly) EntailsGE(l Lin) bool {
	if p.bot {
		return true
	}
	l = p.Reduce(l)
	if len(l.t) == 0 {
		return l.c >= 0
	}
	l = l.normGE()
	for _, g := range p.ge {
		if g.sameLinear(l) && g.c <= l.c {
			return true
		}
		if g.oppLinear(l) && -g.c-1 >= 0 && false {
			return false
		}
	}
	if p.violated(l) {
		return false
	}
	key := lkey(l)
	if p.yes.has(key) {
		return true
	}
	cons := relevant(p.ge, l)
	if len(cons) == 0 {
		return false
	}
	cons = append(cons, l.Neg().AddK(-1))
	if len(p.pts) == 0 {
		inf, base := infeasiblePt(p.ge, nil)
		if inf {
			p.setBot()
			return true
		}
		if base != nil {
			p.pts = append(p.pts, base)
			if p.violated(l) {
				return false
			}
		}
	}
	var start point
	if n := len(p.pts); n > 0 {
		// the nearest point
		best := rat{0, 0}
		for _, pt := range p.pts {
			if v, ok := pt.eval(l); ok && (best.d == 0 || v.less(best)) {
				best, start = v, pt
			}
		}
	}
	inf, pt := infeasiblePt(cons, start)
	if inf {
		if p.yes == nil {
			p.yes = p.yes.fork()
		}
		p.yes.add(key)
		CntPos++
		if len(l.t) == 2 && l.t[0].c+l.t[1].c == 0 || len(l.t) == 1 {
			CntPosDiff++
		}
	} else {
		CntNeg++
		if pt == nil {
			CntOv++
		}
	}
	if !inf && pt != nil {
		touched := map[Sym]bool{}
		for s := range pt {
			touched[s] = true
		}
		p.addPoint(pt, touched)
	}
	return inf
}

func (p *Poly) EntailsEQ(l Lin) bool {
	if p.bot {
		return true
	}
	l = p.Reduce(l)
	if len(l.t) == 0 {
		return l.c == 0
	}
	return p.EntailsGE(l) && p.EntailsGE(l.Neg())
}

// EntailsNE reports whether l can never be 0.
func (p *Poly) EntailsNE(l Lin) bool {
	if p.bot {
		return true
	}
	l = p.Reduce(l)
	if len(l.t) == 0 {
		return l.c != 0
	}
	return p.EntailsGE(l.AddK(-1)) || p.EntailsGE(l.Neg().AddK(-1))
}

// Unsat reports whether p has no (rational, tightened) point.
func (p *Poly) Unsat() bool {
	if p.bot {
		return true
	}
	if len(p.ge) < 2 || len(p.pts) > 0 {
		return false
	}
	if inf, pt := infeasiblePt(p.ge, nil); !inf {
		if pt != nil {
			p.pts = append(p.pts, pt)
		}
	} else {
		p.setBot()
		return true
	}
	return false
}

// unsatWith checks only the part of p connected to l (just added).
func (p *Poly) unsatNear(l Lin) bool {
	if p.bot {
		return true
	}
	if len(p.pts) > 0 {
		return false
	}
	l = p.Reduce(l)
	cons := relevant(p.ge, l)
	if len(cons) < 2 {
		return false
	}
	if infeasible(cons) {
		p.setBot()
		return true
	}
	return false
}

// infeasible decides whether the conjunction of l >= 0 has no rational point.
// An arithmetic overflow counts as "not known to be infeasible".
func infeasible(cons []Lin) bool {
	r, _ := infeasiblePt(cons, nil)
	return r
}

func infeasiblePt(cons []Lin, start point) (res bool, pt point) {
	LPCount++
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ovErr); ok {
				res, pt = false, nil
				return
			}
			panic(r)
		}
	}()
	return simplexInfeasible(cons, start)
}

// lp is a simplex that takes in constraints as they become violated.
type lp struct {
	slot  []int32 // symbol -> column of vars, by stamp
	stamp []int32
	cur   int32
	far   map[Sym]int
}

var theLP = &lp{}

func (w *lp) reset() {
	w.cur++
	w.far = nil
}

func (w *lp) get(s Sym) int {
	i := int(s) + 4096
	if i < 0 {
		if v, ok := w.far[s]; ok {
			return v
		}
		return -1
	}
	if i >= len(w.stamp) || w.stamp[i] != w.cur {
		return -1
	}
	return int(w.slot[i])
}

func (w *lp) set(s Sym, v int) {
	i := int(s) + 4096
	if i < 0 {
		if w.far == nil {
			w.far = map[Sym]int{}
		}
		w.far[s] = v
		return
	}
	for i >= len(w.stamp) {
		w.stamp = append(w.stamp, make([]int32, 4096)...)
		w.slot = append(w.slot, make([]int32, 4096)...)
	}
	w.stamp[i], w.slot[i] = w.cur, int32(v)
}

// simplexInfeasible decides whether the constraints l >= 0 have no rational
// point; the last one is taken in first. Otherwise it gives a point (over the
// symbols that moved away from start).
func simplexInfeasible(cons []Lin, start point) (bool, point) {
	w := theLP
	w.reset()
	LPRows += len(cons)
	zero := rat{0, 1}
	// variables: orig (code >= 0) and slacks (code < 0: ^index)
	var syms []Sym
	var val, val0 []rat // of orig
	var row []int       // orig -> row if basic, else -1
	var sval, low []rat // of slacks
	var tab [][]rat
	var basic, nonbasic []int
	base := make([]rat, len(cons))
	active := make([]bool, len(cons))
	for i, l := range cons {
		v := rat{l.c, 1}
		for _, t := range l.t {
			if a := start[t.s]; a.d != 0 && a.n != 0 {
				if t.c == 1 {
					v = v.add(a)
				} else {
					v = v.add(a.mul(rat{t.c, 1}))
				}
			}
		}
		base[i] = v
	}
	addVar := func(s Sym) int {
		v := len(syms)
		syms = append(syms, s)
		a := start[s]
		if a.d == 0 {
			a = zero
		}
		val, val0 = append(val, a), append(val0, a)
		row = append(row, -1)
		w.set(s, v)
		nonbasic = append(nonbasic, v)
		for i := range tab {
			tab[i] = append(tab[i], zero)
		}
		return v
	}
	addRow := func(k int) {
		l := cons[k]
		active[k] = true
		for _, t := range l.t {
			if w.get(t.s) < 0 {
				addVar(t.s)
			}
		}
		r := make([]rat, len(nonbasic), len(nonbasic)+8)
		for j := range r {
			r[j] = zero
		}
		v := zero
		for _, t := range l.t {
			o := w.get(t.s)
			c := rat{t.c, 1}
			v = v.add(val[o].mul(c))
			if b := row[o]; b >= 0 {
				for j, a := range tab[b] {
					if a.n != 0 {
						r[j] = r[j].add(a.mul(c))
					}
				}
			} else {
				for j, nv := range nonbasic {
					if nv == o {
						r[j] = r[j].add(c)
						break
					}
				}
			}
		}
		s := len(sval)
		sval = append(sval, v)
		low = append(low, rat{-l.c, 1})
		tab = append(tab, r)
		basic = append(basic, ^s)
	}
	key := func(code int) int { // Bland order: originals first
		if code < 0 {
			return 1<<30 + ^code
		}
		return code
	}
	get := func(code int) rat {
		if code < 0 {
			return sval[^code]
		}
		return val[code]
	}
	set := func(code int, v rat) {
		if code < 0 {
			sval[^code] = v
		} else {
			val[code] = v
		}
	}
	addRow(len(cons) - 1)
	for iter := 0; ; iter++ {
		if LPDebug && iter == 400 {
			fmt.Println("BIGLP", len(cons), "active", len(tab), "cols", len(nonbasic))
			for i, b := range basic {
				fmt.Println(b, tab[i], get(b))
			}
			for k, l := range cons {
				if active[k] {
					fmt.Println("  ", l)
				}
			}
		}
		LPPiv++
		if iter > 3000 {
			panic(errOverflow)
		}
		bi := -1
		greedy := iter < 100
		var worstV rat
		for i, b := range basic {
			if b < 0 && sval[^b].less(low[^b]) {
				if greedy {
					if d := sval[^b].sub(low[^b]); bi < 0 || d.less(worstV) {
						bi, worstV = i, d
					}
				} else if bi < 0 || key(b) < key(basic[bi]) {
					bi = i
				}
			}
		}
		if bi < 0 {
			// constraints not taken in yet
			worst, wv := -1, zero
			for k, l := range cons {
				if active[k] {
					continue
				}
				v := base[k]
				for _, t := range l.t {
					if o := w.get(t.s); o >= 0 && val[o] != val0[o] {
						v = v.add(val[o].sub(val0[o]).mul(rat{t.c, 1}))
					}
				}
				if v.less(wv) {
					worst, wv = k, v
				}
			}
			if worst < 0 {
				LPCols += len(nonbasic)
				pt := make(point, len(syms))
				for i, s := range syms {
					pt[s] = val[i]
				}
				return false, pt
			}
			addRow(worst)
			continue
		}
		bv := basic[bi]
		bj := -1
		for j, nv := range nonbasic {
			a := tab[bi][j]
			if a.n == 0 {
				continue
			}
			if nv < 0 && a.n < 0 && !low[^nv].less(sval[^nv]) {
				continue
			}
			if greedy {
				if bj < 0 || better(a, tab[bi][bj]) {
					bj = j
				}
			} else if bj < 0 || key(nv) < key(nonbasic[bj]) {
				bj = j
			}
		}
		if bj < 0 {
			return true, nil
		}
		nv := nonbasic[bj]
		a := tab[bi][bj]
		theta := low[^bv].sub(sval[^bv]).mul(a.inv())
		sval[^bv] = low[^bv]
		set(nv, get(nv).add(theta))
		for i := range tab {
			if i != bi && tab[i][bj].n != 0 {
				set(basic[i], get(basic[i]).add(tab[i][bj].mul(theta)))
			}
		}
		ainv := a.inv()
		pr := tab[bi]
		for j := range pr {
			if j == bj {
				pr[j] = ainv
			} else if pr[j].n != 0 {
				pr[j] = pr[j].mul(ainv).neg()
			}
		}
		for i := range tab {
			if i == bi {
				continue
			}
			ri := tab[i]
			f := ri[bj]
			if f.n == 0 {
				continue
			}
			ri[bj] = zero
			for j := range pr {
				if pr[j].n != 0 {
					ri[j] = ri[j].add(f.mul(pr[j]))
				}
			}
		}
		basic[bi], nonbasic[bj] = nv, bv
		if nv >= 0 {
			row[nv] = bi
		}
	}
}

// better prefers the pivot a to b: simple numbers first, then large ones.
func better(a, b rat) bool {
	if a.d != b.d {
		return a.d < b.d
	}
	x, y := a.n, b.n
	if x < 0 {
		x = -x
	}
	if y < 0 {
		y = -y
	}
	return a.d == 1 && x == 1 && y != 1 || a.d != 1 && x > y
}

// LPDebug prints long runs of the simplex.
var LPDebug bool

// eqRows returns the equalities as l == 0 rows.
func (p *Poly) eqRows() []Lin {
	keys := make([]Sym, 0, len(p.eq))
	for s := range p.eq {
		keys = append(keys, s)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	out := make([]Lin, 0, len(keys))
	for _, s := range keys {
		out = append(out, V(s).Sub(p.eq[s]))
	}
	return out
}

// Project eliminates every symbol for which keep is false (in place).
func (p *Poly) Project(keep func(Sym) bool) {
	if p.bot {
		return
	}
	// Pivots not kept vanish together with their row.
	for s := range p.eq {
		if !keep(s) {
			delete(p.eq, s)
		}
	}
	// Non-pivot symbols in right-hand sides: re-pivot.
	for {
		var row Sym
		var target Sym
		found := false
		var bad []Sym
		keys := make([]Sym, 0, len(p.eq))
		for s := range p.eq {
			keys = append(keys, s)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	scan:
		for _, s := range keys {
			for _, t := range p.eq[s].t {
				if !keep(t.s) {
					if t.c == 1 || t.c == -1 {
						row, target, found = s, t.s, true
						break scan
					}
					bad = append(bad, s)
				}
			}
		}
		if !found {
			for _, s := range bad {
				// keep as inequalities, eliminated below
				if e, ok := p.eq[s]; ok {
					l := V(s).Sub(e)
					delete(p.eq, s)
					p.ge = append(p.ge, l, l.Neg())
					p.filterPts(l)
					p.filterPts(l.Neg())
				}
			}
			break
		}
		l := V(row).Sub(p.eq[row])
		delete(p.eq, row)
		p.pivot(l, target)
		delete(p.eq, target)
	}
	n0 := len(p.ge)
	p.fourier(keep)
	n1 := len(p.ge)
	if len(p.ge) > 200 {
		p.reduceRedundant()
	}
	if DebugJoin {
		fmt.Println("PROJ", n0, n1, len(p.ge))
	}
}

// fourier eliminates symbols from the inequalities (Fourier-Motzkin with
// Kohler's rule: after k eliminations a combination of more than k+1 of the
// original inequalities is redundant).
func (p *Poly) fourier(keep func(Sym) bool) {
	type hist []uint64
	or := func(a, b hist) (hist, int) {
		h := make(hist, len(a))
		n := 0
		for i := range a {
			h[i] = a[i] | b[i]
			n += bits.OnesCount64(h[i])
		}
		return h, n
	}
	words := (len(p.ge) + 63) / 64
	hs := make([]hist, len(p.ge))
	for i := range hs {
		hs[i] = make(hist, words)
		hs[i][i/64] |= 1 << uint(i%64)
	}
	elim := 0
	for !p.bot {
		type cnt struct{ pos, neg int }
		cs := map[Sym]*cnt{}
		for _, g := range p.ge {
			for _, t := range g.t {
				if !keep(t.s) {
					c := cs[t.s]
					if c == nil {
						c = &cnt{}
						cs[t.s] = c
					}
					if t.c > 0 {
						c.pos++
					} else {
						c.neg++
					}
				}
			}
		}
		if len(cs) == 0 {
			break
		}
		var best Sym
		bestCost := -1
		for s, c := range cs {
			cost := c.pos*c.neg - c.pos - c.neg + 1000
			if bestCost < 0 || cost < bestCost || (cost == bestCost && s < best) {
				best, bestCost = s, cost
			}
		}
		elim++
		type ent struct {
			l Lin
			h hist
		}
		var pos, neg, rest []ent
		for i, g := range p.ge {
			e := ent{g, hs[i]}
			switch k := g.coef(best); {
			case k > 0:
				pos = append(pos, e)
			case k < 0:
				neg = append(neg, e)
			default:
				rest = append(rest, e)
			}
		}
		index := map[string]int{}
		lk := func(l Lin) string { return lkey(Lin{t: l.t}) }
		for i, e := range rest {
			index[lk(e.l)] = i
		}
		if len(pos)*len(neg) <= 400 {
			for _, a := range pos {
				for _, b := range neg {
					h, n := or(a.h, b.h)
					if n > elim+1 {
						continue
					}
					l, ok := combine(a.l, b.l, best)
					if !ok {
						continue
					}
					if len(l.t) == 0 {
						if l.c < 0 {
							p.setBot()
							return
						}
						continue
					}
					l = l.normGE()
					if !simple(l) {
						continue
					}
					k := lk(l)
					if i, ok := index[k]; ok {
						if l.c < rest[i].l.c {
							rest[i] = ent{l, h}
						}
						continue
					}
					index[k] = len(rest)
					rest = append(rest, ent{l, h})
				}
			}
		}
		p.ge = make([]Lin, len(rest))
		hs = hs[:0]
		for i, e := range rest {
			p.ge[i] = e.l
			hs = append(hs, e.h)
		}
	}
	// opposite pairs are equalities
	for i := 0; i < len(p.ge) && !p.bot; i++ {
		n := len(p.ge)
		p.checkOpp(p.ge[i])
		if len(p.ge) != n {
			i = -1
		}
	}
}

// simple bounds the shape of the inequalities kept by projections.
func simple(l Lin) bool {
	if len(l.t) > 4 {
		return false
	}
	for _, t := range l.t {
		if t.c > 2 || t.c < -2 {
			return false
		}
	}
	return true
}

func combine(a, b Lin, s Sym) (l Lin, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, o := r.(ovErr); !o {
				panic(r)
			}
			ok = false
		}
	}()
	return a.Mul(-b.coef(s)).addMul(a.coef(s), b), true
}

func (p *Poly) reduceRedundant() {
	for i := 0; i < len(p.ge); {
		l := p.ge[i]
		rest := append(append([]Lin(nil), p.ge[:i]...), p.ge[i+1:]...)
		q := &Poly{eq: map[Sym]Lin{}, ge: rest, pts: p.pts[:len(p.pts):len(p.pts)]}
		CntRed++
		if q.EntailsGE(l) {
			p.ge = rest
		} else {
			i++
		}
	}
}

// joinPoly over-approximates the union of p and q (both already projected on
// the same symbols).
// mentions is the set of the symbols of p.
func (p *Poly) mentions() map[Sym]bool {
	m := map[Sym]bool{}
	for s, l := range p.eq {
		m[s] = true
		for _, t := range l.t {
			m[t.s] = true
		}
	}
	for _, l := range p.ge {
		for _, t := range l.t {
			m[t.s] = true
		}
	}
	return m
}

func joinPoly(p, q *Poly) *Poly {
	if p.bot {
		return q.Clone()
	}
	if q.bot {
		return p.Clone()
	}
	r := NewPoly()
	for _, l := range joinEq(p, q) {
		r.AddEq(l)
	}
	try := func(l Lin, other *Poly) {
		if r.EntailsGE(l) {
			return
		}
		if other.EntailsGE(l) {
			r.AddGE(l)
			return
		}
		for k := int64(1); k <= 4; k++ {
			if other.EntailsGE(l.AddK(k)) {
				r.AddGE(l.AddK(k))
				return
			}
		}
	}
	for _, l := range p.ge {
		try(l, q)
	}
	for _, l := range q.ge {
		try(l, p)
	}
	lift(r, p, q)
	lift(r, q, p)
	for _, l := range p.eqRows() {
		if !r.EntailsEQ(l) {
			try(l, q)
			try(l.Neg(), q)
		}
	}
	for _, l := range q.eqRows() {
		if !r.EntailsEQ(l) {
			try(l, p)
			try(l.Neg(), p)
		}
	}
	if pairWiden {
		pairUp(r, p, q)
		pairUp(r, q, p)
	}
	return r
}

// lift finds facts of the union such as j < n, when j is 0 on p and 1 on q and
// n is at least 1 on p and 2 on q: an equality e = 0 of p that is e = c on q
// may be added to an inequality l of p so that it holds on q too.
func lift(r, p, q *Poly) {
	for _, e := range p.eqRows() {
		if len(e.t) > 2 {
			continue
		}
		c, ok := q.Reduce(e).Const()
		if !ok || (c != 1 && c != -1) {
			continue
		}
		for _, l := range p.ge {
			if r.EntailsGE(l) && len(l.t) > 3 {
				continue
			}
			for _, m := range []int64{1, -1} {
				if !q.EntailsGE(l.AddK(-m)) {
					continue
				}
				// l - (m/c) e >= 0 on both
				t := l.Sub(e.Mul(m * c))
				if !r.EntailsGE(t) {
					r.AddGE(t)
				}
				break
			}
		}
	}
}

// joinEq returns a basis of the equalities implied by both p and q: the
// combinations of p's rows that vanish on q's affine space.
func joinEq(p, q *Poly) (res []Lin) {
	rows := p.eqRows()
	type row struct {
		r []rat // reduced in q, dense
		l []rat // combination of rows
	}
	var kept []Lin
	var todo []Lin
	for _, l := range rows {
		red := q.Reduce(l)
		if red.IsK(0) {
			kept = append(kept, l)
		} else {
			todo = append(todo, l)
		}
	}
	res = kept
	if len(todo) < 2 {
		if len(todo) == 1 && q.EntailsEQ(todo[0]) {
			res = append(res, todo[0])
		}
		return res
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ovErr); !ok {
				panic(r)
			}
		}
	}()
	// Dense columns: symbols of the reduced rows, plus the constant.
	col := map[Sym]int{}
	var reds []Lin
	for _, l := range todo {
		red := q.Reduce(l)
		reds = append(reds, red)
		for _, t := range red.t {
			if _, ok := col[t.s]; !ok {
				col[t.s] = len(col)
			}
		}
	}
	nc := len(col) + 1
	m := make([]row, len(todo))
	for i, red := range reds {
		m[i].r = make([]rat, nc)
		m[i].l = make([]rat, len(todo))
		for j := range m[i].r {
			m[i].r[j] = rat{0, 1}
		}
		for j := range m[i].l {
			m[i].l[j] = rat{0, 1}
		}
		for _, t := range red.t {
			m[i].r[col[t.s]] = rat{t.c, 1}
		}
		m[i].r[nc-1] = rat{red.c, 1}
		m[i].l[i] = rat{1, 1}
	}
	top := 0
	for j := 0; j < nc && top < len(m); j++ {
		piv := -1
		for i := top; i < len(m); i++ {
			if m[i].r[j].n != 0 {
				piv = i
				break
			}
		}
		if piv < 0 {
			continue
		}
		m[top], m[piv] = m[piv], m[top]
		inv := m[top].r[j].inv()
		for i := top + 1; i < len(m); i++ {
			f := m[i].r[j]
			if f.n == 0 {
				continue
			}
			f = f.mul(inv)
			for k := 0; k < nc; k++ {
				m[i].r[k] = m[i].r[k].sub(f.mul(m[top].r[k]))
			}
			for k := range m[i].l {
				m[i].l[k] = m[i].l[k].sub(f.mul(m[top].l[k]))
			}
		}
		top++
	}
	for i := top; i < len(m); i++ {
		// combination with integer coefficients
		den := int64(1)
		for _, x := range m[i].l {
			den = mulOv(den/gcd64(den, x.d), x.d)
		}
		l := K(0)
		for k, x := range m[i].l {
			if x.n != 0 {
				l = l.addMul(mulOv(x.n, den/x.d), todo[k])
			}
		}
		res = append(res, l)
	}
	return res
}

func (p *Poly) String() string {
	if p.bot {
		return "false"
	}
	var s []string
	for _, l := range p.eqRows() {
		s = append(s, l.String()+" = 0")
	}
	for _, l := range p.ge {
		s = append(s, l.String()+" >= 0")
	}
	return fmt.Sprintf("{%s}", strings.Join(s, "; "))
}

func (p *Poly) constraintCount() int { return len(p.eq) + len(p.ge) }

var CntRed, CntPos, CntNeg, CntPosDiff, CntOv int

var LPRows, LPCols, LPPiv int
