// Package ai is a relational abstract interpreter for Go SSA.
//
// lin.go: linear expressions over symbols with integer coefficients.
package ai

import (
	"fmt"
	"sort"
	"strings"
)

// Sym names an unknown integer. Positive symbols are created by the analysis;
// negative ones are the template symbols of sequence summaries.
type Sym int32

type term struct {
	s Sym
	c int64
}

// Lin is the linear expression c + sum of coef*sym, terms sorted by symbol.
// It is immutable.
type Lin struct {
	c int64
	t []term
}

func K(c int64) Lin    { return Lin{c: c} }
func V(s Sym) Lin      { return Lin{t: []term{{s, 1}}} }
func (l Lin) C() int64 { return l.c }

func (l Lin) IsConst() bool        { return len(l.t) == 0 }
func (l Lin) Const() (int64, bool) { return l.c, len(l.t) == 0 }
func (l Lin) IsK(c int64) bool     { return len(l.t) == 0 && l.c == c }
func (l Lin) Single() (Sym, bool) {
	if len(l.t) == 1 && l.t[0].c == 1 && l.c == 0 {
		return l.t[0].s, true
	}
	return 0, false
}

func mulOv(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if uint64(a+1<<31) < 1<<32 && uint64(b+1<<31) < 1<<32 {
		return a * b
	}
	r := a * b
	if r/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		panic(errOverflow)
	}
	return r
}
func addOv(a, b int64) int64 {
	r := a + b
	if (r > a) != (b > 0) && b != 0 {
		panic(errOverflow)
	}
	return r
}

type ovErr struct{}

var errOverflow = ovErr{}

// addMul returns l + k*m.
func (l Lin) addMul(k int64, m Lin) Lin {
	if k == 0 || (len(m.t) == 0 && m.c == 0) {
		return l
	}
	r := Lin{c: addOv(l.c, mulOv(k, m.c))}
	r.t = make([]term, 0, len(l.t)+len(m.t))
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j == len(m.t) || (i < len(l.t) && l.t[i].s < m.t[j].s):
			r.t = append(r.t, l.t[i])
			i++
		case i == len(l.t) || m.t[j].s < l.t[i].s:
			r.t = append(r.t, term{m.t[j].s, mulOv(k, m.t[j].c)})
			j++
		default:
			c := addOv(l.t[i].c, mulOv(k, m.t[j].c))
			if c != 0 {
				r.t = append(r.t, term{l.t[i].s, c})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) Add(m Lin) Lin    { return l.addMul(1, m) }
func (l Lin) Sub(m Lin) Lin    { return l.addMul(-1, m) }
func (l Lin) AddK(c int64) Lin { return Lin{c: addOv(l.c, c), t: l.t} }
func (l Lin) Neg() Lin         { return K(0).addMul(-1, l) }
func (l Lin) Mul(k int64) Lin  { return K(0).addMul(k, l) }

func (l Lin) coef(s Sym) int64 {
	i := sort.Search(len(l.t), func(i int) bool { return l.t[i].s >= s })
	if i < len(l.t) && l.t[i].s == s {
		return l.t[i].c
	}
	return 0
}

func (l Lin) Eq(m Lin) bool {
	if l.c != m.c || len(l.t) != len(m.t) {
		return false
	}
	for i := range l.t {
		if l.t[i] != m.t[i] {
			return false
		}
	}
	return true
}

// sameLinear reports whether l and m differ by a constant only.
func (l Lin) sameLinear(m Lin) bool {
	if len(l.t) != len(m.t) {
		return false
	}
	for i := range l.t {
		if l.t[i] != m.t[i] {
			return false
		}
	}
	return true
}
func (l Lin) oppLinear(m Lin) bool {
	if len(l.t) != len(m.t) {
		return false
	}
	for i := range l.t {
		if l.t[i].s != m.t[i].s || l.t[i].c != -m.t[i].c {
			return false
		}
	}
	return true
}

// subst replaces s by e in l.
func (l Lin) subst(s Sym, e Lin) Lin {
	c := l.coef(s)
	if c == 0 {
		return l
	}
	return l.addMul(-c, V(s)).addMul(c, e)
}

// rename replaces symbols through f.
func (l Lin) mapSyms(f func(Sym) (Lin, bool)) Lin {
	r := K(l.c)
	for _, t := range l.t {
		if e, ok := f(t.s); ok {
			r = r.addMul(t.c, e)
		} else {
			r = r.addMul(t.c, V(t.s))
		}
	}
	return r
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (l Lin) contentGCD() int64 {
	var g int64
	for _, t := range l.t {
		g = gcd64(g, t.c)
	}
	return g
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// normGE tightens l >= 0 over the integers.
func (l Lin) normGE() Lin {
	g := l.contentGCD()
	if g <= 1 {
		return l
	}
	r := Lin{c: floorDiv(l.c, g), t: make([]term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = term{t.s, t.c / g}
	}
	return r
}

// SymNames gives readable names in reports.
var SymNames = map[Sym]string{}

func symName(s Sym) string {
	if n, ok := SymNames[s]; ok {
		return fmt.Sprintf("%s'%d", n, s)
	}
	if s < 0 {
		return fmt.Sprintf("T%d", -s)
	}
	return fmt.Sprintf("x%d", s)
}

func (l Lin) String() string {
	if len(l.t) == 0 {
		return fmt.Sprint(l.c)
	}
	var b strings.Builder
	for i, t := range l.t {
		switch {
		case t.c == 1 && i == 0:
		case t.c == 1:
			b.WriteString(" + ")
		case t.c == -1 && i == 0:
			b.WriteString("-")
		case t.c == -1:
			b.WriteString(" - ")
		case t.c < 0:
			fmt.Fprintf(&b, " - %d*", -t.c)
		default:
			if i > 0 {
				b.WriteString(" + ")
			}
			fmt.Fprintf(&b, "%d*", t.c)
		}
		b.WriteString(symName(t.s))
	}
	if l.c > 0 {
		fmt.Fprintf(&b, " + %d", l.c)
	} else if l.c < 0 {
		fmt.Fprintf(&b, " - %d", -l.c)
	}
	return b.String()
}

// rat is an int64 rational; operations panic with errOverflow on overflow.
type rat struct{ n, d int64 }

func mkRat(n, d int64) rat {
	if d < 0 {
		n, d = -n, -d
	}
	if d != 1 {
		g := gcd64(n, d)
		if g > 1 {
			n /= g
			d /= g
		}
	}
	return rat{n, d}
}
func (a rat) add(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{addOv(a.n, b.n), 1}
	}
	return mkRat(addOv(mulOv(a.n, b.d), mulOv(b.n, a.d)), mulOv(a.d, b.d))
}
func (a rat) mul(b rat) rat {
	if a.n == 0 || b.n == 0 {
		return rat{0, 1}
	}
	if a.d == 1 && b.d == 1 {
		return rat{mulOv(a.n, b.n), 1}
	}
	g1 := gcd64(a.n, b.d)
	g2 := gcd64(b.n, a.d)
	return mkRat(mulOv(a.n/g1, b.n/g2), mulOv(a.d/g2, b.d/g1))
}
func (a rat) neg() rat      { return rat{-a.n, a.d} }
func (a rat) inv() rat      { return mkRat(a.d, a.n) }
func (a rat) sub(b rat) rat { return a.add(b.neg()) }
func (a rat) sign() int {
	switch {
	case a.n > 0:
		return 1
	case a.n < 0:
		return -1
	}
	return 0
}
func (a rat) less(b rat) bool {
	if a.d == b.d {
		return a.n < b.n
	}
	return mulOv(a.n, b.d) < mulOv(b.n, a.d)
}
