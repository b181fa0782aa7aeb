// Package rx decides whether two expressions in the syntax of regexp2 match
// the same at every position of every text.
//
// Both are compiled to machines whose threads are ordered by priority, which
// is what a backtracking search prefers. The two machines run side by side
// over classes of runes no expression tells apart, and all the pairs of states
// they can reach are visited.
package rx

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Options of regexp2.
const (
	IgnoreCase = 1 << iota
	Multiline
	ExplicitCapture
	Compiled
	Singleline
	knownOptions = 1<<iota - 1
)

// set tells which runes are members.
type set func(r rune) bool

type op int

const (
	opRune op = iota // consumes a member of the set
	opSplit
	opNext // asserts something of the next rune
	opMatch
)

type inst struct {
	op   op
	set  int
	x, y int
	neg  bool
}

// Prog is a compiled expression.
type Prog struct {
	insts []inst
	start int
	opts  int
	sets  *sets
}

type sets struct {
	keys []string
	fs   []set
}

func (s *sets) add(key string, f set) int {
	for i, k := range s.keys {
		if k == key {
			return i
		}
	}
	s.keys = append(s.keys, key)
	s.fs = append(s.fs, f)
	return len(s.keys) - 1
}

type node struct {
	kind     byte // 'c' set, 's' sequence, 'a' alternatives, 'r' repetition, 'n' next
	subs     []*node
	set      int
	min, max int // max < 0: no bound
	lazy     bool
	neg      bool
}

type parser struct {
	src  []rune
	pos  int
	opts int
	sets *sets
}

type unsupported string

func (p *parser) fail(f string, a ...interface{}) { panic(unsupported(fmt.Sprintf(f, a...))) }
func (p *parser) more() bool                      { return p.pos < len(p.src) }
func (p *parser) peek() rune                      { return p.src[p.pos] }
func (p *parser) has(s string) bool {
	if strings.HasPrefix(string(p.src[p.pos:]), s) {
		p.pos += utf8.RuneCountInString(s)
		return true
	}
	return false
}

func (p *parser) alt() *node {
	n := &node{kind: 'a'}
	for {
		n.subs = append(n.subs, p.seq())
		if !p.more() || p.peek() != '|' {
			if len(n.subs) == 1 {
				return n.subs[0]
			}
			return n
		}
		p.pos++
	}
}

func (p *parser) seq() *node {
	n := &node{kind: 's'}
	for p.more() && p.peek() != '|' && p.peek() != ')' {
		n.subs = append(n.subs, p.quantified())
	}
	return n
}

func (p *parser) quantified() *node {
	n := p.atom()
	for p.more() {
		r := &node{kind: 'r', subs: []*node{n}, max: -1}
		at := p.pos
		switch {
		case p.has("*"):
		case p.has("+"):
			r.min = 1
		case p.has("?"):
			r.max = 1
		case p.has("{"):
			if !p.bounds(r) {
				p.pos = at
				return n
			}
		default:
			return n
		}
		if n.kind == 'n' {
			p.fail("a repeated assertion")
		}
		if p.has("?") {
			r.lazy = true
		}
		if at > 0 && n.kind == 'r' {
			p.fail("a repeated repetition")
		}
		n = r
	}
	return n
}

func (p *parser) bounds(r *node) bool {
	num := func() (int, bool) {
		s := ""
		for p.more() && p.peek() >= '0' && p.peek() <= '9' {
			s += string(p.peek())
			p.pos++
		}
		v, err := strconv.Atoi(s)
		return v, err == nil && v < 1000
	}
	var ok bool
	if r.min, ok = num(); !ok {
		return false
	}
	r.max = r.min
	if p.has(",") {
		r.max = -1
		if p.more() && p.peek() != '}' {
			if r.max, ok = num(); !ok {
				return false
			}
		}
	}
	return p.has("}")
}

func (p *parser) atom() *node {
	c := p.peek()
	switch {
	case p.has("(?:"), p.has("(?="), p.has("(?!"):
		kind := p.src[p.pos-1]
		n := p.alt()
		if !p.has(")") {
			p.fail("an open group")
		}
		if kind == ':' {
			return n
		}
		one := n
		for one.kind == 's' && len(one.subs) == 1 {
			one = one.subs[0]
		}
		if one.kind != 'c' {
			p.fail("an assertion of more than one rune")
		}
		return &node{kind: 'n', set: one.set, neg: kind == '!'}
	case p.has("(?"):
		p.fail("a group of kind %q", string(p.src[p.pos-2:]))
	case p.has("("):
		n := p.alt()
		if !p.has(")") {
			p.fail("an open group")
		}
		return n
	case p.has("["):
		k, f := p.class()
		return p.one(k, f)
	case p.has("\\"):
		k, f, r, single := p.escape()
		if single {
			return p.literal(r)
		}
		return p.one(k, f)
	case p.has("."):
		if p.opts&Singleline != 0 {
			return p.one("any", func(rune) bool { return true })
		}
		return p.one("notnl", func(r rune) bool { return r != '\n' })
	case strings.ContainsRune("^$*+?)", c):
		p.fail("%q", string(p.src[p.pos:]))
	}
	p.pos++
	return p.literal(c)
}

func (p *parser) literal(c rune) *node {
	if p.opts&IgnoreCase != 0 {
		c = unicode.ToLower(c)
	}
	return p.one(fmt.Sprintf("'%d'", c), func(r rune) bool { return r == c })
}

// one is a node that consumes one rune; without regard to case, the lower case
// of the rune is looked at.
func (p *parser) one(key string, f set) *node {
	if p.opts&IgnoreCase != 0 {
		return &node{kind: 'c', set: p.sets.add("i:"+key, func(r rune) bool { return f(unicode.ToLower(r)) })}
	}
	return &node{kind: 'c', set: p.sets.add(key, f)}
}

// word is what \w stands for in regexp2.
func word(r rune) bool {
	return unicode.In(r, unicode.L, unicode.Mn, unicode.Nd, unicode.Pc) || r == '\u200D' || r == '\u200C'
}

func not(f set) set { return func(r rune) bool { return !f(r) } }

func (p *parser) escape() (key string, f set, r rune, single bool) {
	if !p.more() {
		p.fail("a backslash at the end")
	}
	c := p.peek()
	p.pos++
	switch c {
	case 's':
		return `\s`, unicode.IsSpace, 0, false
	case 'S':
		return `\S`, not(unicode.IsSpace), 0, false
	case 'w':
		return `\w`, word, 0, false
	case 'W':
		return `\W`, not(word), 0, false
	case 'd', 'D':
		f = func(r rune) bool { return unicode.Is(unicode.Nd, r) }
		if c == 'D' {
			f = not(f)
		}
		return `\` + string(c), f, 0, false
	case 'p', 'P':
		if !p.has("{") {
			p.fail("a property without braces")
		}
		name := ""
		for p.more() && p.peek() != '}' {
			name += string(p.peek())
			p.pos++
		}
		if !p.has("}") {
			p.fail("an open property")
		}
		t := unicode.Categories[name]
		if t == nil {
			t = unicode.Scripts[name]
		}
		if t == nil {
			t = unicode.Properties[name]
		}
		if t == nil {
			p.fail("property %s", name)
		}
		f = func(r rune) bool { return unicode.Is(t, r) }
		if c == 'P' {
			f = not(f)
		}
		return `\` + string(c) + name, f, 0, false
	case 't':
		return "", nil, '\t', true
	case 'n':
		return "", nil, '\n', true
	case 'r':
		return "", nil, '\r', true
	case 'f':
		return "", nil, '\f', true
	case 'v':
		return "", nil, '\v', true
	case 'a':
		return "", nil, '\a', true
	case 'e':
		return "", nil, 0x1b, true
	case 'x', 'u':
		n := 2
		if c == 'u' {
			n = 4
		}
		if p.pos+n > len(p.src) {
			p.fail("a short escape")
		}
		v, err := strconv.ParseUint(string(p.src[p.pos:p.pos+n]), 16, 32)
		if err != nil {
			p.fail("escape %q", string(p.src[p.pos-2:]))
		}
		p.pos += n
		return "", nil, rune(v), true
	}
	if c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) {
		p.fail("escape %q", string(c))
	}
	return "", nil, c, true
}

func (p *parser) class() (string, set) {
	start := p.pos
	neg := p.has("^")
	var fs []set
	fold := p.opts&IgnoreCase != 0
	for first := true; ; first = false {
		if !p.more() {
			p.fail("an open class")
		}
		if p.peek() == ']' && !first {
			p.pos++
			break
		}
		if p.peek() == '[' && p.pos+1 < len(p.src) && p.src[p.pos+1] == ':' {
			p.fail("a named class")
		}
		lo := p.peek()
		p.pos++
		if lo == '\\' {
			_, f, r, single := p.escape()
			if !single {
				fs = append(fs, f)
				continue
			}
			lo = r
		}
		hi := lo
		if p.pos+1 < len(p.src) && p.peek() == '-' && p.src[p.pos+1] != ']' {
			p.pos++
			if p.peek() == '[' {
				p.fail("a subtracted class")
			}
			hi = p.peek()
			p.pos++
			if hi == '\\' {
				_, _, r, single := p.escape()
				if !single {
					p.fail("a range up to a class")
				}
				hi = r
			}
			if hi < lo {
				p.fail("a range that is empty")
			}
		}
		a, b := lo, hi
		switch {
		case fold && a == b:
			l := unicode.ToLower(a)
			fs = append(fs, func(r rune) bool { return r == l })
		case fold:
			// the range, and the lower case of its members
			lower := map[rune]bool{}
			for c := a; c <= b; c++ {
				lower[unicode.ToLower(c)] = true
			}
			fs = append(fs, func(r rune) bool { return r >= a && r <= b || lower[r] })
		default:
			fs = append(fs, func(r rune) bool { return r >= a && r <= b })
		}
	}
	f := func(r rune) bool {
		for _, g := range fs {
			if g(r) {
				return !neg
			}
		}
		return neg
	}
	return "[" + string(p.src[start:p.pos]), f
}

func (n *node) nullable() bool {
	switch n.kind {
	case 'c':
		return false
	case 's':
		for _, m := range n.subs {
			if !m.nullable() {
				return false
			}
		}
		return true
	case 'a':
		for _, m := range n.subs {
			if m.nullable() {
				return true
			}
		}
		return false
	case 'r':
		return n.min == 0 || n.subs[0].nullable()
	}
	return true
}

func (p *Prog) emit(i inst) int {
	if len(p.insts) > 5000 {
		panic(unsupported("an expression that is too large"))
	}
	p.insts = append(p.insts, i)
	return len(p.insts) - 1
}

func (p *Prog) comp(n *node, next int) int {
	switch n.kind {
	case 'c':
		return p.emit(inst{op: opRune, set: n.set, x: next})
	case 'n':
		return p.emit(inst{op: opNext, set: n.set, neg: n.neg, x: next})
	case 's':
		for i := len(n.subs) - 1; i >= 0; i-- {
			next = p.comp(n.subs[i], next)
		}
		return next
	case 'a':
		at := p.comp(n.subs[len(n.subs)-1], next)
		for i := len(n.subs) - 2; i >= 0; i-- {
			at = p.emit(inst{op: opSplit, x: p.comp(n.subs[i], next), y: at})
		}
		return at
	}
	m := n.subs[0]
	if m.nullable() {
		panic(unsupported("a repetition of something that can be empty"))
	}
	if n.max < 0 {
		loop := p.emit(inst{op: opSplit})
		body := p.comp(m, loop)
		p.insts[loop].x, p.insts[loop].y = body, next
		if n.lazy {
			p.insts[loop].x, p.insts[loop].y = next, body
		}
		next = loop
	} else {
		if n.max < n.min {
			panic(unsupported("a repetition without bounds"))
		}
		end := next
		for i := n.min; i < n.max; i++ {
			body := p.comp(m, next)
			if n.lazy {
				next = p.emit(inst{op: opSplit, x: end, y: body})
			} else {
				next = p.emit(inst{op: opSplit, x: body, y: end})
			}
		}
	}
	for i := 0; i < n.min; i++ {
		next = p.comp(m, next)
	}
	return next
}

func compile(src string, opts int, ss *sets) (p *Prog, err error) {
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			p, err = nil, fmt.Errorf("expression %q: %s is not supported", src, string(u))
		}
	}()
	if opts&^knownOptions != 0 {
		panic(unsupported(fmt.Sprintf("option %#x", opts&^knownOptions)))
	}
	ps := &parser{src: []rune(src), opts: opts, sets: ss}
	n := ps.alt()
	if ps.more() {
		ps.fail("%q", string(ps.src[ps.pos:]))
	}
	p = &Prog{sets: ss, opts: opts}
	m := p.emit(inst{op: opMatch})
	p.start = p.comp(n, m)
	return p, nil
}

// step follows the threads, in order, when the next rune is of class a (less
// than 0: the text ends). It tells whether there is a match here.
func (p *Prog) step(ts []int, in func(set int) bool, end bool) (next []int, match bool) {
	seen := map[int]bool{}
	nseen := map[int]bool{}
	var visit func(pc int) bool
	visit = func(pc int) bool {
		if seen[pc] {
			return true
		}
		seen[pc] = true
		i := p.insts[pc]
		switch i.op {
		case opRune:
			if !end && in(i.set) && !nseen[i.x] {
				nseen[i.x] = true
				next = append(next, i.x)
			}
		case opSplit:
			return visit(i.x) && visit(i.y)
		case opNext:
			if (!end && in(i.set)) != i.neg {
				return visit(i.x)
			}
		case opMatch:
			match = true
			return false
		}
		return true
	}
	for _, t := range ts {
		if !visit(t) {
			break
		}
	}
	return
}

// Result tells how two expressions compare.
type Result struct {
	Same    bool
	States  int // pairs of states
	Classes int // of runes
	Witness string
}

// Equivalent compares two expressions.
func Equivalent(a string, aopts int, b string, bopts int) (Result, error) {
	ss := &sets{}
	pa, err := compile(a, aopts, ss)
	if err != nil {
		return Result{}, err
	}
	pb, err := compile(b, bopts, ss)
	if err != nil {
		return Result{}, err
	}
	// classes of runes
	if len(ss.fs) > 64 {
		return Result{}, fmt.Errorf("too many classes")
	}
	var masks []uint64
	var reps []rune
	seen := map[uint64]int{}
	better := func(r, old rune) bool { // a nicer example
		nice := func(r rune) int {
			switch {
			case r >= 'a' && r <= 'z':
				return 3
			case r > ' ' && r < 127:
				return 2
			case r == ' ':
				return 1
			}
			return 0
		}
		return nice(r) > nice(old)
	}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		var m uint64
		for i, f := range ss.fs {
			if f(r) {
				m |= 1 << uint(i)
			}
		}
		if k, ok := seen[m]; !ok {
			seen[m] = len(masks)
			masks = append(masks, m)
			reps = append(reps, r)
		} else if better(r, reps[k]) {
			reps[k] = r
		}
	}
	type state struct {
		a, b []int
		same bool
		path string
	}
	key := func(s state) string { return fmt.Sprint(s.a, s.b, s.same) }
	first := state{[]int{pa.start}, []int{pb.start}, true, ""}
	visited := map[string]bool{key(first): true}
	queue := []state{first}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		for k := -1; k < len(masks); k++ {
			in := func(set int) bool { return masks[k]>>uint(set)&1 != 0 }
			na, ma := pa.step(s.a, in, k < 0)
			nb, mb := pb.step(s.b, in, k < 0)
			same := s.same
			if ma && mb {
				same = true
			} else if ma || mb {
				same = false
			}
			if k < 0 {
				if !same {
					return Result{Witness: s.path, States: len(visited), Classes: len(masks)}, nil
				}
				continue
			}
			n := state{na, nb, same, s.path + string(reps[k])}
			if len(na) == 0 && len(nb) == 0 {
				if !same {
					return Result{Witness: n.path, States: len(visited), Classes: len(masks)}, nil
				}
				continue
			}
			if q := key(n); !visited[q] {
				visited[q] = true
				if len(visited) > 200000 {
					return Result{}, fmt.Errorf("too many states")
				}
				queue = append(queue, n)
			}
		}
	}
	return Result{Same: true, States: len(visited), Classes: len(masks)}, nil
}
