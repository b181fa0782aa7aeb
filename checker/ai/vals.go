package ai

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface{}

// IntV is an integer (rune, byte, int...) given by a linear expression.
type IntV struct {
	L Lin
	P *Prov
}

// Prov is the provenance of a rune: the image under Tag ("" for itself) of
// rune K of a tracked text.
type Prov struct {
	B   *StrBase
	K   Lin
	Tag string
}

// BoolV is a boolean given by a formula over immutable symbols.
type BoolV struct{ F *Formula }

// NilV is the nil pointer, map, function, interface.
type NilV struct{}

// FloatV is an opaque float, compared by name.
type FloatV struct{ Key string }

// StructV is a struct value.
type StructV struct{ F []Val }

// ArrV is a (small) array value.
type ArrV struct{ E []Val }

// ArrSeqV is an array value given by its elements in a row.
type ArrSeqV struct{ S *Seq }

// TupleV is a multi-value.
type TupleV []Val

// FuncV is a function or closure.
type FuncV struct {
	Fn    *ssa.Function
	Binds []Val
}

// OpaqueFn is a function supplied by the user; it is an uninterpreted function
// of its integer arguments.
type OpaqueFn struct {
	Name string
	// Fn, when set, gives the outcomes of a call.
	Fn func(x *Interp, st *State, args []Val) []Outcome
}

// IfaceV is an interface holding a value of a known type.
type IfaceV struct {
	T types.Type
	V Val
}

// OpaqueV is an opaque non-nil value (error, regexp, file, user object).
type OpaqueV struct {
	Tag string
	Idx []Lin // identity, when it comes from a family
}

// ObjID names a heap object.
type ObjID int

// PathEl is one step into an object: a field or an element.
type PathEl struct {
	Field int
	Idx   Lin
	IsIdx bool
}

// PtrV points into an object.
type PtrV struct {
	Obj  ObjID
	Path []PathEl
}

// SliceV is a slice of the sequence held by an object; Obj 0 is the nil slice.
type SliceV struct {
	Obj      ObjID
	Off, Len Lin
}

// MapV refers to a map object.
type MapV struct{ Obj ObjID }

// StrV is a string, the concatenation of pieces.
type StrV struct{ P []Piece }

// BuilderV is the state of a strings.Builder.
type BuilderV struct{ S StrV }

type pieceKind uint8

const (
	pSub  pieceKind = iota // Base[Lo:Hi]
	pLit                   // Lit
	pRune                  // UTF-8 encoding of the rune Lo
	pTag                   // the unknown text Lit of number Lo, Hi bytes long
	pSeq                   // concatenation of the pieces of Seq, Hi bytes long
)

// Piece is a part of a string.
type Piece struct {
	Kind   pieceKind
	Base   *StrBase
	Lo, Hi Lin
	Lit    string
	Seq    *Seq
}

// StrBase is an unknown valid UTF-8 text.
type StrBase struct {
	ID   int
	Name string
	N    Lin // length in bytes
	R    Lin // length in runes
	Rune func(x *Interp, st *State, k Lin) Lin
	// Track makes the runes read from the text remember where they come from.
	Track bool
}

// intAt is rune k of b, with value r.
func intAt(b *StrBase, k, r Lin) IntV {
	if !b.Track {
		return IntV{L: r}
	}
	return IntV{r, &Prov{B: b, K: k}}
}

// image is the result l of applying the function tag to the rune v.
func image(v Val, tag string, l Lin) IntV {
	if p := v.(IntV).P; p != nil && p.Tag == "" {
		return IntV{l, &Prov{p.B, p.K, tag}}
	}
	return IntV{L: l}
}

func (b *StrBase) posFam() string  { return fmt.Sprintf("P#%d", b.ID) }
func (b *StrBase) runeFam() string { return fmt.Sprintf("r#%d", b.ID) }
func (b *StrBase) byteFam() string { return fmt.Sprintf("b#%d", b.ID) }

// Formula is a boolean combination of linear constraints and set memberships.
type Formula struct {
	Op   fop
	B    bool
	L    Lin
	Set  *RuneSet
	X, Y *Formula
}

type fop uint8

const (
	fConst fop = iota
	fGE        // L >= 0
	fEQ        // L == 0
	fNE
	fSet // L in Set
	fAnd
	fOr
)

func FBool(b bool) *Formula { return &Formula{Op: fConst, B: b} }
func FGE(l Lin) *Formula {
	if c, ok := l.Const(); ok {
		return FBool(c >= 0)
	}
	return &Formula{Op: fGE, L: l}
}
func FEQ(l Lin) *Formula {
	if c, ok := l.Const(); ok {
		return FBool(c == 0)
	}
	return &Formula{Op: fEQ, L: l}
}
func FNE(l Lin) *Formula             { return FNot(FEQ(l)) }
func FIn(l Lin, s *RuneSet) *Formula { return &Formula{Op: fSet, L: l, Set: s} }
func BConst(b bool) BoolV            { return BoolV{FBool(b)} }
func FAnd(a, b *Formula) *Formula {
	if a.Op == fConst {
		if a.B {
			return b
		}
		return a
	}
	if b.Op == fConst {
		if b.B {
			return a
		}
		return b
	}
	return &Formula{Op: fAnd, X: a, Y: b}
}
func FOr(a, b *Formula) *Formula { return FNot(FAnd(FNot(a), FNot(b))) }
func FNot(f *Formula) *Formula {
	switch f.Op {
	case fConst:
		return FBool(!f.B)
	case fGE:
		return FGE(f.L.Neg().AddK(-1))
	case fEQ:
		return &Formula{Op: fNE, L: f.L}
	case fNE:
		return &Formula{Op: fEQ, L: f.L}
	case fSet:
		return &Formula{Op: fSet, L: f.L, Set: f.Set.Complement()}
	case fAnd:
		return &Formula{Op: fOr, X: FNot(f.X), Y: FNot(f.Y)}
	case fOr:
		return &Formula{Op: fAnd, X: FNot(f.X), Y: FNot(f.Y)}
	}
	panic("formula")
}

func (f *Formula) String() string {
	switch f.Op {
	case fConst:
		return fmt.Sprint(f.B)
	case fGE:
		return f.L.String() + ">=0"
	case fEQ:
		return f.L.String() + "=0"
	case fNE:
		return f.L.String() + "!=0"
	case fSet:
		return f.L.String() + " in " + f.Set.String()
	case fAnd:
		return "(" + f.X.String() + " && " + f.Y.String() + ")"
	case fOr:
		return "(" + f.X.String() + " || " + f.Y.String() + ")"
	}
	return "?"
}

// RuneSet is a set of integers as sorted disjoint closed intervals.
type RuneSet struct{ R [][2]int64 }

const maxRune = 0x10FFFF

func NewSet(r ...[2]int64) *RuneSet { return (&RuneSet{}).union(&RuneSet{r}) }

func (s *RuneSet) union(t *RuneSet) *RuneSet {
	all := append(append([][2]int64(nil), s.R...), t.R...)
	for i := 1; i < len(all); i++ {
		for j := i; j > 0 && all[j][0] < all[j-1][0]; j-- {
			all[j], all[j-1] = all[j-1], all[j]
		}
	}
	out := &RuneSet{}
	for _, r := range all {
		if n := len(out.R); n > 0 && r[0] <= out.R[n-1][1]+1 {
			if r[1] > out.R[n-1][1] {
				out.R[n-1][1] = r[1]
			}
			continue
		}
		out.R = append(out.R, r)
	}
	return out
}

const setMin, setMax = -1 << 40, 1 << 40

func (s *RuneSet) Complement() *RuneSet {
	out := &RuneSet{}
	next := int64(setMin)
	for _, r := range s.R {
		if r[0] > next {
			out.R = append(out.R, [2]int64{next, r[0] - 1})
		}
		next = r[1] + 1
	}
	if next <= setMax {
		out.R = append(out.R, [2]int64{next, setMax})
	}
	return out
}

func (s *RuneSet) Intersect(t *RuneSet) *RuneSet {
	out := &RuneSet{}
	i, j := 0, 0
	for i < len(s.R) && j < len(t.R) {
		lo, hi := s.R[i][0], s.R[i][1]
		if t.R[j][0] > lo {
			lo = t.R[j][0]
		}
		if t.R[j][1] < hi {
			hi = t.R[j][1]
		}
		if lo <= hi {
			out.R = append(out.R, [2]int64{lo, hi})
		}
		if s.R[i][1] < t.R[j][1] {
			i++
		} else {
			j++
		}
	}
	return out
}

func (s *RuneSet) Minus(t *RuneSet) *RuneSet { return s.Intersect(t.Complement()) }
func (s *RuneSet) Empty() bool               { return len(s.R) == 0 }
func (s *RuneSet) Has(v int64) bool {
	for _, r := range s.R {
		if v >= r[0] && v <= r[1] {
			return true
		}
	}
	return false
}
func (s *RuneSet) Eq(t *RuneSet) bool {
	if len(s.R) != len(t.R) {
		return false
	}
	for i := range s.R {
		if s.R[i] != t.R[i] {
			return false
		}
	}
	return true
}

// Shift returns { v + d : v in s }.
func (s *RuneSet) Shift(d int64) *RuneSet {
	out := &RuneSet{}
	for _, r := range s.R {
		out.R = append(out.R, [2]int64{r[0] + d, r[1] + d})
	}
	return out
}

// Mul returns the set with the sign of each element flipped.
func (s *RuneSet) Neg() *RuneSet {
	out := &RuneSet{}
	for i := len(s.R) - 1; i >= 0; i-- {
		out.R = append(out.R, [2]int64{-s.R[i][1], -s.R[i][0]})
	}
	return out
}

func (s *RuneSet) Count() int64 {
	var n int64
	for _, r := range s.R {
		n += r[1] - r[0] + 1
	}
	return n
}

func (s *RuneSet) String() string {
	var b strings.Builder
	for i, r := range s.R {
		if i == 8 {
			fmt.Fprintf(&b, "... %d ranges", len(s.R))
			break
		}
		if i > 0 {
			b.WriteByte(',')
		}
		if r[0] == r[1] {
			fmt.Fprintf(&b, "%#x", r[0])
		} else {
			fmt.Fprintf(&b, "%#x-%#x", r[0], r[1])
		}
	}
	return "{" + b.String() + "}"
}

// ValidRunes are the Unicode scalar values: what a valid UTF-8 text contains.
var ValidRunes = NewSet([2]int64{0, 0xD7FF}, [2]int64{0xE000, maxRune})

// Seq is an immutable description of the contents of a sequence.
type Seq struct {
	Segs []Seg
}

type segKind uint8

const (
	sElems segKind = iota
	sSrc
	sFill
	sChain
	sTop // anything
)

// Seg is a run of elements.
type Seg struct {
	Kind  segKind
	Elems []Val
	// Pend has a bit for each element that was stored and not checked yet
	Pend   uint64
	Src    *Source
	Lo, Hi Lin
	Zero   Val
	N      Lin
	C      *Chain
}

func (s Seg) Len() Lin {
	switch s.Kind {
	case sElems:
		return K(int64(len(s.Elems)))
	case sSrc:
		return s.Hi.Sub(s.Lo)
	case sChain:
		return s.C.N
	}
	return s.N
}

func (q *Seq) Len() Lin {
	l := K(0)
	for _, s := range q.Segs {
		l = l.Add(s.Len())
	}
	return l
}

// Source is an input sequence; element i is given by families.
type Source struct {
	Split bool // a write splits it
	Name  string
	N     Lin
	// Elem gives the element at idx (known to be in range); it may fork.
	Elem func(x *Interp, st *State, idx Lin) []ElemOut
	// BaseOf is set for the rune or byte view of a text.
	RunesOf *StrBase
	BytesOf *StrBase
}

// ElemOut is one way of reading an element.
type ElemOut struct {
	St *State
	V  Val
}

// Chain summarises a sequence built by the program: its length and registers
// whose meaning is given by the specification of the element type.
type Chain struct {
	Spec *ChainSpec
	N    Lin
	R    []Val
}

// ChainSpec tells how sequences of one element type are summarised.
type ChainSpec struct {
	All  bool // the last element is summarised as well
	Name string
	// Fills: runs of a value with something behind them are checked and pushed.
	Fills bool
	// Init gives the registers of the empty sequence.
	Init func(x *Interp, st *State) []Val
	// First gives those before an element, when there is one.
	First func(x *Interp, st *State, v Val) []Val
	// Check is called when an element is added, at its program point.
	Check func(x *Interp, st *State, n Lin, v Val)
	// CheckQ is like Check, with the sequence so far; n counts from its start.
	CheckQ func(x *Interp, st *State, q *Seq, n Lin, v Val)
	// AfterSrc lets a summary start behind runs of other sequences.
	AfterSrc bool
	// KeyOf classifies elements: states whose last elements are of different
	// classes are kept apart.
	KeyOf func(x *Interp, st *State, v Val) string
	// Index says that the registers are used as indices.
	Index bool
	// Push adds an element to the summary.
	Push func(x *Interp, st *State, r []Val, n Lin, v Val) []Val
	// PushSrc adds a run of elements of another sequence.
	PushSrc func(x *Interp, st *State, r []Val, n Lin, s Seg) ([]Val, bool)
	// SplitSrc says up to where a run of elements of another sequence can be
	// added to the n elements before it.
	SplitSrc func(x *Interp, st *State, n Lin, s Seg) (Lin, bool)
	// Elem reads an element; nil reads anything.
	Elem func(x *Interp, st *State, r []Val, n, idx Lin) []ElemOut
	// Pure says that reading an element again gives the same.
	Pure bool
	// Reverse gives the summary of the reversed sequence, or nil.
	Reverse func(x *Interp, st *State, c *Chain) *Chain
}
