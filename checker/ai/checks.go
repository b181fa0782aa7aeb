package ai

import (
	"fmt"
	"os"

	"gtcheck/core"
)

// newRun prepares an analysis whose run-time panics are not obligations.
func newRun(p *core.Program, r *core.Report) *Interp {
	x := NewInterp(p, r)
	x.RulePanic, x.NoPanics = rSafe, true
	x.Trace = os.Getenv("GTTRACE") != ""
	return x
}

// CheckC01 decides that captures tile the text.
func CheckC01(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	x.CheckSplit(true, false)
	x.Close("split patterns")
	r.Min[rTile] = 20
}

// CheckC02 decides that flags are exact.
func CheckC02(p *core.Program, r *core.Report) {
	x := newRun(p, r)
	x.CheckSplit(false, true)
	x.Close("split patterns")
	r.Min[rMatch] = 15
	r.Min[rInv] = 3
}

// PrintStats prints counters of the linear arithmetic.
func PrintStats() {
	n := LPCount + 1
	fmt.Println("LP", LPCount, "rows", LPRows/n, "cols", LPCols/n, "piv", LPPiv/n, "pos", CntPos, "neg", CntNeg, "red", CntRed)
}

// nsRun runs the analyses of normalized strings, reporting only some rules.
func nsRun(p *core.Program, r *core.Report, rules ...string) *Interp {
	x := newRun(p, r)
	x.Only = map[string]bool{}
	for _, s := range rules {
		x.Only[s] = true
	}
	return x
}

// newString verifies what a new normalized string, and a slice of one, is.
func (x *Interp) newStrings(base *State) {
	x.CheckFromString(base)
	x.CheckSlice(base)
}

// CheckC03 decides that there is one alignment per byte.
func CheckC03(p *core.Program, r *core.Report) {
	x := nsRun(p, r, rOne, rOnly, rWriters)
	base := x.InitGlobals(NewState(), nsPkg)
	x.CheckTR(base)
	x.newStrings(base)
	x.CheckWriters("normalized", "alignments")
	x.Close("normalized strings")
	r.Min[rOne] = 5
}

// CheckC04 decides that alignments are ordered and inside the original text.
func CheckC04(p *core.Program, r *core.Report) {
	x := nsRun(p, r, rAl, rRest, rInit, rMono, rCut, rConv, rWriters)
	base := x.InitGlobals(NewState(), nsPkg)
	x.CheckTR(base)
	x.newStrings(base)
	x.CheckConvert(base)
	x.CheckWriters("normalized", "alignments", "original")
	x.Close("normalized strings")
	r.Min[rAl], r.Min[rMono], r.Min[rConv] = 3, 2, 4
}

// CheckC05 decides that the original text and its position stay.
func CheckC05(p *core.Program, r *core.Report) {
	x := nsRun(p, r, rOrig, rPlace, rAlias, rWriters)
	base := x.InitGlobals(NewState(), nsPkg)
	x.CheckTR(base)
	x.newStrings(base)
	x.CheckConvert(base)
	x.CheckAccessors(base)
	x.CheckEdits(base)
	x.CheckWriters("original", "originalShift", "alignments")
	x.Close("normalized strings")
	r.Min[rOrig], r.Min[rPlace] = 10, 4
}

// CheckC06 decides what happens to requests for ranges.
func CheckC06(p *core.Program, r *core.Report) {
	x := nsRun(p, r, rGet, rConv, rBounds, rRefuse, rSafe, rExact)
	base := x.InitGlobals(NewState(), nsPkg)
	x.checkExact(base.Clone())
	x.CheckConvert(base)
	x.CheckSlice(base)
	x.Close("normalized strings")
	r.Min[rGet], r.Min[rBounds], r.Min[rRefuse], r.Min[rSafe], r.Min[rExact] = 4, 2, 3, 8, 8
}

// CheckC07 decides the texts that edits produce.
func CheckC07(p *core.Program, r *core.Report) {
	x := nsRun(p, r, rText, rFilter, rMap, rTrim, rAdd, rReplace, rOnly, rPre)
	base := x.InitGlobals(NewState(), nsPkg)
	if os.Getenv("GTCASE") == "" {
		x.CheckTR(base)
		x.CheckAccessors(base)
	}
	x.CheckEdits(base)
	x.Close("normalized strings")
	r.Min[rFilter], r.Min[rMap], r.Min[rTrim], r.Min[rAdd], r.Min[rReplace] = 3, 6, 14, 6, 5
}

// CheckC08 decides the alignments after edits.
func CheckC08(p *core.Program, r *core.Report) {
	x := nsRun(p, r, rAl, rRest, rKeepAl, rOnly, rPre)
	base := x.InitGlobals(NewState(), nsPkg)
	if os.Getenv("GTCASE") == "" {
		x.CheckTR(base)
	}
	x.CheckEdits(base)
	x.Close("normalized strings")
	r.Min[rAl], r.Min[rKeepAl] = 3, 20
}
