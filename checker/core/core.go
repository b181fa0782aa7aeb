// Package core loads the program under analysis and collects obligations.
package core

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ModPath is the module under analysis.
const ModPath = "github.com/nlpodyssey/gotokenizers"

// Program is the type-checked program in SSA form.
type Program struct {
	Dir   string
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by path below the module ("" is the root)
	Fset  *token.FileSet
	Funcs []*ssa.Function // every function of the module with a body, sorted
	files int
}

// Load type-checks /repo (without tests) and builds its SSA form.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Dir: dir, Prog: prog, Pkgs: map[string]*ssa.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.Fset = pkgs[i].Fset
		sp.Build()
		p.files += len(pkgs[i].GoFiles)
		if pkgs[i].PkgPath == ModPath || strings.HasPrefix(pkgs[i].PkgPath, ModPath+"/") {
			p.Pkgs[strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, ModPath), "/")] = sp
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.InModule(fn) && len(fn.Blocks) > 0 {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

// InModule reports whether fn belongs to the module under analysis.
func (p *Program) InModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		// wrappers and thunks: judge by the object they stand for
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return InModulePath(o.Pkg().Path())
		}
		return false
	}
	return InModulePath(fn.Pkg.Pkg.Path())
}

// InModulePath reports whether a package path is part of the module.
func InModulePath(s string) bool { return s == ModPath || strings.HasPrefix(s, ModPath+"/") }

// Short strips the module path from a name.
func Short(s string) string { return strings.ReplaceAll(s, ModPath+"/", "") }

// Pos renders a position relative to the analysed directory.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// Files is the number of source files analysed.
func (p *Program) Files() int { return p.files }

// Obligation is one thing a rule had to establish.
type Obligation struct {
	Rule   string `json:"rule"`
	Key    string `json:"key"`
	Pos    string `json:"pos,omitempty"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

// Report collects the obligations of one property.
type Report struct {
	Property string
	Obls     []Obligation
	Stats    map[string]int
	Notes    []string
	Trusted  []string
	Explain  string
	index    map[string]int
	Min      map[string]int // rule -> least number of obligations
}

func NewReport(prop string) *Report {
	return &Report{Property: prop, Stats: map[string]int{}, index: map[string]int{}, Min: map[string]int{}}
}

// Add records an obligation; the same rule and key merge, a failure wins.
func (r *Report) Add(rule, key, pos string, ok bool, detail string) {
	id := rule + "|" + key
	if i, dup := r.index[id]; dup {
		if r.Obls[i].OK && !ok {
			r.Obls[i] = Obligation{rule, key, pos, ok, detail}
		}
		return
	}
	r.index[id] = len(r.Obls)
	r.Obls = append(r.Obls, Obligation{rule, key, pos, ok, detail})
}

// Fail records an obligation that could not be discharged.
func (r *Report) Fail(rule, key, pos, format string, a ...interface{}) {
	r.Add(rule, key, pos, false, fmt.Sprintf(format, a...))
}

// Pass records a discharged obligation.
func (r *Report) Pass(rule, key, pos, format string, a ...interface{}) {
	r.Add(rule, key, pos, true, fmt.Sprintf(format, a...))
}

// Known is one entry of the known-findings file.
type Known struct{ Property, Key, Text string }

// LoadKnown reads "finding: property=<id> key=<rule|key> <text>" lines.
// Spaces of the key are written as _.
func LoadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) != 3 {
			continue
		}
		ks = append(ks, Known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return ks
}

// Finish writes the evidence file and prints the verdict; it returns the exit code.
func (r *Report) Finish(verif, tier string, seed int, level string, wall float64, cmd string, known []Known) int {
	counts := map[string]int{}
	for _, o := range r.Obls {
		counts[o.Rule]++
	}
	for rule, n := range r.Min {
		if counts[rule] < n {
			r.Fail("coverage", rule, "", "rule %s found %d instances, at least %d were expected: its anchors are gone", rule, counts[rule], n)
		}
	}
	if len(r.Obls) == 0 {
		r.Fail("coverage", "any", "", "nothing was analysed")
	}
	var bad []Obligation
	discharged := 0
	for _, o := range r.Obls {
		if o.OK {
			discharged++
			continue
		}
		isKnown := false
		for _, k := range known {
			if k.Property == r.Property && k.Key == strings.ReplaceAll(o.Rule+"|"+o.Key, " ", "_") {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s %s]\n", r.Property, k.Text, o.Pos, o.Detail)
				isKnown = true
			}
		}
		if !isKnown {
			bad = append(bad, o)
		}
	}
	rules := map[string]int{}
	for _, o := range r.Obls {
		rules[o.Rule]++
	}
	samples := r.Obls
	if len(samples) > 40 {
		samples = samples[:40]
	}
	cov := map[string]interface{}{
		"obligations": len(r.Obls), "discharged": discharged,
		"checker_cmd": cmd, "trusted_base": r.Trusted,
		"explanation": r.Explain, "obligations_by_rule": rules, "analysed": r.Stats,
		"samples": samples,
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := map[string]interface{}{
		"property": r.Property, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": wall, "violations": len(bad),
		"assumptions": r.Trusted,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Property+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged\n", r.Property, len(r.Obls), discharged)
	if len(bad) == 0 {
		return 0
	}
	rel := filepath.Join("evidence", r.Property+".violations.txt")
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", o.Pos, o.Rule, o.Key, o.Detail)
	}
	os.WriteFile(filepath.Join(verif, rel), []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, rel)
	return 1
}

// ExtType finds a type of any package of the program.
func (p *Program) ExtType(path, name string) types.Type {
	for _, sp := range p.Prog.AllPackages() {
		if sp.Pkg.Path() == path {
			if o := sp.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	panic("type " + path + "." + name + " not found")
}
