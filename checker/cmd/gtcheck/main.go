// gtcheck decides one property of gotokenizers by static analysis.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"

	"gtcheck/ai"
	"gtcheck/core"
	"gtcheck/flow"
)

type check struct {
	run   func(p *core.Program, r *core.Report)
	level string
}

var checks = map[string]check{
	"C01": {ai.CheckC01, "other"},
	"C02": {ai.CheckC02, "other"},
	"C03": {ai.CheckC03, "other"},
	"C04": {ai.CheckC04, "other"},
	"C05": {ai.CheckC05, "other"},
	"C06": {ai.CheckC06, "other"},
	"C07": {ai.CheckC07, "other"},
	"C08": {ai.CheckC08, "other"},
	"C13": {ai.CheckC13, "other"},
	"C14": {ai.CheckC14, "other"},
	"C30": {ai.CheckC30, "other"},
	"C15": {ai.CheckC15, "other"},
	"C17": {ai.CheckC17, "other"},
	"C16": {ai.CheckC16, "other"},
	"C27": {ai.CheckC27, "other"},
	"C09": {ai.CheckC09, "other"},
	"C18": {ai.CheckC18, "other"},
	"C19": {ai.CheckC19, "other"},
	"C28": {ai.CheckC28, "other"},
	"C29": {ai.CheckC29, "other"},
	"C10": {ai.CheckC10, "other"},
	"C11": {ai.CheckC11, "other"},
	"C12": {ai.CheckC12, "other"},
	"C23": {ai.CheckC23, "other"},
	"C24": {ai.CheckC24, "other"},
	"C25": {ai.CheckC25, "other"},
	"C26": {ai.CheckC26, "other"},
	"C31": {ai.CheckC31, "other"},
	"C20": {flow.CheckErrors, "other"},
	"C22": {flow.CheckDeterminism, "other"},
	"C21": {flow.CheckEffects, "other"},
}

func main() {
	prop := flag.String("prop", "", "property to decide")
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "/verif", "where evidence goes")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	c, ok := checks[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	start := time.Now()
	ai.LPDebug = os.Getenv("GTLP") != ""
	if f := os.Getenv("GTPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(25*time.Second, func() { pprof.StopCPUProfile(); w.Close(); ai.PrintStats(); os.Exit(9) })
	}
	debug.SetGCPercent(800)
	r := core.NewReport(*prop)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("GTCHECK_PANIC") != "" {
					panic(e)
				}
				r.Fail("internal", "panic", "", "the analysis could not handle this code: %v", e)
			}
		}()
		p, err := core.Load(*repo)
		if err != nil {
			r.Fail("load", "type-check", "", "%v", err)
			return
		}
		r.Stats["packages"] = len(p.Pkgs)
		r.Stats["source_files"] = p.Files()
		r.Stats["functions_in_module"] = len(p.Funcs)
		c.run(p, r)
	}()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *verbose {
		for _, o := range r.Obls {
			fmt.Println(o.OK, o.Rule, "|", o.Key, "|", o.Pos, "|", o.Detail)
		}
	}
	known := core.LoadKnown(filepath.Join(*verif, "known-findings.txt"))
	os.Exit(r.Finish(*verif, tier, seed, c.level, time.Since(start).Seconds(), "bash check.sh "+*prop, known))
}
