package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax&^packages.NeedTypesInfo | packages.NeedTypesInfo, Dir: os.Args[1]}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for _, p := range spkgs {
		p.Build()
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && len(fn.Blocks) > 0 && strings.Contains(fn.String(), os.Args[2]) {
			fn.WriteTo(os.Stdout)
			fmt.Println()
		}
	}
}
