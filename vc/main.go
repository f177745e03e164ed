package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	dir := flag.String("repo", "/repo", "tree")
	spec := flag.String("spec", "/verif/contracts", "contracts")
	prop := flag.String("prop", "", "property")
	verbose := flag.Bool("v", false, "list obligations")
	home := flag.String("home", "/verif", "home")
	tier := flag.String("tier", "quick", "tier")
	flag.BoolVar(&debugTrust, "trust", false, "assume all other contracts (debugging)")
	flag.Parse()
	switch flag.Arg(0) {
	case "check":
		os.Exit(runCheck(*prop, *tier, *dir, *home))
	case "replay":
		os.Exit(runReplay(flag.Arg(1), *dir, *home))
	}
	t0 := time.Now()
	R := newRun(*dir, *spec)
	R.check(*prop)
	bad := 0
	for _, o := range R.obls {
		if *verbose || o.res.status != "unsat" {
			fmt.Printf("%-8s %-8s %6dms %v %s\n", o.res.status, o.res.solver, o.res.time.Milliseconds(), o.Props, o.Name)
		}
		if o.res.status != "unsat" {
			bad++
			for t, v := range o.res.model {
				fmt.Printf("      %s = %s\n", t, v)
			}
		}
	}
	fmt.Printf("%d obligations, %d failed, %.1fs, solver %.1fs, %d queries\n", len(R.obls), bad, time.Since(t0).Seconds(), float64(solverTime)/1e9, nQueries)
	if bad > 0 {
		os.Exit(1)
	}
}

func (R *Run) check(prop string) {
	R.prop = prop
	if isLight(prop) {
		R.lighten()
		R.globals()
	}
	R.constants(prop)
	R.lemmas(prop)
	for _, c := range R.S.cons {
		if c.kind == "lemma" {
			continue
		}
		if prop == "" || c.hasProp(prop) || prop == c.name {
			R.verify(c)
		}
	}
}

// constants checks the declared values of exported constants.
func (R *Run) constants(prop string) {
	for _, c := range R.S.consts {
		if prop != "" && c.props[0] != prop {
			continue
		}
		o := &Obl{Kind: "ground", Unit: c.name, Props: c.props, done: true, Name: fmt.Sprintf("%s/ground: the value is %#x", c.name, c.val)}
		parts := strings.SplitN(c.name, ".", 2)
		v, ok := R.P.namedConst(parts[0], parts[1])
		switch {
		case !ok:
			o.res = result{status: "sat", solver: "evaluation", reason: "no such constant"}
		case v.ExactString() != c.val.String():
			o.res = result{status: "sat", solver: "evaluation", reason: "the value is " + v.ExactString()}
		default:
			o.res = result{status: "unsat", solver: "evaluation"}
		}
		R.obls = append(R.obls, o)
	}
}
