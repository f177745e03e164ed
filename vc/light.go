package main

// The checks of X01 (no panic, no endless loop) and X02 (memory) run over all
// units at once.  They need little of the functional contracts: clauses which
// speak of the meaning of texts are left out on both sides, where they would
// be proved and where they would be used.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isLight(prop string) bool { return prop == "X01" || prop == "X02" }

// heavy: the clause speaks of more than numbers, lengths and errors.
func (S *Spec) heavy(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.op == "forall" {
		return true
	}
	if e.op == "call" || e.op == "id" {
		if strings.HasPrefix(e.s, "u8") {
			return false
		}
		switch e.s {
		case "cat", "take", "drop", "runes", "strof", "bytes", "at":
			return true
		}
		if S.defs[e.s] != nil || S.tables[e.s] != nil {
			return true
		}
	}
	for _, a := range e.args {
		if S.heavy(a) {
			return true
		}
	}
	return false
}

func (S *Spec) lightStmts(b []*Stmt) []*Stmt {
	var out []*Stmt
	for _, s := range b {
		if s.kind == "set" || s.kind == "assert" {
			continue
		}
		out = append(out, s)
	}
	return out
}

func ghosts(c *Contract) map[string]bool {
	m := map[string]bool{}
	add := func(b []*Stmt) {
		for _, s := range b {
			if s.kind == "set" {
				for _, r := range s.res {
					m[r] = true
				}
			}
		}
	}
	add(c.body)
	for _, d := range c.methods {
		add(d.body)
	}
	return m
}

func namesAny(e *Expr, m map[string]bool) bool {
	if e == nil {
		return false
	}
	if e.op == "id" && m[e.s] {
		return true
	}
	for _, a := range e.args {
		if namesAny(a, m) {
			return true
		}
	}
	return false
}

// lighten drops what X01 and X02 do not need and makes contracts, without
// any clause, for exported functions which have none.
func (R *Run) lighten() {
	S := R.S
	var cons []*Contract
	for _, c := range S.cons {
		ours := false
		for _, p := range []string{"hangul.", "cp949.", "hanja."} {
			ours = ours || strings.HasPrefix(c.name, p)
		}
		switch {
		case c.kind == "lemma" && !strings.HasPrefix(c.name, "u8"):
			continue
		case c.kind == "unit":
			continue
		case c.kind == "object" || c.kind == "func" && ours:
			var es []*Clause
			for _, e := range c.ens {
				if c.helper && !S.heavy(e.e) {
					es = append(es, e)
				}
			}
			c.ens = es
			c.tries = nil
			c.reveal = nil
			gs := ghosts(c)
			light := func(b []*Stmt) []*Stmt {
				var out []*Stmt
				for _, s := range S.lightStmts(b) {
					if s.cl != nil && namesAny(s.cl.e, gs) {
						continue
					}
					out = append(out, s)
				}
				return out
			}
			c.body = light(c.body)
			for _, m := range c.methods {
				m.body = light(m.body)
			}
			if c.kind == "func" && len(es) == 0 && c.decr == nil && len(c.writes) == 0 {
				c.inline = true // nothing to be used in place of the body
			}
			if !c.helper {
				c.props = []string{"X01", "X02"}
			}
		}
		cons = append(cons, c)
	}
	var auto []*Contract
	for _, f := range R.P.moduleFuncs() {
		if S.byFn[f] != nil || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || f.TypeParams().Len() > 0 {
			continue
		}
		if !plainParams(f.Signature) {
			continue
		}
		c := &Contract{kind: "func", name: f.Pkg.Pkg.Name() + "." + f.Name(), pos: R.P.pos(f.Pos()), props: []string{"X01", "X02"}, inline: true, writes: map[string]*Clause{}}
		if S.byName[c.name] != nil {
			continue
		}
		for i, p := range f.Params {
			n := p.Name()
			if n == "" || n == "_" {
				n = fmt.Sprintf("arg%d", i)
			}
			c.params = append(c.params, n)
		}
		S.byFn[f] = c
		S.byName[c.name] = c
		auto = append(auto, c)
	}
	sort.Slice(auto, func(i, j int) bool { return auto[i].name < auto[j].name })
	S.cons = append(cons, auto...)
}

// plainParams: values which a unit can make up.
func plainParams(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type().Underlying()
		if sl, ok := t.(*types.Slice); ok {
			t = sl.Elem().Underlying()
		}
		if b, ok := t.(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsString|types.IsBoolean) == 0 {
			return false
		}
	}
	return true
}

// counts tells which obligations decide a property.
func (o *Obl) counts(prop string) bool {
	switch prop {
	case "X01":
		return o.Kind != "frame" && o.Kind != "fresh" && o.Kind != "global"
	case "X02":
		switch o.Kind {
		case "frame", "fresh", "global", "memory", "invariant", "requires", "unsupported", "missing", "returns", "ensures", "writes", "vacuity", "cases":
			return true
		}
		return false
	}
	return true
}

// globals: no variable of the packages is written to after initialisation.
func (R *Run) globals() {
	var gs []*ssa.Global
	seen := map[*ssa.Global]bool{}
	for _, f := range R.P.moduleFuncs() {
		if f.Pkg == nil || !R.P.inModule(f.Pkg) {
			continue
		}
		for _, m := range f.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok && !seen[g] && !strings.HasPrefix(g.Name(), "init$") {
				seen[g] = true
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		o := &Obl{Kind: "global", Unit: g.String(), Props: []string{"X02"}, done: true, Name: g.String() + "/global: is not assigned after initialisation"}
		o.res = result{status: "unsat", solver: "evaluation"}
		if why, bad := R.mutated[g]; bad {
			o.res = result{status: "sat", solver: "evaluation", reason: "assigned in " + why}
		}
		R.obls = append(R.obls, o)
	}
}
