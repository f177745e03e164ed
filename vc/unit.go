package main

// Verification of units: functions with contracts, clients, lemmas.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is the state of one run of the verifier.
type Run struct {
	P        *Program
	ie       *initEval
	S        *Spec
	obls     []*Obl
	tab      *tables
	used     map[string]bool
	inlined  map[string]bool
	assumed  map[string]bool
	funcs    map[string]bool
	loops    map[string]string
	mutated  map[*ssa.Global]string
	warm     map[string]map[string]bool
	optWarm  map[string]bool
	prop     string
	active   map[*Contract]bool
	unitOb   map[*Contract][]*Obl
	constArr map[int64]*CArr
	opaqueID map[interface{}]int64
	cellN    int
	mu       sync.Mutex // of obls, for the check command
	onFail   func([]*Obl)
}

func newRun(dir, specDir string) *Run {
	P, err := loadProgram(dir)
	if err != nil {
		fatal("the tree does not build: %v", err)
	}
	R := &Run{P: P, used: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, funcs: map[string]bool{}, loops: map[string]string{}, mutated: map[*ssa.Global]string{}, warm: map[string]map[string]bool{}, optWarm: map[string]bool{}, active: map[*Contract]bool{}, unitOb: map[*Contract][]*Obl{}, constArr: map[int64]*CArr{}, opaqueID: map[interface{}]int64{}}
	R.ie = newInitEval(P)
	R.S = loadSpec(specDir)
	R.S.resolve(P)
	R.tab = newTables(R)
	R.findMutated()
	return R
}

// findMutated finds the package variables stored to outside initialisation.
func (R *Run) findMutated() {
	for _, f := range R.P.moduleFuncs() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		initOnly := false
		for p := f.Parent(); p != nil; p = p.Parent() {
			if p.Name() == "init" {
				initOnly = true
			}
		}
		if initOnly || R.onlyFromInit(f, map[*ssa.Function]bool{}) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g, ok := rootGlobal(in.Addr); ok {
						R.mutated[g] = fmt.Sprintf("%s at %s", f, R.P.pos(in.Pos()))
					}
				case *ssa.MapUpdate:
					if u, ok := in.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							R.mutated[g] = fmt.Sprintf("%s at %s", f, R.P.pos(in.Pos()))
						}
					}
				case *ssa.Call:
					// address of a package variable handed to a call
					for _, a := range in.Call.Args {
						if g, ok := a.(*ssa.Global); ok && R.P.inModule(g.Pkg) {
							R.mutated[g] = fmt.Sprintf("%s at %s", f, R.P.pos(in.Pos()))
						}
					}
					if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						if u, ok := in.Call.Args[0].(*ssa.UnOp); ok {
							if g, ok := u.X.(*ssa.Global); ok {
								R.mutated[g] = fmt.Sprintf("%s at %s", f, R.P.pos(in.Pos()))
							}
						}
					}
				}
			}
		}
	}
}

// onlyFromInit reports that an unexported function is called only while the
// packages are initialised.
func (R *Run) onlyFromInit(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Object() == nil || f.Object().Exported() || f.Signature.Recv() != nil {
		return false
	}
	refs := 0
	for _, g := range R.P.moduleFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					refs++
					root := g
					for root.Parent() != nil {
						root = root.Parent()
					}
					if root.Name() == "init" || strings.HasPrefix(root.Name(), "init#") {
						continue
					}
					if !R.onlyFromInit(root, seen) {
						return false
					}
				}
			}
		}
	}
	return refs > 0
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch u := v.(type) {
		case *ssa.Global:
			return u, true
		case *ssa.FieldAddr:
			v = u.X
		case *ssa.IndexAddr:
			v = u.X
		default:
			return nil, false
		}
	}
}

func (R *Run) newX(unit string) *X {
	x := &X{P: R.P, ie: R.ie, S: R.S, R: R, constArr: R.constArr, unit: unit, reveal: map[string]bool{},
		inlined: R.inlined, used: R.used, mutated: R.mutated, opaqueID: R.opaqueID, warm: R.warm, optWarm: R.optWarm,
		noCon: map[*ssa.Function]bool{}, facts: map[string]bool{}, assumed: R.assumed, loopsSeen: R.loops, cellTyp: map[int]types.Type{}}
	return x
}

// guard runs f; a construct outside the verifier's reach becomes a failed
// obligation.
func (x *X) guard(st *State, f func()) {
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			where := x.unit
			if len(x.stack) > 0 {
				where = x.stack[len(x.stack)-1].String()
			}
			o := &Obl{Kind: "unsupported", Fn: where, Unit: x.unit, goal: False, done: true,
				Name: fmt.Sprintf("%s/unsupported: in %s: %s", x.unit, where, u.msg)}
			o.res = result{status: "unknown", solver: "generator", reason: u.msg}
			x.obls = append(x.obls, o)
		}
	}()
	f()
}

func (x *X) startState() *State {
	st := newState()
	st.alloc = Fresh("alloc0", SInt, bi(1), nil)
	x.allocE = st.alloc
	return st
}

// verify generates and discharges the obligations of a contract, once.
func (R *Run) verify(c *Contract) []*Obl {
	if o, ok := R.unitOb[c]; ok {
		return o
	}
	if R.active[c] {
		return nil
	}
	R.active[c] = true
	defer delete(R.active, c)
	if os.Getenv("VC_TRACE") != "" {
		t0 := time.Now()
		fmt.Fprintf(os.Stderr, "verify %s\n", c.name)
		defer func() { fmt.Fprintf(os.Stderr, "done %s %.1fs\n", c.name, time.Since(t0).Seconds()) }()
	}
	x := R.newX(c.name)
	x.con = c
	for _, r := range c.reveal {
		x.reveal[r] = true
	}
	switch c.kind {
	case "func":
		fn := R.P.funcByName(c.name)
		if fn == nil {
			x.missing(c, "function not found")
			break
		}
		R.P.ensureBuilt(fn.Pkg)
		R.funcs[c.name] = true
		cases := c.cases
		if len(cases) == 0 {
			cases = []*Expr{nil}
		}
		for _, cs := range cases {
			cs := cs
			st := x.startState()
			x.guard(st, func() { R.runFunc(x, c, fn, st, cs) })
		}
		if len(c.cases) > 0 {
			st := x.startState()
			args := x.params(st, fn)
			sc := R.S.bind(x, c, st, st, args, nil)
			var cs []*Term
			for _, e := range c.cases {
				cs = append(cs, sc.term(e))
			}
			x.record(st, "cases", fn.Pos(), Or(cs...), "the cases are exhaustive")
		}
	case "unit":
		st := x.startState()
		x.guard(st, func() { R.runUnit(x, c, st) })
	case "object":
		st := x.startState()
		x.guard(st, func() { R.runObject(x, c, st) })
	case "lemma":
		st := x.startState()
		x.guard(st, func() { R.runLemma(x, c, st) })
	}
	for _, o := range x.obls {
		if o.Props == nil {
			o.Props = c.allProps()
		}
	}
	R.discharge(x.obls, c.helper)
	c.ok, c.tried = true, true
	for _, o := range x.obls {
		if o.res.status != "unsat" {
			c.ok = false
			if os.Getenv("VC_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "  FAILED %s [%s]\n", o.Name, o.res.status)
			}
		}
	}
	R.unitOb[c] = x.obls
	if c.helper && !c.ok {
		return nil // the callers see the body
	}
	R.mu.Lock()
	R.obls = append(R.obls, x.obls...)
	R.mu.Unlock()
	if R.onFail != nil && !c.ok {
		var bad []*Obl
		for _, o := range x.obls {
			if o.res.status != "unsat" && o.counts(R.prop) {
				bad = append(bad, o)
			}
		}
		if len(bad) > 0 {
			R.onFail(bad)
		}
	}
	return x.obls
}

func (x *X) missing(c *Contract, why string) {
	o := &Obl{Kind: "missing", Unit: x.unit, goal: False, done: true, Name: x.unit + "/missing: " + why}
	o.res = result{status: "unknown", solver: "generator", reason: why}
	x.obls = append(x.obls, o)
}

func (c *Contract) allProps() []string {
	m := map[string]bool{}
	for _, p := range c.props {
		m[p] = true
	}
	for _, e := range c.ens {
		for _, p := range e.props {
			m[p] = true
		}
	}
	bodies := [][]*Stmt{c.body}
	for _, m := range c.methods {
		bodies = append(bodies, m.body)
	}
	for _, b := range bodies {
		for _, s := range b {
			if s.cl != nil {
				for _, p := range s.cl.props {
					m[p] = true
				}
			}
		}
	}
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func (c *Contract) hasProp(p string) bool {
	for _, q := range c.allProps() {
		if p == q {
			return true
		}
	}
	return false
}

func (x *X) params(st *State, fn *ssa.Function) []Val {
	var args []Val
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		v := x.symVal(st, n, p.Type())
		if f, ok := v.(*VFunc); ok && f.pred != "" {
			if i > 0 {
				f.dom, _ = args[i-1].(*Term)
			}
			x.preds = append(x.preds, f)
		}
		args = append(args, v)
	}
	return args
}

func valTerms(vs []Val) []*Term {
	var out []*Term
	for _, v := range vs {
		if t, ok := v.(*Term); ok && t.sort == SInt {
			out = append(out, t)
		}
	}
	return out
}

func (R *Run) runFunc(x *X, c *Contract, fn *ssa.Function, st *State, cs *Expr) {
	args := x.params(st, fn)
	x.vals = valTerms(args)
	for _, m := range c.mem {
		if m.kind == "given" {
			sc := R.S.bind(x, c, st, st, args, nil)
			sc.setField(m.a, sc.eval(m.e.e))
		}
	}
	pre := st.clone()
	sc := R.S.bind(x, c, st, pre, args, nil)
	for _, r := range c.req {
		st.assume(sc.term(r.e))
	}
	if cs != nil {
		st.assume(sc.term(cs))
	}
	x.vacuity(st)
	if len(c.tries) > 0 {
		for i, n := range c.params {
			if s, ok := args[i].(*VSlice); ok {
				st.ghost["in."+n] = x.view(st, s)
			}
		}
	}
	pre = st.clone()
	x.noCon[fn] = true
	x.decr0 = nil
	if c.decr != nil {
		x.decr0 = sc.term(c.decr)
	}
	n := 0
	x.inlineCall(st, fn, args, nil, func(st *State, rs []Val) {
		n++
		sc := R.S.bind(x, c, st, pre, args, rs)
		for _, e := range c.ens {
			o := x.record(st, "ensures", fn.Pos(), sc.term(e.e), e.src)
			o.Props = e.props
		}
		for _, w := range sortedClauseKeys(c.writes) {
			d, ok := sc.vars[w].(*VSlice)
			if !ok {
				unsup("contract: writes %s", w)
			}
			psc := R.S.bind(x, c, pre, pre, args, rs)
			want := psc.term(c.writes[w].e)
			got := x.view(st, &VSlice{ref: d.ref, off: d.off, len: SLen(want), cap: d.cap, elem: d.elem})
			o := x.record(st, "ensures", fn.Pos(), Eq(got, want), "writes "+w+" := "+c.writes[w].src)
			o.Props = c.writes[w].props
		}
		var ws []*VSlice
		for w := range c.writes {
			ws = append(ws, sc.vars[w].(*VSlice))
		}
		ws = append(ws, x.memObs(st, pre, c, args, rs, fn)...)
		x.frameObs(st, pre, ws, args, c.newResults(rs), fn.Name())
	})
	if n == 0 {
		o := x.record(st, "returns", fn.Pos(), Bool(st.dead || n > 0), "the function can return")
		_ = o
	}
	delete(x.noCon, fn)
}

// frameObs: nothing which existed before is modified except the given
// slices; results are new memory.
func (x *X) frameObs(st, pre *State, ws []*VSlice, args, rs []Val, name string) {
	for _, k := range sortedKeys(st.heaps) {
		h1 := st.heaps[k]
		h0 := pre.heaps[k]
		if h0 == nil {
			h0 = Var(k+"!init."+x.unit, SHeap)
		}
		if h0 == h1 {
			continue
		}
		r := Fresh("fr.r", SInt, bi(0), nil)
		i := Fresh("fr.i", SInt, nil, nil)
		g := Eq(HGet(h1, r, i), HGet(h0, r, i))
		cond := []*Term{Lt(r, pre.alloc)}
		if x.own {
			cond = append(cond, Not(x.ownT(r)))
		}
		for _, w := range ws {
			if kk, _, ok := heapKey(w.elem, nil); ok && kk == k {
				cond = append(cond, Or(Ne(r, w.ref), Lt(i, w.off), Le(Add(w.off, w.len), i)))
			}
		}
		o := x.record(st, "frame", 0, Imp(And(cond...), g), name+" leaves existing "+k[1:]+" arrays alone")
		o.Props = []string{"X02"}
	}
	var fresh []*VSlice
	for _, v := range rs {
		if s, ok := v.(*VSlice); ok {
			o := x.record(st, "fresh", 0, Or(Eq(s.cap, Int(0)), Le(pre.alloc, s.ref)), "result of "+name+" is new memory")
			o.Props = []string{"X02"}
			fresh = append(fresh, s)
		}
	}
}

// vacuity asks that the assumptions are not contradictory.
func (x *X) vacuity(st *State) {
	if x.quiet > 0 {
		return
	}
	o := x.record(st, "vacuity", 0, False, "the preconditions can be met")
	o.Props = nil
}

// basic types of unit parameters
func paramType(s string) types.Type {
	switch s {
	case "rune":
		return types.Typ[types.Int32]
	case "int":
		return types.Typ[types.Int]
	case "byte":
		return types.Typ[types.Uint8]
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "bytes":
		return types.NewSlice(types.Typ[types.Uint8])
	}
	return nil
}

func (R *Run) runUnit(x *X, c *Contract, st *State) {
	var args []Val
	for i, p := range c.params {
		args = append(args, x.unitArg(st, p, c.ptypes[i], c))
	}
	x.vals = valTerms(args)
	sc := R.S.bind(x, c, st, st, args, nil)
	for _, r := range c.req {
		st.assume(sc.term(r.e))
	}
	x.vacuity(st)
	pre := st.clone()
	R.runStmts(x, c.body, st, pre, sc.vars, func(st *State, vars map[string]Val) {
		sc := &scope{S: R.S, x: x, st: st, old: pre, vars: vars}
		for _, e := range c.ens {
			o := x.record(st, "ensures", 0, sc.term(e.e), e.src)
			o.Props = e.props
		}
	})
}

// runStmts runs the statements of a unit, from the state pre on.
func (R *Run) runStmts(x *X, body []*Stmt, st, pre *State, vars map[string]Val, k func(*State, map[string]Val)) {
	if st.dead {
		return
	}
	sc := &scope{S: R.S, x: x, st: st, old: pre, vars: vars}
	if len(body) == 0 {
		k(st, vars)
		return
	}
	s, rest := body[0], body[1:]
	switch s.kind {
	case "assume":
		st.assume(sc.term(s.cl.e))
		R.runStmts(x, rest, st, pre, vars, k)
	case "assert":
		g := sc.term(s.cl.e)
		if x.quiet == 0 {
			o := x.record(st, "assert", 0, g, s.cl.src)
			o.Props = s.cl.props
		}
		st.assume(g)
		R.runStmts(x, rest, st, pre, vars, k)
	case "set":
		st.ghost[s.res[0]] = sc.ghostTerm(s.cl.e)
		R.runStmts(x, rest, st, pre, vars, k)
	case "call":
		var as []Val
		for _, a := range s.args {
			as = append(as, sc.eval(a))
		}
		R.callNamed(x, st, sc, s.fn, as, func(st *State, rs []Val) {
			n := map[string]Val{}
			for k, v := range vars {
				n[k] = v
			}
			for j, r := range s.res {
				if j >= len(rs) {
					unsup("unit: %s returns %d values", s.fn, len(rs))
				}
				n[r] = rs[j]
			}
			R.runStmts(x, rest, st, pre, n, k)
		})
	}
}

// callNamed calls pkg.Func, pkg.Type.Method (receiver first), or a method of
// a value v.Method.
func (R *Run) callNamed(x *X, st *State, sc *scope, name string, as []Val, k func(*State, []Val)) {
	if i := strings.LastIndexByte(name, '.'); i > 0 {
		parts := strings.Split(name[:i], ".")
		if v, ok := sc.vars[parts[0]]; ok {
			m := name[i+1:]
			if len(parts) > 1 {
				v = sc.field(v, strings.Join(parts[1:], "."))
			}
			switch v := v.(type) {
			case *VIface:
				if v.dyn == nil {
					unsup("unit: method %s of an unknown value", m)
				}
				fn := R.P.lookupMethod(v.dyn, m)
				if fn == nil {
					unsup("unit: no method %s", m)
				}
				x.callFn(st, fn, append([]Val{v.val}, as...), nil, nil, k)
				return
			}
			unsup("unit: method of %T", v)
		}
	}
	fn := R.P.funcByName(name)
	if fn == nil {
		unsup("unit: function %s not found", name)
	}
	for i, p := range fn.Params {
		if i < len(as) {
			as[i] = coerce(as[i], p.Type())
		}
	}
	x.callFn(st, fn, as, nil, nil, k)
}

func coerce(v Val, t types.Type) Val {
	if _, ok := v.(*VNilPtr); ok {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return &VSlice{ref: Int(0), off: Int(0), len: Int(0), cap: Int(0), elem: u.Elem()}
		case *types.Interface:
			return &VIface{id: Int(0)}
		}
	}
	return v
}

func (P *Program) lookupMethod(t types.Type, name string) *ssa.Function {
	ms := P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

var debugTrust bool // never set by a check

func (x *X) ensureContract(c *Contract, fn *ssa.Function) bool {
	if c.trusted != "" || debugTrust {
		return true
	}
	if x.R.active[c] {
		return false
	}
	if !c.tried {
		x.R.verify(c)
	}
	return c.ok
}

// ---- lemmas

func (R *Run) runLemma(x *X, c *Contract, st *State) {
	if c.over != "" {
		R.groundLemma(x, c, st)
		return
	}
	x.reveal["lemmas"] = true
	var bs []Val
	for i, p := range c.params {
		bs = append(bs, Fresh(p, parseSort(&parser{file: c.pos}, c.ptypes[i]), nil, nil))
	}
	sc := &scope{S: R.S, x: x, st: st, old: st, vars: map[string]Val{}}
	for i, p := range c.params {
		sc.vars[p] = bs[i]
	}
	for _, r := range c.req {
		st.assume(sc.term(r.e))
	}
	if c.induct != "" {
		// the statement for all smaller values
		bv := &scope{S: R.S, x: x, st: st, old: st, vars: map[string]Val{}}
		var bvars []*Term
		for i, p := range c.params {
			b := BVar(p, bs[i].(*Term).sort)
			bvars = append(bvars, b)
			bv.vars[p] = b
		}
		cur, small := sc.vars[c.induct].(*Term), bv.vars[c.induct].(*Term)
		var meas *Term
		if cur.sort == SSeq {
			meas = Lt(SLen(small), SLen(cur))
		} else {
			meas = And(Le(Int(0), small), Lt(small, cur))
		}
		for _, f := range bothFuels(bvars, Imp(meas, R.lemmaBody(c, bv)), R.lemmaPats(c, bv)) {
			st.assume(f)
		}
	}
	for _, s := range c.body {
		if s.kind == "assert" {
			g := sc.term(s.cl.e)
			x.record(st, "assert", 0, g, s.cl.src)
			st.assume(g)
		}
	}
	for _, e := range c.ens {
		o := x.record(st, "lemma", 0, sc.term(e.e), e.src)
		o.Props = e.props
	}
}

// groundLemma evaluates a statement about finitely many integers.
func (R *Run) groundLemma(x *X, c *Contract, st *State) {
	var keys []int64
	if c.over == "range" {
		for k := c.rlo; k <= c.rhi; k++ {
			keys = append(keys, k)
		}
	} else {
		r := refMaps[c.over]
		if r == nil {
			fatal("%s: no table %s", c.pos, c.over)
		}
		keys = r.keys
	}
	bad := True
	for _, k := range keys {
		sc := &scope{S: R.S, x: x, st: st, old: st, vars: map[string]Val{c.params[0]: Int(k)}}
		for _, e := range c.ens {
			if t := sc.term(e.e); t != True {
				bad = False
				x.missing(c, fmt.Sprintf("does not hold at %#x: %s", k, e.src))
			}
		}
		if bad != True {
			break
		}
	}
	o := x.record(st, "ground", 0, bad, fmt.Sprintf("holds at each of %d values of %s", len(keys), c.params[0]))
	o.Props = c.props
}

func (R *Run) lemmaBody(c *Contract, sc *scope) *Term {
	var rs, es []*Term
	if c.over == "range" {
		v := sc.vars[c.params[0]].(*Term)
		rs = append(rs, Le(Int(c.rlo), v), Le(v, Int(c.rhi)))
	} else if c.over != "" {
		r := refMaps[c.over]
		rs = append(rs, Ne(refApp(r, sc.vars[c.params[0]].(*Term)), Int(r.def)))
	}
	for _, r := range c.req {
		rs = append(rs, sc.term(r.e))
	}
	for _, e := range c.ens {
		es = append(es, sc.term(e.e))
	}
	return Imp(And(rs...), And(es...))
}

func (R *Run) lemmaPats(c *Contract, sc *scope) [][]*Term {
	var out [][]*Term
	for _, p := range c.trig {
		var ts []*Term
		for _, e := range p {
			ts = append(ts, sc.term(e))
		}
		out = append(out, ts)
	}
	return out
}

// lemmas proves all lemmas, in order, and makes them available.
func (R *Run) lemmas(prop string) {
	for _, c := range R.S.cons {
		if c.kind != "lemma" {
			continue
		}
		if ps := c.allProps(); len(prop) == 3 && len(ps) > 0 && !c.hasProp(prop) {
			continue // a lemma about another property
		}
		R.verify(c)
		if !c.ok || len(c.trig) == 0 {
			continue
		}
		R.addLemma(c)
	}
}

func (R *Run) addLemma(c *Contract) {
	sc := &scope{S: R.S, vars: map[string]Val{}}
	var bvars []*Term
	for i, p := range c.params {
		b := BVar(p, parseSort(&parser{file: c.pos}, c.ptypes[i]))
		bvars = append(bvars, b)
		sc.vars[p] = b
	}
	pats := R.lemmaPats(c, sc)
	need := map[string]bool{}
	for _, p := range pats {
		collect(p, map[*Term]bool{}, func(t *Term) {
			if t.k == KApp && !builtinFuncs[t.name] {
				need[t.name] = true
			}
		})
	}
	var ns []string
	for n := range need {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	condAxioms = append(condAxioms, condAxiom{name: c.name, local: c.local, need: ns, t: And(bothFuels(bvars, R.lemmaBody(c, sc), pats)...)})
}

// ---- discharging

func (R *Run) discharge(obls []*Obl, cheap bool) {
	type task struct {
		o  *Obl
		j  *job
		js []*job
	}
	var ts []*task
	for _, o := range obls {
		if o.done {
			continue
		}
		if o.Kind == "vacuity" {
			q := &query{hyps: o.hyps, goals: []*Term{False}, reveal: o.reveal}
			ts = append(ts, &task{o: o, j: q.render("z3-new", quickRlimit, quickTimeout)})
			continue
		}
		if o.goal == True {
			o.res = result{status: "unsat", solver: "simplifier"}
			o.done = true
			continue
		}
		hit := false
		for _, h := range o.hyps {
			if h == o.goal || h == False {
				hit = true
			}
		}
		if hit {
			o.res = result{status: "unsat", solver: "simplifier"}
			o.done = true
			continue
		}
		q := &query{hyps: o.hyps, goals: []*Term{o.goal}, reveal: o.reveal, vals: o.vals}
		ts = append(ts, &task{o: o, j: q.render("z3-new", quickRlimit, quickTimeout)})
	}
	var wg sync.WaitGroup
	for _, t := range ts {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			t.o.res = t.j.run()[0]
			for n := 1; n < 4 && t.o.res.status == "unknown" && t.o.Kind != "vacuity"; n++ {
				t.o.res = t.j.variant(n, nil).run()[0]
			}
		}()
	}
	wg.Wait()
	var rest []*task
	for _, t := range ts {
		t.o.done = true
		if t.o.Kind == "vacuity" {
			if t.o.res.status == "unsat" {
				t.o.res = result{status: "sat", solver: t.o.res.solver, reason: "the preconditions are contradictory"}
			} else {
				t.o.res = result{status: "unsat", solver: t.o.res.solver, time: t.o.res.time}
			}
			continue
		}
		if t.o.res.status == "unknown" {
			q := &query{hyps: t.o.hyps, goals: []*Term{t.o.goal}, reveal: t.o.reveal, vals: t.o.vals}
			t.js = []*job{q.render("z3-new", 0, slowTimeout), q.render("cvc5", 0, slowTimeout), q.render("z3", 0, slowTimeout)}
			rest = append(rest, t)
		}
	}
	if len(rest) > 10 {
		rest = rest[:10] // enough to report
	}
	if cheap {
		return
	}
	for _, t := range rest {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			ch := make(chan result, len(t.js))
			for _, j := range t.js {
				j := j
				go func() { ch <- j.run()[0] }()
			}
			for range t.js {
				r := <-ch
				if r.status == "unsat" {
					t.o.res = r
					return
				}
				if r.status == "sat" || t.o.res.model == nil && r.model != nil {
					t.o.res = r
				}
			}
		}()
	}
	wg.Wait()
}
