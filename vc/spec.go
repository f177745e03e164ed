package main

// Meaning of the contract language.

import (
	"bufio"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Spec struct {
	dir       string
	defs      map[string]*Def
	cons      []*Contract
	byFn      map[*ssa.Function]*Contract
	byName    map[string]*Contract
	consts    []*ConstDecl
	tables    map[string]*TableDecl
	templates []*TemplateDecl
}

// refMaps are the finite reference maps, by name of their function symbol.
var refMaps = map[string]*refMap{}

type refMap struct {
	name string
	m    map[int64]int64
	def  int64
	keys []int64
}

func loadSpec(dir string) *Spec {
	S := &Spec{dir: dir, defs: map[string]*Def{}, byFn: map[*ssa.Function]*Contract{}, byName: map[string]*Contract{}, tables: map[string]*TableDecl{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, fn := range files {
		b, err := os.ReadFile(fn)
		if err != nil {
			fatal("%v", err)
		}
		f := parseSpec(filepath.Base(fn), string(b))
		for _, d := range f.defs {
			S.defs[d.name] = d
		}
		for _, c := range f.cons {
			if S.byName[c.name] != nil {
				fatal("%s: %s declared twice", c.pos, c.name)
			}
			S.byName[c.name] = c
		}
		S.cons = append(S.cons, f.cons...)
		S.consts = append(S.consts, f.consts...)
		S.templates = append(S.templates, f.templates...)
		for _, t := range f.tables {
			S.tables[t.name] = t
			S.readTable(t)
		}
	}
	var names []string
	for n := range S.defs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := S.defs[n]
		if d.body == nil {
			declFunc(d.name, d.ret, d.sorts...)
		}
	}
	for _, n := range names {
		d := S.defs[n]
		if d.rec || d.cut {
			S.declareRec(d)
		}
	}
	return S
}

func (S *Spec) readTable(t *TableDecl) {
	f, err := os.Open(filepath.Join(S.dir, t.file))
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	r := &refMap{name: t.name, m: map[int64]int64{}, def: t.def}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.Fields(sc.Text())
		if len(l) == 0 || l[0][0] == '#' {
			continue
		}
		k, e1 := strconv.ParseInt(l[t.col[0]], 0, 64)
		v, e2 := strconv.ParseInt(l[t.col[1]], 0, 64)
		if e1 != nil || e2 != nil {
			fatal("%s: bad line %q", t.file, sc.Text())
		}
		if o, dup := r.m[k]; dup && o != v {
			fatal("%s: %d given twice", t.file, k)
		}
		r.m[k] = v
	}
	for k := range r.m {
		r.keys = append(r.keys, k)
	}
	sort.Slice(r.keys, func(i, j int) bool { return r.keys[i] < r.keys[j] })
	refMaps[t.name] = r
	lo, hi := t.def, t.def
	for _, v := range r.m {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	declFunc(t.name, SInt, SInt)
	// keys lie in a range
	n := BVar("n", SInt)
	a := App(t.name, SInt, n)
	if len(r.keys) > 0 {
		kl, kh := r.keys[0], r.keys[len(r.keys)-1]
		funcs[t.name].Axioms = append(funcs[t.name].Axioms,
			Forall([]*Term{n}, And(Le(Int(lo), a), Le(a, Int(hi))), []*Term{a}),
			Forall([]*Term{n}, Imp(Ne(a, Int(t.def)), And(Le(Int(kl), n), Le(n, Int(kh)))), []*Term{a}))
	}
	appRange[t.name] = rng(lo, hi)
}

// refApp applies a reference map, evaluating it at constants.
func refApp(r *refMap, k *Term) *Term {
	if k.k == KInt && k.n.IsInt64() {
		if v, ok := r.m[k.n.Int64()]; ok {
			return Int(v)
		}
		return Int(r.def)
	}
	if len(r.keys) > 0 && len(r.keys) <= 400 {
		vs := make([]int64, len(r.keys))
		for i, key := range r.keys {
			vs[i] = r.m[key]
		}
		v, ok := runMap(r.keys, vs, k)
		return Ite(ok, v, Int(r.def))
	}
	return App(r.name, SInt, k)
}

// declareRec gives the defining axioms of a function: f unfolds once to f#0,
// which does not unfold.
func (S *Spec) declareRec(d *Def) {
	f := declFunc(d.name, d.ret, d.sorts...)
	sc := &scope{S: S, vars: map[string]Val{}}
	var bs []*Term
	for i, p := range d.params {
		b := BVar(p, d.sorts[i])
		bs = append(bs, b)
		sc.vars[p] = b
	}
	app := App(d.name, d.ret, bs...)
	if d.rec {
		declFunc(d.name+"#0", d.ret, d.sorts...)
		sc.recName = d.name
		app0 := App(d.name+"#0", d.ret, bs...)
		f.Axioms = append(f.Axioms, Forall(bs, Eq(app, app0), []*Term{app}))
		// at the empty sequence, where it does not recur
		if len(bs) > 0 && bs[0].sort == SSeq {
			es := &scope{S: S, vars: map[string]Val{}, recName: d.name}
			for i, p := range d.params {
				es.vars[p] = bs[i]
			}
			es.vars[d.params[0]] = Empty
			if base := es.term(d.body); !mentions(base, d.name+"#0") {
				f0 := funcs[d.name+"#0"]
				f0.Axioms = append(f0.Axioms, Forall(bs, Imp(Eq(SLen(bs[0]), Int(0)), Eq(app0, base)), []*Term{app0}))
			}
		}
	}
	def := Forall(bs, Eq(app, sc.term(d.body)), []*Term{app})
	if d.cut {
		f.Opaque = append(f.Opaque, def)
	} else {
		f.Axioms = append(f.Axioms, def)
	}
}

// scope is an environment of an expression.
type scope struct {
	S       *Spec
	x       *X
	st, old *State
	vars    map[string]Val
	oldVars map[string]Val
	recName string
}

func (sc *scope) with(names []string, vals []Val) *scope {
	n := *sc
	n.vars = make(map[string]Val, len(sc.vars)+len(names))
	for k, v := range sc.vars {
		n.vars[k] = v
	}
	for i, s := range names {
		n.vars[s] = vals[i]
	}
	return &n
}

func (sc *scope) term(e *Expr) *Term {
	return sc.toTerm(sc.eval(e), e)
}

func (sc *scope) toTerm(v Val, e *Expr) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *VSlice:
		return sc.seq(v)
	case *VIface:
		return v.id
	case *VUnknown:
		unsup("%s", v.why)
	}
	unsup("contract: %s is not a number, truth value or sequence (%T)", e, v)
	return nil
}

func (sc *scope) seq(v *VSlice) *Term {
	w := sc.x.view(sc.st, v)
	return w
}

func (sc *scope) eval(e *Expr) Val {
	switch e.op {
	case "int":
		return IntB(e.n)
	case "str":
		return seqOf(e.s)
	case "id":
		return sc.ident(e.s)
	case "un!":
		return Not(sc.term(e.args[0]))
	case "un-":
		return Sub(Int(0), sc.term(e.args[0]))
	case "&&", "||", "==>", "<==>":
		a := sc.term(e.args[0])
		b := sc.term(e.args[1])
		switch e.op {
		case "&&":
			return And(a, b)
		case "||":
			return Or(a, b)
		case "==>":
			return Imp(a, b)
		}
		return Iff(a, b)
	case "==", "!=":
		r := sc.equal(sc.eval(e.args[0]), sc.eval(e.args[1]), e)
		if e.op == "!=" {
			return Not(r)
		}
		return r
	case "<", "<=", ">", ">=", "+", "-", "*", "/", "%":
		a, b := sc.term(e.args[0]), sc.term(e.args[1])
		switch e.op {
		case "<":
			return Lt(a, b)
		case "<=":
			return Le(a, b)
		case ">":
			return Gt(a, b)
		case ">=":
			return Ge(a, b)
		case "+":
			return Add(a, b)
		case "-":
			return Sub(a, b)
		case "*":
			return Mul(a, b)
		}
		if b.k != KInt || b.n.Sign() <= 0 {
			unsup("contract: division by %s", b)
		}
		if e.op == "/" {
			return DivC(a, b.n)
		}
		return ModC(a, b.n)
	case "index":
		s := sc.term(e.args[0])
		i := sc.term(e.args[1])
		return SAt(s, i)
	case "slice":
		s := sc.term(e.args[0])
		if e.args[2] != nil {
			s = Take(s, sc.term(e.args[2]))
		}
		if e.args[1] != nil {
			s = Drop(s, sc.term(e.args[1]))
		}
		return s
	case "forall":
		var bs []*Term
		var vs []Val
		for i, n := range e.vars {
			b := BVar(n, e.srts[i])
			bs = append(bs, b)
			vs = append(vs, b)
		}
		in := sc.with(e.vars, vs)
		var pats [][]*Term
		for _, p := range e.pats {
			var ts []*Term
			for _, q := range p {
				ts = append(ts, in.term(q))
			}
			pats = append(pats, ts)
		}
		return Forall(bs, in.term(e.args[0]), pats...)
	case "call":
		return sc.call(e)
	}
	unsup("contract: %s", e)
	return nil
}

func (sc *scope) equal(a, b Val, e *Expr) *Term {
	if s, ok := a.(*VSlice); ok {
		if t, ok := b.(*Term); ok && t.sort == SSeq {
			return Eq(sc.seq(s), t)
		}
		if n, ok := b.(*VNilPtr); ok {
			_ = n
			return Eq(s.ref, Int(0))
		}
		if t, ok := b.(*VSlice); ok {
			return Eq(sc.seq(s), sc.seq(t))
		}
	}
	if _, ok := b.(*VSlice); ok {
		return sc.equal(b, a, e)
	}
	if i, ok := a.(*VIface); ok {
		if _, ok := b.(*VNilPtr); ok {
			return Eq(i.id, Int(0))
		}
		if j, ok := b.(*VIface); ok {
			return sc.x.equal(sc.st, i, j)
		}
		if t, ok := b.(*Term); ok && t.sort == SInt {
			return Eq(i.id, t)
		}
	}
	if _, ok := b.(*VIface); ok {
		return sc.equal(b, a, e)
	}
	if _, ok := a.(*VNilPtr); ok {
		if _, ok := b.(*VIface); ok {
			return sc.equal(b, a, e)
		}
	}
	ta, tb := sc.toTerm(a, e), sc.toTerm(b, e)
	if ta.sort != tb.sort {
		unsup("contract: %s compares %s and %s", e, ta.sort, tb.sort)
	}
	return Eq(ta, tb)
}

func (sc *scope) ident(n string) Val {
	if v, ok := sc.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return True
	case "false":
		return False
	case "nil":
		return &VNilPtr{}
	case "empty":
		return Empty
	}
	if sc.st != nil {
		if t, ok := sc.st.ghost[n]; ok {
			return t
		}
	}
	if d := sc.S.defs[n]; d != nil && len(d.params) == 0 {
		return sc.applyDef(d, nil)
	}
	// field access v.f
	if i := strings.IndexByte(n, '.'); i > 0 {
		if v, ok := sc.vars[n[:i]]; ok {
			return sc.field(v, n[i+1:])
		}
		if sc.x != nil {
			if v := sc.x.P.lookupName(sc.x, n[:i], n[i+1:]); v != nil {
				return v
			}
		}
	}
	unsup("contract: unknown name %s", n)
	return nil
}

func (sc *scope) field(v Val, name string) Val {
	for _, f := range strings.Split(name, ".") {
		if p, ok := v.(*PCell); ok {
			v = pathGet(sc.st.cells[p.id], p.path)
		}
		if p, ok := v.(*PConst); ok {
			v = sc.x.fromC(p.s.v, structTypeOf(p.s))
		}
		s, ok := v.(*VStruct)
		if !ok {
			unsup("contract: field %s of %T", f, v)
		}
		t := s.typ.Underlying().(*types.Struct)
		found := false
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == f {
				v = s.f[i]
				found = true
			}
		}
		if !found {
			unsup("contract: no field %s", f)
		}
	}
	return v
}

// ghostTerm evaluates what a ghost variable is set to; an error is recorded
// by its identity.
func (sc *scope) ghostTerm(e *Expr) *Term {
	v := sc.eval(e)
	if i, ok := v.(*VIface); ok {
		return i.id
	}
	return sc.toTerm(v, e)
}

func structTypeOf(s *slot) types.Type {
	unsup("contract: field of a package-level object")
	return nil
}

// lookupName resolves pkg.Name of the program to its value.
func (P *Program) lookupName(x *X, pkg, name string) Val {
	for path, p := range P.pkgs {
		if filepath.Base(path) != pkg && p.Pkg.Name() != pkg {
			continue
		}
		switch m := p.Members[name].(type) {
		case *ssa.NamedConst:
			return x.constVal(nil, m.Value)
		case *ssa.Global:
			s := x.ie.global(m)
			return x.fromC(s.v, m.Type().(*types.Pointer).Elem())
		}
	}
	for _, std := range []string{"io", "golang.org/x/text/transform"} {
		if filepath.Base(std) == pkg {
			if p := P.all[std]; p != nil {
				P.ensureBuilt(p)
				if g, ok := p.Members[name].(*ssa.Global); ok {
					return x.fromC(x.ie.global(g).v, g.Type().(*types.Pointer).Elem())
				}
			}
		}
	}
	return nil
}

func (P *Program) namedConst(pkg, name string) (constant.Value, bool) {
	for path, p := range P.pkgs {
		if filepath.Base(path) != pkg && p.Pkg.Name() != pkg {
			continue
		}
		if m, ok := p.Members[name].(*ssa.NamedConst); ok {
			return m.Value.Value, true
		}
	}
	return nil, false
}

func (sc *scope) applyDef(d *Def, args []*Term) *Term {
	if d.body == nil || d.rec || d.cut {
		n := d.name
		if sc.recName == d.name {
			n += "#0"
		}
		return App(n, d.ret, args...)
	}
	in := &scope{S: sc.S, x: sc.x, st: sc.st, old: sc.old, vars: map[string]Val{}, recName: sc.recName}
	for i, p := range d.params {
		in.vars[p] = args[i]
	}
	return in.term(d.body)
}

func (sc *scope) call(e *Expr) Val {
	n := len(e.args)
	arg := func(i int) *Term { return sc.term(e.args[i]) }
	switch e.s {
	case "old":
		in := *sc
		in.st = sc.old
		return in.eval(e.args[0])
	case "len":
		switch v := sc.eval(e.args[0]).(type) {
		case *VSlice:
			return v.len
		case *Term:
			return SLen(v)
		}
		unsup("contract: len of %s", e.args[0])
	case "cap":
		if v, ok := sc.eval(e.args[0]).(*VSlice); ok {
			return v.cap
		}
		unsup("contract: cap of %s", e.args[0])
	case "seq":
		return arg(0)
	case "cat":
		var ts []*Term
		for i := range e.args {
			ts = append(ts, arg(i))
		}
		return Cat(ts...)
	case "unit":
		return Unit(arg(0))
	case "bytes": // bytes(a, b, ...) is the sequence of the numbers
		var ts []*Term
		for i := range e.args {
			ts = append(ts, Unit(arg(i)))
		}
		return Cat(ts...)
	case "take":
		return Take(arg(0), arg(1))
	case "drop":
		return Drop(arg(0), arg(1))
	case "ite":
		c := arg(0)
		a, b := arg(1), arg(2)
		return Ite(c, a, b)
	case "sameseq": // equality of sequences, by extensionality
		a, b := arg(0), arg(1)
		d := App("sdiff", SInt, a, b)
		_ = d
		return Eq(a, b)
	case "fresh":
		v, ok := sc.eval(e.args[0]).(*VSlice)
		if !ok {
			unsup("contract: fresh(%s)", e.args[0])
		}
		return Or(Eq(v.cap, Int(0)), Le(sc.x.allocE, v.ref))
	case "disjoint":
		v, ok1 := sc.eval(e.args[0]).(*VSlice)
		w, ok2 := sc.eval(e.args[1]).(*VSlice)
		if !ok1 || !ok2 {
			unsup("contract: disjoint(%s, %s)", e.args[0], e.args[1])
		}
		return Or(Eq(v.cap, Int(0)), Eq(w.cap, Int(0)), Ne(v.ref, w.ref))
	case "isnil":
		return sc.equal(sc.eval(e.args[0]), &VNilPtr{}, e)
	}
	if r, ok := refMaps[e.s]; ok && n == 1 {
		return refApp(r, arg(0))
	}
	if f, ok := sc.vars[e.s].(*VFunc); ok && f.pred != "" && n == 1 {
		return App(f.pred, SBool, arg(0))
	}
	d := sc.S.defs[e.s]
	if d == nil {
		unsup("contract: unknown function %s", e.s)
	}
	if len(d.params) != n {
		unsup("contract: %s takes %d arguments", e.s, len(d.params))
	}
	var ts []*Term
	for i := range e.args {
		t := arg(i)
		if t.sort != d.sorts[i] {
			unsup("contract: argument %d of %s is a %s", i+1, e.s, t.sort)
		}
		ts = append(ts, t)
	}
	return sc.applyDef(d, ts)
}

// ---- contracts of functions

var stdAlias = map[string]string{"utf8": "unicode/utf8", "sort": "sort", "slices": "slices", "strings": "strings", "bytes": "bytes", "io": "io"}

func (P *Program) funcByName(n string) *ssa.Function {
	parts := strings.Split(n, ".")
	pkg := parts[0]
	if a, ok := stdAlias[pkg]; ok {
		pkg = a
	}
	switch len(parts) {
	case 2:
		return P.findFunc(pkg, "", parts[1])
	case 3:
		return P.findFunc(pkg, parts[1], parts[2])
	}
	return nil
}

func (S *Spec) resolve(P *Program) {
	for _, c := range S.cons {
		if c.kind != "func" {
			continue
		}
		if fn := P.funcByName(c.name); fn != nil {
			S.byFn[fn] = c
		}
	}
}

// contractOf gives the contract to be used at calls of fn.
func (S *Spec) contractOf(x *X, fn *ssa.Function) *Contract {
	c := S.byFn[fn]
	if c == nil || c.inline && x.con != c || c.helper && !x.helped() {
		return nil
	}
	if c == x.con {
		// a recursive call
		if c.decr == nil || len(x.stack) == 0 || x.decr0 == nil {
			return nil
		}
		return c
	}
	if !x.ensureContract(c, fn) {
		return nil
	}
	return c
}

// bindParams makes the scope of a contract.
func (S *Spec) bind(x *X, c *Contract, st, old *State, args, results []Val) *scope {
	sc := &scope{S: S, x: x, st: st, old: old, vars: map[string]Val{}}
	for i, n := range c.params {
		if i < len(args) {
			sc.vars[n] = args[i]
		}
	}
	for i, n := range c.results {
		if i < len(results) {
			sc.vars[n] = results[i]
		}
	}
	return sc
}

// applyContract replaces a call by the callee's contract.
func (x *X) applyContract(st *State, c *Contract, fn *ssa.Function, args []Val, in *ssa.Call, k func(*State, []Val)) bool {
	pos := fn.Pos()
	if in != nil {
		pos = in.Pos()
	}
	pre := st.clone()
	sc := x.S.bind(x, c, pre, pre, args, nil)
	if c.helper && !x.helps(st, c, sc) {
		return false
	}
	for _, r := range c.req {
		g := sc.term(r.e)
		x.ob(st, "requires", pos, g, c.name+": "+r.src)
	}
	if c == x.con {
		d := sc.term(c.decr)
		x.ob(st, "decreases", pos, And(Le(Int(0), d), Lt(d, x.decr0)), "recursive call of "+c.name)
	}
	x.used[c.name] = true
	if c.trusted != "" {
		x.assumed[c.name+": "+c.trusted] = true
	}
	sig := fn.Signature
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		n := "r"
		if i < len(c.results) {
			n = c.results[i]
		}
		rs = append(rs, x.memResult(st, pre, c, args, n, func() Val { return x.resultVal(st, fn.Name()+"."+n, t) }))
	}
	for _, n := range sortedClauseKeys(c.writes) {
		sc := x.S.bind(x, c, pre, pre, args, rs)
		d, ok := sc.vars[n].(*VSlice)
		if !ok {
			unsup("contract: writes %s", n)
		}
		x.heapWrite(st, d.ref, d.off, d.elem, nil, sc.term(c.writes[n].e), pos)
	}
	sc = x.S.bind(x, c, st, pre, args, rs)
	for _, e := range c.ens {
		st.assume(sc.term(e.e))
	}
	k(st, rs)
	return true
}

func sortedClauseKeys(m map[string]*Clause) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// resultVal is an arbitrary result of a call by contract; a slice is either
// nil or a fresh array with arbitrary contents.
func (x *X) resultVal(st *State, name string, t types.Type) Val {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		// a fresh array: the contract gives its contents
		key, _, ok := heapKey(sl.Elem(), nil)
		if !ok {
			unsup("result of type %s", t)
		}
		isnil := Fresh(name+".nil", SBool, nil, nil)
		ref := Ite(isnil, Int(0), x.allocRef(st))
		v := &VSlice{elem: sl.Elem(), ref: ref, off: Int(0)}
		v.len = Fresh(name+".len", SInt, bi(0), maxLen)
		v.cap = Fresh(name+".cap", SInt, bi(0), maxLen)
		st.assume(Imp(isnil, Eq(v.cap, Int(0))))
		st.assume(Le(v.len, v.cap))
		w := Fresh(name+".data", SSeq, nil, nil)
		st.assume(Eq(SLen(w), v.len))
		st.heaps[key] = HWrite(x.heap(st, key), ref, Int(0), w)
		return v
	}
	return x.symVal(st, name, t)
}

func fmtClause(c *Clause) string { return fmt.Sprintf("%s (%s)", c.src, c.pos) }

func mentions(t *Term, fn string) bool {
	found := false
	collect([]*Term{t}, map[*Term]bool{}, func(t *Term) {
		if t.k == KApp && t.name == fn {
			found = true
		}
	})
	return found
}
