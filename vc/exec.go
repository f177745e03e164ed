package main

// The symbolic executor: from go/ssa to verification conditions, path by path.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var maxLen = new(big.Int).Lsh(bi(1), 48) // no slice or string is longer than this

type Obl struct {
	Name   string
	Kind   string // index, slice, nil, div, assert, panic, make, ensures, requires, frame, decreases, lemma, ground, vacuity
	Pos    string
	Fn     string
	Unit   string
	hyps   []*Term
	goal   *Term
	reveal map[string]bool
	vals   []*Term
	Props  []string
	res    result
	done   bool
}

type X struct {
	P         *Program
	R         *Run
	ie        *initEval
	S         *Spec
	constArr  map[int64]*CArr
	cellN     int
	quiet     int
	cheap     int // no invariants are wanted, only what changes
	cheapN    int
	obls      []*Obl
	unit      string
	reveal    map[string]bool
	vals      []*Term // inputs, for counterexamples
	depth     int
	stack     []*ssa.Function
	inlined   map[string]bool
	used      map[string]bool // contracts applied
	mutated   map[*ssa.Global]string
	opaqueID  map[interface{}]int64
	warm      map[string]map[string]bool
	preds     []*VFunc        // arguments of the unit
	optWarm   map[string]bool // the warm set is from descend
	opt       *optRound
	noCon     map[*ssa.Function]bool // verify the body even if there is a contract
	facts     map[string]bool
	trace     bool
	curTops   []*Term
	assumed   map[string]bool
	forceCon  map[*ssa.Function]bool
	sc        *scope
	pathN     int
	loopHook  func(st *State) []cand
	allocE    *Term // alloc at the entry of the unit
	loopDepth int
	houdini   int
	loopsSeen map[string]string
	cellTyp   map[int]types.Type
	own       bool // object unit: arrays are owned by the package or by the caller
	con       *Contract
	decr0     *Term
}

type frame struct {
	fn    *ssa.Function
	regs  map[ssa.Value]Val
	loops map[*ssa.BasicBlock]*loopCtx
	peel  map[*ssa.BasicBlock]int
	k     func(*State, []Val)
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, k: f.k, regs: make(map[ssa.Value]Val, len(f.regs)+8), loops: f.loops, peel: f.peel}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	return n
}

// ---- basics

func (x *X) newCell() int { x.cellN++; return x.cellN }

func heapKey(t types.Type, path []int) (string, *Term, bool) {
	u := t
	name := ""
	for _, p := range path {
		st, ok := u.Underlying().(*types.Struct)
		if !ok {
			return "", nil, false
		}
		u = st.Field(p).Type()
		name += fmt.Sprintf(".%d", p)
	}
	if len(path) > 0 {
		name = strings.ReplaceAll(t.String(), "/", "_") + name
	}
	if it, ok := typeBits(u); ok {
		s := "u"
		if it.signed {
			s = "i"
		}
		k := fmt.Sprintf("H%s%d%s", s, it.bits, name)
		return k, nil, true
	}
	if b, ok := u.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return "Hb" + name, nil, true
	}
	return "", nil, false
}

// range of values in a heap, by the key which is the prefix of its variables
func heapRange(h *Term) (lo, hi *big.Int) {
	for h.k == KApp && h.name == "hwrite" {
		h = h.args[0]
	}
	if h.k == KIte {
		return heapRange(h.args[1])
	}
	n := h.name
	if i := strings.IndexByte(n, '!'); i >= 0 {
		n = n[:i]
	}
	switch {
	case strings.HasPrefix(n, "Hu8"):
		return bi(0), bi(255)
	case strings.HasPrefix(n, "Hu16"):
		return bi(0), bi(65535)
	case strings.HasPrefix(n, "Hi32"):
		return intType{32, true}.min(), intType{32, true}.max()
	case strings.HasPrefix(n, "Hu32"):
		return bi(0), intType{32, false}.max()
	case strings.HasPrefix(n, "Hi64"):
		return intType{64, true}.min(), intType{64, true}.max()
	case strings.HasPrefix(n, "Hu64"):
		return bi(0), intType{64, false}.max()
	case strings.HasPrefix(n, "Hi8"):
		return bi(-128), bi(127)
	case strings.HasPrefix(n, "Hi16"):
		return bi(-32768), bi(32767)
	case strings.HasPrefix(n, "Hb"):
		return bi(0), bi(1)
	}
	return nil, nil
}

func (x *X) heap(st *State, key string) *Term {
	h := st.heaps[key]
	if h == nil {
		// the heap of an element type not touched so far: the same initial
		// heap in every state of this unit
		h = Var(key+"!init."+x.unit, SHeap)
		st.heaps[key] = h
	}
	return h
}

func (x *X) view(st *State, v *VSlice) *Term {
	if v.lit != nil {
		var us []*Term
		for _, e := range v.lit {
			us = append(us, Unit(e))
		}
		return Cat(us...)
	}
	if v.len.k == KInt && v.len.n.Sign() == 0 {
		return Empty
	}
	if v.ref.k == KInt && v.ref.n.Sign() < 0 {
		return x.constView(v)
	}
	if v.ref.k == KIte && (isConstRef(v.ref.args[1]) || isConstRef(v.ref.args[2])) {
		c := v.ref.args[0]
		a, b := *v, *v
		a.ref, b.ref = v.ref.args[1], v.ref.args[2]
		pick := func(t *Term, i int) *Term {
			if t.k == KIte && t.args[0] == c {
				return t.args[i]
			}
			return t
		}
		a.off, a.len, a.cap = pick(v.off, 1), pick(v.len, 1), pick(v.cap, 1)
		b.off, b.len, b.cap = pick(v.off, 2), pick(v.len, 2), pick(v.cap, 2)
		return Ite(c, x.view(st, &a), x.view(st, &b))
	}
	key, _, ok := heapKey(v.elem, nil)
	if !ok {
		unsup("view of a slice of %s", v.elem)
	}
	return HSub(x.heap(st, key), v.ref, v.off, Add(v.off, v.len))
}

func isConstRef(t *Term) bool {
	if t.k == KInt {
		return t.n.Sign() < 0
	}
	return t.k == KIte && (isConstRef(t.args[1]) || isConstRef(t.args[2]))
}

func (x *X) constView(v *VSlice) *Term {
	a := x.constArr[v.ref.n.Int64()]
	if v.off.k != KInt || v.len.k != KInt || v.len.n.Cmp(bi(64)) > 0 {
		unsup("view of a constant table at a symbolic position")
	}
	var us []*Term
	for i := v.off.n.Int64(); i < v.off.n.Int64()+v.len.n.Int64(); i++ {
		t, ok := x.fromC(a.slots[i].v, a.elem).(*Term)
		if !ok {
			unsup("view of a constant table of %s", a.elem)
		}
		us = append(us, Unit(t))
	}
	return Cat(us...)
}

// ---- obligations

func (x *X) ob(st *State, kind string, pos token.Pos, goal *Term, what string) {
	if goal == True {
		if x.quiet == 0 {
			x.record(st, kind, pos, goal, what)
		}
		return
	}
	if x.quiet == 0 {
		x.record(st, kind, pos, goal, what)
	}
	st.assume(goal)
}

func (x *X) record(st *State, kind string, pos token.Pos, goal *Term, what string) *Obl {
	fn := ""
	if len(x.stack) > 0 {
		fn = x.stack[len(x.stack)-1].String()
	}
	o := &Obl{Kind: kind, Pos: x.P.pos(pos), Fn: fn, Unit: x.unit, hyps: st.hyps(), goal: goal, reveal: x.reveal, vals: x.vals}
	o.Name = fmt.Sprintf("%s/%s@%s: %s", x.unit, kind, o.Pos, what)
	x.obls = append(x.obls, o)
	return o
}

// feasible asks for each of the conditions whether it can hold in st.
func (x *X) feasible(st *State, cs ...*Term) []bool {
	out := make([]bool, len(cs))
	var goals []*Term
	var idx []int
	for i, c := range cs {
		switch c {
		case True:
			out[i] = true
		case False:
			out[i] = false
		default:
			goals = append(goals, Not(c))
			idx = append(idx, i)
		}
	}
	if len(goals) > 0 {
		rs := x.quickly(st, goals, pruneRlimit, pruneTimeout)
		for j, p := range rs {
			out[idx[j]] = !p
		}
	}
	return out
}

func (x *X) quick(st *State, goals []*Term) []bool {
	return x.quickly(st, goals, x.rlimit(), quickTimeout)
}

func (x *X) quickly(st *State, goals []*Term, rlimit int, timeout time.Duration) []bool {
	out := make([]bool, len(goals))
	var gs []*Term
	var idx []int
	have := map[*Term]bool{}
	for _, p := range st.pc {
		have[p.t] = true
	}
	for i, g := range goals {
		if g == True || have[g] {
			out[i] = true
			continue
		}
		gs = append(gs, g)
		idx = append(idx, i)
	}
	if len(gs) == 0 {
		return out
	}
	q := &qreq{hyps: st.hyps(), goals: gs, rlimit: rlimit, timeout: timeout, once: rlimit == pruneRlimit}
	quickMulti([]*qreq{q}, x)
	for j, r := range q.out {
		out[idx[j]] = r
	}
	return out
}

// wrap reduces e to the machine type, using what is known on the path.
func (x *X) wrap(st *State, e *Term, t types.Type) *Term {
	it, ok := typeBits(t)
	if !ok {
		unsup("arithmetic on %s", t)
	}
	lo, hi := st.bounds(e)
	if lo != nil && hi != nil && lo.Cmp(it.min()) >= 0 && hi.Cmp(it.max()) <= 0 {
		return e
	}
	if it.bits == 64 {
		// 64-bit overflow is rare: ask whether it is excluded
		r := x.quick(st, []*Term{Le(IntB(it.min()), e), Le(e, IntB(it.max()))})
		if r[0] && r[1] {
			st.assume(Le(IntB(it.min()), e))
			st.assume(Le(e, IntB(it.max())))
			return e
		}
	}
	return wrapTo(e, it, lo, hi)
}

// ---- values of constants and of the initial state

func (x *X) arrID(a *CArr) *Term {
	if a.id == 0 {
		a.id = -(len(x.constArr) + 1)
		x.constArr[int64(a.id)] = a
	}
	return Int(int64(a.id))
}

func (x *X) opaque(k interface{}) *Term {
	id, ok := x.opaqueID[k]
	if !ok {
		id = int64(len(x.opaqueID) + 1)
		x.opaqueID[k] = id
	}
	return Int(id)
}

func (x *X) fromC(c CVal, t types.Type) Val {
	switch c := c.(type) {
	case CInt:
		if it, ok := typeBits(t); ok && !it.signed && it.bits == 64 && c.n < 0 {
			return IntB(new(big.Int).Add(bi(c.n), new(big.Int).Lsh(bi(1), 64)))
		}
		return Int(c.n)
	case CBool:
		return Bool(c.b)
	case CStr:
		return seqOf(c.s)
	case *CStruct:
		v := &VStruct{typ: t}
		st := t.Underlying().(*types.Struct)
		for i, s := range c.slots {
			v.f = append(v.f, x.fromC(s.v, st.Field(i).Type()))
		}
		return v
	case CSlice:
		el := t.Underlying().(*types.Slice).Elem()
		if c.arr == nil {
			return &VSlice{ref: Int(0), off: Int(0), len: Int(0), cap: Int(0), elem: el}
		}
		return &VSlice{ref: x.arrID(c.arr), off: Int(int64(c.off)), len: Int(int64(c.len)), cap: Int(int64(c.cap)), elem: el}
	case *CMap:
		return &VMap{c}
	case CPtr:
		if c.to == nil {
			return &VNilPtr{}
		}
		return &PConst{c.to}
	case CIface:
		if c.t == nil {
			return &VIface{id: Int(0)}
		}
		if o, ok := c.v.(*COpaque); ok {
			return &VIface{id: x.opaque(o)}
		}
		return &VIface{id: x.opaque(c), dyn: c.t, val: x.fromC(c.v, c.t)}
	case CFunc:
		if c.fn == nil {
			return &VNilPtr{}
		}
		f := &VFunc{fn: c.fn}
		for i, b := range c.binds {
			f.binds = append(f.binds, x.fromC(b, c.fn.FreeVars[i].Type()))
		}
		return f
	}
	return &VUnknown{"value not known after initialisation"}
}

func seqOf(s string) *Term {
	var us []*Term
	for i := 0; i < len(s); i++ {
		us = append(us, Unit(Int(int64(s[i]))))
	}
	return Cat(us...)
}

func (x *X) zeroVal(st *State, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Empty
		}
	case *types.Struct:
		v := &VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, x.zeroVal(st, u.Field(i).Type()))
		}
		return v
	case *types.Slice:
		return &VSlice{ref: Int(0), off: Int(0), len: Int(0), cap: Int(0), elem: u.Elem()}
	case *types.Map:
		return &VMap{nil}
	case *types.Pointer, *types.Signature:
		return &VNilPtr{}
	case *types.Interface:
		return &VIface{id: Int(0)}
	case *types.Array:
		if _, _, ok := heapKey(u.Elem(), nil); ok {
			return x.newArray(st, u.Elem(), Int(u.Len()))
		}
	}
	return &VUnknown{"zero value of " + t.String()}
}

// newArray allocates a zeroed array.
func (x *X) newArray(st *State, elem types.Type, n *Term) *PArr {
	ref := x.allocRef(st)
	key, _, ok := heapKey(elem, nil)
	if !ok {
		unsup("array of %s", elem)
	}
	st.heaps[key] = HWrite(x.heap(st, key), ref, Int(0), Zeros(n))
	k := int64(-1)
	if n.k == KInt {
		k = n.n.Int64()
	}
	return &PArr{ref: ref, n: k, elem: elem}
}

func (x *X) allocRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	if x.own {
		st.assume(x.ownT(r))
	}
	return r
}

func Zeros(n *Term) *Term {
	if n.k == KInt && n.n.Cmp(bi(16)) <= 0 {
		var us []*Term
		for i := int64(0); i < n.n.Int64(); i++ {
			us = append(us, Unit(Int(0)))
		}
		return Cat(us...)
	}
	return App("zeros", SSeq, n)
}

// symVal makes an arbitrary value of a type, as a parameter or a havocked
// location; facts about it are assumed in st.
func (x *X) symVal(st *State, name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if it, ok := typeBits(t); ok {
			return Fresh(name, SInt, it.min(), it.max())
		}
		if u.Info()&types.IsBoolean != 0 {
			return Fresh(name, SBool, nil, nil)
		}
		if u.Info()&types.IsString != 0 {
			s := Fresh(name, SSeq, nil, nil)
			st.assume(Le(SLen(s), IntB(maxLen)))
			return s
		}
	case *types.Slice:
		v := &VSlice{elem: u.Elem()}
		v.ref = Fresh(name+".ref", SInt, bi(0), nil)
		v.off = Fresh(name+".off", SInt, bi(0), maxLen)
		v.len = Fresh(name+".len", SInt, bi(0), maxLen)
		v.cap = Fresh(name+".cap", SInt, bi(0), maxLen)
		x.sliceFacts(st, v)
		return v
	case *types.Struct:
		v := &VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, x.symVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return v
	case *types.Interface:
		return &VIface{id: Fresh(name+".id", SInt, bi(0), nil)}
	case *types.Signature:
		// an arbitrary predicate without effects
		if u.Params().Len() == 1 && u.Results().Len() == 1 && !u.Variadic() {
			_, isInt := typeBits(u.Params().At(0).Type())
			b, isBool := u.Results().At(0).Type().Underlying().(*types.Basic)
			if isInt && isBool && b.Info()&types.IsBoolean != 0 {
				f := &VFunc{pred: "pred!" + name}
				declFunc(f.pred, SBool, SInt)
				return f
			}
		}
	case *types.Pointer:
		if s, ok := u.Elem().Underlying().(*types.Struct); ok {
			id := x.newCell()
			x.cellTyp[id] = u.Elem()
			st.cells[id] = x.symVal(st, name+"*", u.Elem())
			_ = s
			return &PCell{id: id}
		}
	}
	return &VUnknown{"arbitrary value of type " + t.String()}
}

func (x *X) sliceFacts(st *State, v *VSlice) {
	st.assume(Le(v.len, v.cap))
	st.assume(Lt(v.ref, st.alloc))
	st.assume(Imp(Eq(v.ref, Int(0)), Eq(v.cap, Int(0))))
	st.assume(Le(Add(v.off, v.cap), IntB(maxLen)))
	st.assume(Le(Int(0), v.ref))
	st.assume(Le(Int(0), v.off))
	st.assume(Le(Int(0), v.len))
}

// ---- memory

func pathGet(v Val, path []int) Val {
	for _, p := range path {
		s, ok := v.(*VStruct)
		if !ok {
			unsup("field of %T", v)
		}
		v = s.f[p]
	}
	return v
}

func pathSet(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s, ok := v.(*VStruct)
	if !ok {
		unsup("field of %T", v)
	}
	n := &VStruct{typ: s.typ, f: append([]Val{}, s.f...)}
	n.f[path[0]] = pathSet(s.f[path[0]], path[1:], nv)
	return n
}

func fieldType(t types.Type, path []int) types.Type {
	for _, p := range path {
		t = t.Underlying().(*types.Struct).Field(p).Type()
	}
	return t
}

func (x *X) load(st *State, p Val, t types.Type, pos token.Pos) Val {
	switch p := p.(type) {
	case *PCell:
		v := pathGet(st.cells[p.id], p.path)
		if a, ok := v.(*PArr); ok {
			if _, isArr := t.Underlying().(*types.Array); isArr {
				return &VArrVal{seq: x.view(st, &VSlice{ref: a.ref, off: Int(0), len: Int(a.n), cap: Int(a.n), elem: a.elem}), elem: a.elem, n: a.n}
			}
		}
		if hasArr(v) {
			unsup("copy of a struct with an array")
		}
		return v
	case *PElem:
		return x.loadElem(st, p.ref, p.idx, p.elem, p.path)
	case *PArr:
		return &VArrVal{seq: x.view(st, &VSlice{ref: p.ref, off: Int(0), len: Int(p.n), cap: Int(p.n), elem: p.elem}), elem: p.elem, n: p.n}
	case *PConst:
		v := x.fromC(p.s.v, t)
		if _, bad := v.(*VUnknown); bad {
			if a, ok := p.s.v.(*CArr); ok {
				return &VArrVal{carr: a, elem: a.elem, n: int64(len(a.slots))}
			}
		}
		return v
	case *VNilPtr:
		x.ob(st, "nil", pos, False, "nil pointer dereference")
		st.dead = true
		return &VUnknown{"load through nil"}
	}
	unsup("load through %T", p)
	return nil
}

func hasArr(v Val) bool {
	switch v := v.(type) {
	case *PArr:
		return true
	case *VStruct:
		for _, f := range v.f {
			if _, isP := f.(*PArr); isP || hasArr(f) {
				return true
			}
		}
	}
	return false
}

// VArrVal is an array value.
type VArrVal struct {
	seq  *Term
	carr *CArr
	elem types.Type
	n    int64
}

func (x *X) loadElem(st *State, ref, idx *Term, elem types.Type, path []int) Val {
	t := fieldType(elem, path)
	if s, ok := t.Underlying().(*types.Struct); ok {
		v := &VStruct{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			v.f = append(v.f, x.loadElem(st, ref, idx, elem, append(append([]int{}, path...), i)))
		}
		return v
	}
	if ref.k == KIte && isConstRef(ref) {
		a := x.loadElem(st, ref.args[1], idx, elem, path)
		b := x.loadElem(st, ref.args[2], idx, elem, path)
		ta, ok1 := a.(*Term)
		tb, ok2 := b.(*Term)
		if ok1 && ok2 {
			return Ite(ref.args[0], ta, tb)
		}
		unsup("load from one of several tables of %s", t)
	}
	if ref.k == KInt && ref.n.Sign() < 0 {
		a := x.constArr[ref.n.Int64()]
		if a.taint {
			unsup("table not known after initialisation")
		}
		if idx.k == KInt {
			if !idx.n.IsInt64() || idx.n.Sign() < 0 || idx.n.Int64() >= int64(len(a.slots)) {
				return &VUnknown{"out of range"}
			}
			return x.fromC(slotPath(a.slots[idx.n.Int64()], path).v, t)
		}
		return x.tableRead(st, a, path, idx, t)
	}
	key, _, ok := heapKey(elem, path)
	if !ok {
		unsup("load of an array element of type %s", t)
	}
	h := x.heap(st, key)
	g := HGet(h, ref, idx)
	lo, hi := heapRange(h)
	if lo != nil && g.k != KInt {
		st.assume(Le(IntB(lo), g))
		st.assume(Le(g, IntB(hi)))
	}
	if strings.HasPrefix(key, "Hb") {
		return Eq(g, Int(1))
	}
	return g
}

func slotPath(s *slot, path []int) *slot {
	for _, p := range path {
		c, ok := s.v.(*CStruct)
		if !ok {
			unsup("field of a constant %T", s.v)
		}
		s = c.slots[p]
	}
	return s
}

func (x *X) store(st *State, p Val, v Val, t types.Type, pos token.Pos) {
	switch p := p.(type) {
	case *PCell:
		if av, ok := v.(*VArrVal); ok {
			a, ok := pathGet(st.cells[p.id], p.path).(*PArr)
			if !ok || av.seq == nil {
				unsup("array store")
			}
			x.heapWrite(st, a.ref, Int(0), a.elem, nil, av.seq, pos)
			return
		}
		if s, ok := v.(*VSlice); ok && s.lit != nil {
			v = x.materialize(st, s)
		}
		st.cells[p.id] = pathSet(st.cells[p.id], p.path, v)
	case *PElem:
		x.storeElem(st, p.ref, p.idx, p.elem, p.path, v, pos)
	case *PArr:
		av, ok := v.(*VArrVal)
		if !ok || av.seq == nil {
			unsup("array store of %T", v)
		}
		x.heapWrite(st, p.ref, Int(0), p.elem, nil, av.seq, pos)
	case *PConst:
		// package-level state is modified
		x.ob(st, "frame", pos, False, "write to package-level state")
		unsup("write to package-level state")
	case *VNilPtr:
		x.ob(st, "nil", pos, False, "nil pointer dereference")
		st.dead = true
	default:
		unsup("store through %T", p)
	}
}

func (x *X) storeElem(st *State, ref, idx *Term, elem types.Type, path []int, v Val, pos token.Pos) {
	t := fieldType(elem, path)
	if s, ok := t.Underlying().(*types.Struct); ok {
		sv, ok := v.(*VStruct)
		if !ok {
			unsup("struct store of %T", v)
		}
		for i := 0; i < s.NumFields(); i++ {
			x.storeElem(st, ref, idx, elem, append(append([]int{}, path...), i), sv.f[i], pos)
		}
		return
	}
	tv, ok := v.(*Term)
	if !ok {
		unsup("store of an array element of type %s", t)
	}
	if tv.sort == SBool {
		tv = Ite(tv, Int(1), Int(0))
	}
	if tv.sort != SInt {
		unsup("store of an array element of type %s", t)
	}
	x.heapWrite(st, ref, idx, elem, path, Unit(tv), pos)
}

func (x *X) heapWrite(st *State, ref, at *Term, elem types.Type, path []int, xs *Term, pos token.Pos) {
	key, _, ok := heapKey(elem, path)
	if !ok {
		unsup("write to an array of %s", elem)
	}
	if xs == Empty {
		return
	}
	if isConstRef(ref) {
		x.ob(st, "frame", pos, Imp(Gt(SLen(xs), Int(0)), Le(Int(0), ref)), "write to a package-level table")
	}
	st.heaps[key] = HWrite(x.heap(st, key), ref, at, xs)
}

func (x *X) materialize(st *State, s *VSlice) *VSlice {
	if s.lit == nil {
		return s
	}
	ref := x.allocRef(st)
	key, _, ok := heapKey(s.elem, nil)
	if !ok {
		unsup("slice literal of %s", s.elem)
	}
	var us []*Term
	for _, e := range s.lit {
		us = append(us, Unit(e))
	}
	st.heaps[key] = HWrite(x.heap(st, key), ref, Int(0), Cat(us...))
	n := Int(int64(len(s.lit)))
	return &VSlice{ref: ref, off: Int(0), len: n, cap: n, elem: s.elem}
}

// ---- tables

// tableRead reads a constant table at a symbolic index.
func (x *X) tableRead(st *State, a *CArr, path []int, idx *Term, t types.Type) Val {
	vals := make([]int64, len(a.slots))
	isBool := false
	for i, s := range a.slots {
		switch v := slotPath(s, path).v.(type) {
		case CInt:
			vals[i] = v.n
		case CBool:
			isBool = true
			if v.b {
				vals[i] = 1
			}
		default:
			unsup("table of %s read at a symbolic index", t)
		}
	}
	if len(vals) == 0 {
		return Int(0)
	}
	var r *Term
	if len(vals) <= 300 {
		r = iteTable(idx, vals)
	} else {
		r = x.bigTable(a, path, vals, idx)
	}
	if isBool {
		return Eq(r, Int(1))
	}
	return r
}

// iteTable is a nested conditional over maximal runs of constant or
// consecutive values.
func iteTable(idx *Term, vals []int64) *Term {
	type run struct{ end, base, slope int64 }
	var runs []run
	for i := 0; i < len(vals); {
		j := i + 1
		slope := int64(0)
		if j < len(vals) {
			d := vals[j] - vals[i]
			if d == 0 || d == 1 {
				slope = d
				for j < len(vals) && vals[j]-vals[j-1] == d {
					j++
				}
			}
		}
		runs = append(runs, run{int64(j - 1), vals[i] - slope*int64(i), slope})
		i = j
	}
	seg := func(r run) *Term { return Add(Int(r.base), MulC(idx, bi(r.slope))) }
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if lo == hi {
			return seg(runs[lo])
		}
		m := (lo + hi) / 2
		return Ite(Le(idx, Int(runs[m].end)), build(lo, m), build(m+1, hi))
	}
	t := build(0, len(runs)-1)
	mn, mx := vals[0], vals[0]
	for _, v := range vals {
		if v < mn {
			mn = v
		}
		if v > mx {
			mx = v
		}
	}
	_ = mn
	return t
}

// mapLookup gives value and presence of a key in a constant map.
func (x *X) mapLookup(st *State, m *CMap, key *Term) (val, ok *Term) {
	type kv struct{ k, v int64 }
	var kvs []kv
	for k, v := range m.vals {
		ki, isInt := k.(int64)
		if !isInt {
			unsup("map with keys other than integers")
		}
		switch v := v.(type) {
		case CInt:
			kvs = append(kvs, kv{ki, v.n})
		case CBool:
			n := int64(0)
			if v.b {
				n = 1
			}
			kvs = append(kvs, kv{ki, n})
		case *CStruct:
			if len(v.slots) != 0 {
				unsup("map to structs")
			}
			kvs = append(kvs, kv{ki, 0})
		default:
			unsup("map to %T", v)
		}
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
	if len(kvs) == 0 {
		return Int(0), False
	}
	if len(kvs) > 400 {
		ks, vs := make([]int64, len(kvs)), make([]int64, len(kvs))
		for i, e := range kvs {
			ks[i], vs[i] = e.k, e.v
		}
		return x.bigMap(m, ks, vs, key)
	}
	ks, vs := make([]int64, len(kvs)), make([]int64, len(kvs))
	for i, e := range kvs {
		ks[i], vs[i] = e.k, e.v
	}
	return runMap(ks, vs, key)
}

// runMap is the lookup of key in a small map with sorted keys, as a nested
// conditional over runs of consecutive keys with constant or consecutive
// values.
func runMap(ks, vs []int64, key *Term) (val, ok *Term) {
	type kv struct{ k, v int64 }
	var kvs []kv
	for i := range ks {
		kvs = append(kvs, kv{ks[i], vs[i]})
	}
	type run struct{ lo, hi, base, slope int64 }
	var runs []run
	for i := 0; i < len(kvs); {
		j := i + 1
		slope := int64(0)
		if j < len(kvs) && kvs[j].k == kvs[i].k+1 {
			d := kvs[j].v - kvs[i].v
			if d == 0 || d == 1 {
				slope = d
				for j < len(kvs) && kvs[j].k == kvs[j-1].k+1 && kvs[j].v-kvs[j-1].v == d {
					j++
				}
			}
		}
		runs = append(runs, run{kvs[i].k, kvs[j-1].k, kvs[i].v - slope*kvs[i].k, slope})
		i = j
	}
	var build func(lo, hi int) (*Term, *Term)
	build = func(lo, hi int) (*Term, *Term) {
		if lo == hi {
			r := runs[lo]
			in := And(Le(Int(r.lo), key), Le(key, Int(r.hi)))
			return Ite(in, Add(Int(r.base), MulC(key, bi(r.slope))), Int(0)), in
		}
		m := (lo + hi) / 2
		v1, o1 := build(lo, m)
		v2, o2 := build(m+1, hi)
		c := Le(key, Int(runs[m].hi))
		return Ite(c, v1, v2), Ite(c, o1, o2)
	}
	return build(0, len(runs)-1)
}

// ---- running

func (x *X) get(fr *frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Global:
		if why, ok := x.mutated[v]; ok {
			unsup("package variable %s is modified after initialisation (%s)", v.Name(), why)
		}
		return &PConst{x.ie.global(v)}
	case *ssa.Function:
		return &VFunc{fn: v}
	case *ssa.Builtin:
		return &VUnknown{"builtin"}
	}
	r, ok := fr.regs[v]
	if !ok {
		unsup("register %s of %s not set", v.Name(), fr.fn)
	}
	if u, bad := r.(*VUnknown); bad {
		return u
	}
	return r
}

func (x *X) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return x.zeroVal(st, c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return seqOf(constant.StringVal(c.Value))
	case constant.Int:
		if _, ok := typeBits(c.Type()); ok {
			n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return IntB(n)
		}
	}
	return &VUnknown{"constant " + c.String()}
}

func (x *X) term(v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	if u, ok := v.(*VUnknown); ok {
		unsup("%s", u.why)
	}
	unsup("expected a scalar, have %T", v)
	return nil
}

// call runs fn with the arguments; k is called for each way it returns.
func (x *X) call(fn *ssa.Function, args, binds []Val, st *State, k func(*State, []Val)) {
	if fn.Pkg != nil {
		x.P.ensureBuilt(fn.Pkg)
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		x.P.ensureBuilt(o.Pkg)
	}
	if len(fn.Blocks) == 0 {
		unsup("call of %s, which has no Go body", fn)
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 6 || len(x.stack) > 40 {
		unsup("recursion through %s", fn)
	}
	fr := &frame{fn: fn, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, peel: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = binds[i]
	}
	saved := x.stack
	x.stack = append(x.stack[:len(x.stack):len(x.stack)], fn)
	inner := x.stack
	fr.k = func(st *State, r []Val) {
		x.stack = saved
		k(st, r)
		x.stack = inner
	}
	x.block(fr, st, fn.Blocks[0], nil)
	x.stack = saved
}

// block runs b, entered from pred.
func (x *X) block(fr *frame, st *State, b, pred *ssa.BasicBlock) {
	if st.dead {
		return
	}
	if fr.cutEdge(pred, b) {
		return
	}
	x.pathN++
	if x.pathN > 200000 {
		unsup("too many paths")
	}
	if isLoopHeader(b) {
		x.loopHeader(fr, st, b, pred)
		return
	}
	x.phis(fr, st, b, pred)
	x.instrs(fr, st, b, 0)
}

func (x *X) phis(fr *frame, st *State, b, pred *ssa.BasicBlock) {
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == pred {
				vals = append(vals, x.get(fr, st, ph.Edges[i]))
				ps = append(ps, ph)
				break
			}
		}
	}
	for i, ph := range ps {
		fr.regs[ph] = vals[i]
	}
}

func (x *X) instrs(fr *frame, st *State, b *ssa.BasicBlock, from int) {
	for i := from; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Jump:
			x.block(fr, st, b.Succs[0], b)
			return
		case *ssa.If:
			c := x.term(x.get(fr, st, in.Cond))
			x.fork(fr, st, c, func(fr *frame, st *State, taken bool) {
				n := b.Succs[1]
				if taken {
					n = b.Succs[0]
				}
				x.block(fr, st, n, b)
			})
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				v := x.get(fr, st, r)
				if s, ok := v.(*VSlice); ok && s.lit != nil {
					v = x.materialize(st, s)
				}
				rs = append(rs, v)
			}
			fr.k(st, rs)
			return
		case *ssa.Panic:
			x.ob(st, "panic", in.Pos(), False, "panic")
			st.dead = true
			return
		case *ssa.Store:
			if isLitStore(in) {
				continue
			}
			x.store(st, x.get(fr, st, in.Addr), x.get(fr, st, in.Val), in.Val.Type(), in.Pos())
		case *ssa.MapUpdate:
			if m, ok := x.get(fr, st, in.Map).(*VMap); ok && m.m != nil {
				x.ob(st, "frame", in.Pos(), False, "write to a package-level map")
			}
			unsup("map update")
		case *ssa.Call:
			i := i
			cont := func(fr *frame) func(*State, []Val) {
				return func(st *State, rs []Val) {
					if st.dead {
						return
					}
					fr := fr.clone()
					if len(rs) == 1 {
						fr.regs[in] = rs[0]
					} else {
						fr.regs[in] = &VTuple{rs}
					}
					x.instrs(fr, st, b, i+1)
				}
			}(fr)
			x.callInstr(fr, st, in, cont)
			return
		case *ssa.Lookup:
			done, forked := x.lookup(fr, st, in, func(fr *frame, st *State) { x.instrs(fr, st, b, i+1) })
			if forked {
				return
			}
			fr.regs[in] = done
		case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
			unsup("%s statement", strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa."))
		case ssa.Value:
			fr.regs[in] = x.value(fr, st, in)
		default:
			unsup("instruction %T", in)
		}
	}
}

// fork continues with c true and with c false, as far as possible.
func (x *X) fork(fr *frame, st *State, c *Term, next func(*frame, *State, bool)) {
	if c == True || c == False {
		next(fr, st, c == True)
		return
	}
	f := x.feasible(st, c, Not(c))
	if f[0] && f[1] {
		st2, fr2 := st.clone(), fr.clone()
		st.branch(c)
		next(fr, st, true)
		st2.branch(Not(c))
		next(fr2, st2, false)
		return
	}
	if f[0] {
		st.assume(c)
		next(fr, st, true)
	} else if f[1] {
		st.assume(Not(c))
		next(fr, st, false)
	}
}

func isLitAlloc(a *ssa.Alloc) bool {
	at, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 64 {
		return false
	}
	slices := 0
	seen := map[int64]bool{}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			c, ok := r.Index.(*ssa.Const)
			if !ok || seen[c.Int64()] {
				return false
			}
			seen[c.Int64()] = true
			for _, rr := range *r.Referrers() {
				s, ok := rr.(*ssa.Store)
				if !ok || s.Addr != r || s.Block() != a.Block() {
					return false
				}
			}
		case *ssa.Slice:
			slices++
			if r.Low != nil || r.High != nil || r.Max != nil || r.Block() != a.Block() {
				return false
			}
		default:
			return false
		}
	}
	if slices != 1 {
		return false
	}
	_, _, ok = heapKey(at.Elem(), nil)
	return ok
}

func isLitStore(s *ssa.Store) bool {
	ia, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	a, ok := ia.X.(*ssa.Alloc)
	return ok && isLitAlloc(a)
}

// onlyAppended reports that a slice literal is used only as the second
// argument of append.
func onlyAppended(s *ssa.Slice) bool {
	for _, r := range *s.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || c.Call.Args[0] == s {
			return false
		}
	}
	return true
}

func (x *X) value(fr *frame, st *State, in ssa.Value) Val {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok {
			if isLitAlloc(in) {
				return &VUnknown{"literal"}
			}
			if _, _, ok := heapKey(at.Elem(), nil); ok {
				return x.newArray(st, at.Elem(), Int(at.Len()))
			}
			unsup("array of %s", at.Elem())
		}
		id := x.newCell()
		x.cellTyp[id] = t
		st.cells[id] = x.zeroVal(st, t)
		return &PCell{id: id}
	case *ssa.FieldAddr:
		switch p := x.get(fr, st, in.X).(type) {
		case *PCell:
			np := append(append([]int{}, p.path...), in.Field)
			if a, ok := pathGet(st.cells[p.id], np).(*PArr); ok {
				return a
			}
			return &PCell{id: p.id, path: np}
		case *PElem:
			return &PElem{ref: p.ref, idx: p.idx, elem: p.elem, path: append(append([]int{}, p.path...), in.Field)}
		case *PConst:
			s, ok := p.s.v.(*CStruct)
			if !ok {
				unsup("field of %T", p.s.v)
			}
			return &PConst{s.slots[in.Field]}
		case *VNilPtr:
			x.ob(st, "nil", in.Pos(), False, "nil pointer dereference")
			st.dead = true
			return &VUnknown{"nil"}
		case *VUnknown:
			unsup("%s", p.why)
		default:
			unsup("field address of %T", p)
		}
	case *ssa.Field:
		switch s := x.get(fr, st, in.X).(type) {
		case *VStruct:
			return s.f[in.Field]
		default:
			unsup("field of %T", s)
		}
	case *ssa.IndexAddr:
		if a, ok := in.X.(*ssa.Alloc); ok && isLitAlloc(a) {
			return &VUnknown{"literal"}
		}
		i := x.term(x.get(fr, st, in.Index))
		switch s := x.get(fr, st, in.X).(type) {
		case *VSlice:
			if s.lit != nil {
				s = x.materialize(st, s)
			}
			x.ob(st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, s.len)), "index in range")
			return &PElem{ref: s.ref, idx: Add(s.off, i), elem: s.elem}
		case *PArr:
			x.ob(st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, Int(s.n))), "index in range")
			return &PElem{ref: s.ref, idx: i, elem: s.elem}
		case *PConst:
			a, ok := s.s.v.(*CArr)
			if !ok {
				unsup("index of %T", s.s.v)
			}
			x.ob(st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, Int(int64(len(a.slots))))), "index in range")
			return &PElem{ref: x.arrID(a), idx: i, elem: a.elem}
		case *VNilPtr:
			x.ob(st, "nil", in.Pos(), False, "nil pointer dereference")
			st.dead = true
			return &VUnknown{"nil"}
		case *VUnknown:
			unsup("%s", s.why)
		default:
			unsup("index of %T", s)
		}
	case *ssa.Index:
		i := x.term(x.get(fr, st, in.Index))
		switch s := x.get(fr, st, in.X).(type) {
		case *VArrVal:
			x.ob(st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, Int(s.n))), "index in range")
			if s.carr != nil {
				return x.loadElem(st, x.arrID(s.carr), i, s.elem, nil)
			}
			return SAt(s.seq, i)
		case *Term:
			x.ob(st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, SLen(s))), "index in range")
			return x.strAt(st, s, i)
		default:
			unsup("index of %T", s)
		}
	case *ssa.Slice:
		return x.slice(fr, st, in)
	case *ssa.UnOp:
		return x.unop(fr, st, in)
	case *ssa.BinOp:
		return x.binop(fr, st, in)
	case *ssa.ChangeType:
		v := x.get(fr, st, in.X)
		return retype(v, in.Type())
	case *ssa.Convert:
		return x.convert(fr, st, in.X, in.Type(), in.Pos())
	case *ssa.MakeInterface:
		v := x.get(fr, st, in.X)
		if s, ok := v.(*VSlice); ok && s.lit != nil {
			v = x.materialize(st, s)
		}
		return &VIface{id: x.opaque(fmt.Sprintf("dyn:%s:%s", in.X.Type(), shape(v))), dyn: in.X.Type(), val: v}
	case *ssa.ChangeInterface:
		return x.get(fr, st, in.X)
	case *ssa.MakeClosure:
		f := &VFunc{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, x.get(fr, st, b))
		}
		return f
	case *ssa.Extract:
		switch t := x.get(fr, st, in.Tuple).(type) {
		case *VTuple:
			return t.f[in.Index]
		case *VUnknown:
			return t
		default:
			unsup("extract from %T", t)
		}
	case *ssa.MakeSlice:
		n := x.term(x.get(fr, st, in.Len))
		c := x.term(x.get(fr, st, in.Cap))
		el := in.Type().Underlying().(*types.Slice).Elem()
		x.ob(st, "make", in.Pos(), And(Le(Int(0), n), Le(n, c)), "size of make")
		st.assume(Le(c, IntB(maxLen))) // otherwise memory is exhausted
		ref := x.allocRef(st)
		key, _, ok := heapKey(el, nil)
		if !ok {
			unsup("make of []%s", el)
		}
		st.heaps[key] = HWrite(x.heap(st, key), ref, Int(0), Zeros(c))
		return &VSlice{ref: ref, off: Int(0), len: n, cap: c, elem: el}
	case *ssa.Range:
		s, ok := x.get(fr, st, in.X).(*Term)
		if !ok {
			unsup("range over a map")
		}
		id := x.newCell()
		st.cells[id] = &VTuple{[]Val{s, Int(0)}}
		return &VIter{cell: id}
	case *ssa.Next:
		it, ok := x.get(fr, st, in.Iter).(*VIter)
		if !ok {
			unsup("iteration over a map")
		}
		tp := st.cells[it.cell].(*VTuple)
		s, pos := tp.f[0].(*Term), tp.f[1].(*Term)
		okT := Lt(pos, SLen(s))
		rest := Drop(s, pos)
		r := App("u8rune", SInt, rest)
		size := App("u8size", SInt, rest)
		st.assume(Imp(okT, And(Le(Int(1), size), Le(Add(pos, size), SLen(s)), Le(Int(0), r), Le(r, Int(0x10FFFF)))))
		st.cells[it.cell] = &VTuple{[]Val{s, Ite(okT, Add(pos, size), pos)}}
		return &VTuple{[]Val{okT, pos, r}}
	case *ssa.TypeAssert:
		v, ok := x.get(fr, st, in.X).(*VIface)
		if !ok {
			unsup("type assertion on %T", x.get(fr, st, in.X))
		}
		if v.dyn == nil && !(v.id.k == KInt && v.id.n.Sign() == 0) {
			unsup("type assertion on an unknown value")
		}
		holds := v.dyn != nil
		if holds {
			if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				holds = types.Implements(v.dyn, it)
			} else {
				holds = types.Identical(v.dyn, in.AssertedType)
			}
		}
		var val Val = v
		if holds {
			if !types.IsInterface(in.AssertedType) {
				val = v.val
			}
		} else {
			val = x.zeroVal(st, in.AssertedType)
		}
		if in.CommaOk {
			return &VTuple{[]Val{val, Bool(holds)}}
		}
		x.ob(st, "assert", in.Pos(), Bool(holds), "type assertion")
		return val
	}
	unsup("instruction %T in %s", in, fr.fn)
	return nil
}

func retype(v Val, t types.Type) Val {
	switch v := v.(type) {
	case *VStruct:
		return &VStruct{typ: t, f: v.f}
	case *VSlice:
		n := *v
		n.elem = t.Underlying().(*types.Slice).Elem()
		return &n
	}
	return v
}

func (x *X) strAt(st *State, s, i *Term) *Term {
	c := SAt(s, i)
	if c.k != KInt {
		st.assume(Le(Int(0), c))
		st.assume(Le(c, Int(255)))
	}
	return c
}

func (x *X) slice(fr *frame, st *State, in *ssa.Slice) Val {
	if a, ok := in.X.(*ssa.Alloc); ok && isLitAlloc(a) {
		at := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		lit := make([]*Term, at.Len())
		for i := range lit {
			z, ok := x.zeroVal(st, at.Elem()).(*Term)
			if !ok {
				unsup("literal of %s", at.Elem())
			}
			lit[i] = z
		}
		for _, r := range *a.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, rr := range *ia.Referrers() {
					s := rr.(*ssa.Store)
					lit[ia.Index.(*ssa.Const).Int64()] = x.term(x.get(fr, st, s.Val))
				}
			}
		}
		for i := range lit {
			if lit[i].sort == SBool {
				lit[i] = Ite(lit[i], Int(1), Int(0))
			}
		}
		v := &VSlice{ref: Int(0), off: Int(0), len: Int(at.Len()), cap: Int(at.Len()), elem: at.Elem(), lit: lit}
		if len(lit) == 0 || !onlyAppended(in) {
			if len(lit) == 0 {
				v.lit = []*Term{}
			}
			return x.materialize(st, v)
		}
		return v
	}
	lim := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(x.get(fr, st, v))
	}
	lo := lim(in.Low, Int(0))
	switch s := x.get(fr, st, in.X).(type) {
	case *VSlice:
		if s.lit != nil {
			s = x.materialize(st, s)
		}
		hi := lim(in.High, s.len)
		mx := lim(in.Max, s.cap)
		x.ob(st, "slice", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.cap)), "slice bounds in range")
		return &VSlice{ref: s.ref, off: Add(s.off, lo), len: Sub(hi, lo), cap: Sub(mx, lo), elem: s.elem}
	case *PArr:
		hi := lim(in.High, Int(s.n))
		mx := lim(in.Max, Int(s.n))
		x.ob(st, "slice", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, Int(s.n))), "slice bounds in range")
		return &VSlice{ref: s.ref, off: lo, len: Sub(hi, lo), cap: Sub(mx, lo), elem: s.elem}
	case *PConst:
		a, ok := s.s.v.(*CArr)
		if !ok {
			unsup("slice of %T", s.s.v)
		}
		hi := lim(in.High, Int(int64(len(a.slots))))
		mx := lim(in.Max, Int(int64(len(a.slots))))
		x.ob(st, "slice", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, Int(int64(len(a.slots))))), "slice bounds in range")
		return &VSlice{ref: x.arrID(a), off: lo, len: Sub(hi, lo), cap: Sub(mx, lo), elem: a.elem}
	case *Term:
		hi := lim(in.High, SLen(s))
		x.ob(st, "slice", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, SLen(s))), "slice bounds in range")
		r := s
		if hi != SLen(s) {
			r = Take(r, hi)
		}
		return Drop(r, lo)
	case *VNilPtr:
		x.ob(st, "nil", in.Pos(), False, "nil pointer dereference")
		st.dead = true
		return &VUnknown{"nil"}
	case *VUnknown:
		unsup("%s", s.why)
	default:
		unsup("slice of %T", s)
	}
	return nil
}

func (x *X) unop(fr *frame, st *State, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			if why, bad := x.mutated[g]; bad {
				unsup("package variable %s is modified after initialisation (%s)", g.Name(), why)
			}
			s := x.ie.global(g)
			if p, ok := s.v.(CPtr); ok && p.to != nil {
				return &PConst{p.to}
			}
			return x.load(st, &PConst{s}, in.Type(), in.Pos())
		}
		return x.load(st, x.get(fr, st, in.X), in.Type(), in.Pos())
	case token.NOT:
		return Not(x.term(x.get(fr, st, in.X)))
	case token.SUB:
		return x.wrap(st, Sub(Int(0), x.term(x.get(fr, st, in.X))), in.Type())
	case token.XOR:
		it, _ := typeBits(in.Type())
		v := x.term(x.get(fr, st, in.X))
		if it.signed {
			return Sub(Int(-1), v)
		}
		return Sub(IntB(it.max()), v)
	}
	unsup("operator %s", in.Op)
	return nil
}

func (x *X) binop(fr *frame, st *State, in *ssa.BinOp) Val {
	a, b := x.get(fr, st, in.X), x.get(fr, st, in.Y)
	switch in.Op {
	case token.EQL:
		return x.equal(st, a, b)
	case token.NEQ:
		return Not(x.equal(st, a, b))
	}
	p, q := x.term(a), x.term(b)
	if p.sort == SSeq {
		switch in.Op {
		case token.ADD:
			r := Cat(p, q)
			st.assume(Le(SLen(r), IntB(maxLen)))
			return r
		}
		unsup("operator %s on strings", in.Op)
	}
	return x.arith(st, in.Op, p, q, in.X.Type(), in.Y.Type(), in.Type(), in.Pos())
}

func (x *X) arith(st *State, op token.Token, p, q *Term, tx, ty, tr types.Type, pos token.Pos) Val {
	switch op {
	case token.ADD:
		return x.wrap(st, Add(p, q), tr)
	case token.SUB:
		return x.wrap(st, Sub(p, q), tr)
	case token.MUL:
		return x.wrap(st, Mul(p, q), tr)
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Gt(p, q)
	case token.GEQ:
		return Ge(p, q)
	case token.QUO, token.REM:
		x.ob(st, "div", pos, Ne(q, Int(0)), "division by zero")
		if q.k != KInt {
			unsup("division by a variable")
		}
		if q.n.Sign() == 0 {
			st.dead = true
			return Int(0)
		}
		d := q.n
		abs := new(big.Int).Abs(d)
		lo, hi := st.bounds(p)
		var quo *Term
		switch {
		case lo != nil && lo.Sign() >= 0:
			quo = DivC(p, abs)
		case hi != nil && hi.Sign() <= 0:
			quo = Sub(Int(0), DivC(Sub(Int(0), p), abs))
		default:
			quo = Ite(Le(Int(0), p), DivC(p, abs), Sub(Int(0), DivC(Sub(Int(0), p), abs)))
		}
		if op == token.REM {
			switch {
			case lo != nil && lo.Sign() >= 0:
				return ModC(p, abs)
			case hi != nil && hi.Sign() <= 0:
				return Sub(Int(0), ModC(Sub(Int(0), p), abs))
			}
			return Ite(Le(Int(0), p), ModC(p, abs), Sub(Int(0), ModC(Sub(Int(0), p), abs)))
		}
		if d.Sign() < 0 {
			quo = Sub(Int(0), quo)
		}
		return x.wrap(st, quo, tr)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if p.sort == SBool {
			switch op {
			case token.AND:
				return And(p, q)
			case token.OR:
				return Or(p, q)
			case token.XOR:
				return Ne(p, q)
			}
		}
		return x.bitop(st, op, p, q, tr)
	case token.SHL, token.SHR:
		it, _ := typeBits(tr)
		if qt, ok := typeBits(ty); ok && qt.signed {
			x.ob(st, "shift", pos, Le(Int(0), q), "shift count not negative")
		}
		if q.k != KInt {
			lo, hi := st.bounds(q)
			if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(bi(64)) > 0 {
				unsup("shift by a variable")
			}
			var r *Term
			for n := hi.Int64(); n >= lo.Int64(); n-- {
				v := x.shiftC(st, op, p, n, it, tr)
				if r == nil {
					r = v
				} else {
					r = Ite(Eq(q, Int(n)), v, r)
				}
			}
			return r
		}
		n := int64(64)
		if q.n.IsInt64() && q.n.Int64() < 64 {
			n = q.n.Int64()
		}
		return x.shiftC(st, op, p, n, it, tr)
	}
	unsup("operator %s", op)
	return nil
}

func (x *X) shiftC(st *State, op token.Token, p *Term, n int64, it intType, tr types.Type) *Term {
	pow := new(big.Int).Lsh(bi(1), uint(n))
	if op == token.SHL {
		if n >= int64(it.bits) {
			return Int(0)
		}
		return x.wrap(st, MulC(p, pow), tr)
	}
	return DivC(p, pow)
}

func (x *X) bitop(st *State, op token.Token, p, q *Term, tr types.Type) Val {
	it, _ := typeBits(tr)
	if p.k == KIte && q.k == KIte && p.args[0] == q.args[0] {
		return Ite(p.args[0], x.bitop(st, op, p.args[1], q.args[1], tr).(*Term), x.bitop(st, op, p.args[2], q.args[2], tr).(*Term))
	}
	// at most two values: by cases
	if q.k != KInt {
		if lo, hi := st.bounds(q); lo != nil && hi != nil && lo.Sign() < 0 && new(big.Int).Sub(hi, lo).Cmp(bi(1)) <= 0 {
			return Ite(Eq(q, IntB(lo)), x.bitop(st, op, p, IntB(lo), tr).(*Term), x.bitop(st, op, p, IntB(hi), tr).(*Term))
		}
	}
	if p.k != KInt {
		if lo, hi := st.bounds(p); lo != nil && hi != nil && lo.Sign() < 0 && new(big.Int).Sub(hi, lo).Cmp(bi(1)) <= 0 {
			return Ite(Eq(p, IntB(lo)), x.bitop(st, op, IntB(lo), q, tr).(*Term), x.bitop(st, op, IntB(hi), q, tr).(*Term))
		}
	}
	if p.k == KInt && q.k == KInt {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(p.n, q.n)
		case token.OR:
			r.Or(p.n, q.n)
		case token.XOR:
			r.Xor(p.n, q.n)
		case token.AND_NOT:
			r.AndNot(p.n, q.n)
		}
		return x.wrap(st, IntB(r), tr)
	}
	if p.k == KInt && q.k != KInt && op != token.AND_NOT {
		p, q = q, p
	}
	and := func(p, q *Term) *Term {
		if q.k == KInt {
			c := q.n
			if c.Sign() < 0 { // signed mask: x & c = x - (x & ^c)
				nc := new(big.Int).Not(c)
				return Sub(p, maskC(p, nc))
			}
			if !it.signed {
				lo, hi := st.bounds(p)
				_ = lo
				// all-ones mask above the value
				if hi != nil && c.Cmp(hi) >= 0 && new(big.Int).And(c, new(big.Int).Add(c, bi(1))).Sign() == 0 {
					return p
				}
			}
			return maskC(p, c)
		}
		return nil
	}
	if q.k == KInt {
		a := and(p, q)
		switch op {
		case token.AND:
			return a
		case token.OR:
			return Sub(Add(p, q), a)
		case token.XOR:
			return Sub(Add(p, q), MulC(a, bi(2)))
		case token.AND_NOT:
			return Sub(p, a)
		}
	}
	if op == token.AND_NOT && p.k == KInt {
		// c &^ y = c - (y & c)
		return Sub(p, and(q, p))
	}
	// disjoint bits
	if op == token.OR || op == token.XOR {
		for _, pq := range [][2]*Term{{p, q}, {q, p}} {
			lo, hi := st.bounds(pq[1])
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= int(tz(pq[0])) {
				return Add(p, q)
			}
		}
	}
	// bit by bit
	lo1, hi1 := st.bounds(p)
	lo2, hi2 := st.bounds(q)
	if lo1 == nil || hi1 == nil || lo2 == nil || hi2 == nil || lo1.Sign() < 0 || lo2.Sign() < 0 {
		unsup("bit operation on unbounded values")
	}
	n := hi1.BitLen()
	if hi2.BitLen() > n {
		n = hi2.BitLen()
	}
	if n > 32 {
		unsup("bit operation on wide values")
	}
	r := Int(0)
	for i := 0; i < n; i++ {
		w := new(big.Int).Lsh(bi(1), uint(i))
		pb := Eq(ModC(DivC(p, w), bi(2)), Int(1))
		qb := Eq(ModC(DivC(q, w), bi(2)), Int(1))
		var c *Term
		switch op {
		case token.AND:
			c = And(pb, qb)
		case token.OR:
			c = Or(pb, qb)
		case token.XOR:
			c = Ne(pb, qb)
		case token.AND_NOT:
			c = And(pb, Not(qb))
		}
		r = Add(r, MulC(Ite(c, Int(1), Int(0)), w))
	}
	return r
}

func (x *X) equal(st *State, a, b Val) *Term {
	if p, ok := a.(*Term); ok {
		if q, ok := b.(*Term); ok {
			return Eq(p, q)
		}
	}
	isNil := func(v Val) bool {
		switch v := v.(type) {
		case *VNilPtr:
			return true
		case *VMap:
			return v.m == nil
		}
		return false
	}
	switch p := a.(type) {
	case *VSlice:
		if q, ok := b.(*VSlice); ok {
			if q.ref.k == KInt && q.ref.n.Sign() == 0 {
				return Eq(p.ref, Int(0))
			}
			return Eq(q.ref, Int(0))
		}
	case *VIface:
		if q, ok := b.(*VIface); ok {
			if p.dyn != nil && q.dyn != nil {
				if !types.Identical(p.dyn, q.dyn) {
					return False
				}
				return x.equal(st, p.val, q.val)
			}
			return Eq(p.id, q.id)
		}
	case *VStruct:
		if q, ok := b.(*VStruct); ok {
			var cs []*Term
			for i := range p.f {
				cs = append(cs, x.equal(st, p.f[i], q.f[i]))
			}
			return And(cs...)
		}
	case *PCell:
		if q, ok := b.(*PCell); ok {
			return Bool(p.id == q.id && fmt.Sprint(p.path) == fmt.Sprint(q.path))
		}
	case *PConst:
		if q, ok := b.(*PConst); ok {
			return Bool(p.s == q.s)
		}
	case *PElem:
		if q, ok := b.(*PElem); ok && fmt.Sprint(p.path) == fmt.Sprint(q.path) {
			return And(Eq(p.ref, q.ref), Eq(p.idx, q.idx))
		}
	}
	if isNil(a) && isNil(b) {
		return True
	}
	if isNil(a) || isNil(b) {
		other := a
		if isNil(a) {
			other = b
		}
		switch other.(type) {
		case *PCell, *PConst, *PElem, *PArr, *VFunc, *VMap:
			return False
		}
	}
	for _, v := range []Val{a, b} {
		if u, ok := v.(*VUnknown); ok {
			unsup("%s", u.why)
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

func (x *X) convert(fr *frame, st *State, src ssa.Value, t types.Type, pos token.Pos) Val {
	v := x.get(fr, st, src)
	ft := src.Type()
	if _, ok := typeBits(t); ok {
		if tv, ok := v.(*Term); ok && tv.sort == SInt {
			return x.wrap(st, tv, t)
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch s := v.(type) {
		case *VSlice:
			it, _ := typeBits(s.elem)
			w := x.view(st, s)
			if it.bits == 8 {
				st.assume(Le(SLen(w), IntB(maxLen)))
				return w
			}
			r := App("strof", SSeq, w)
			st.assume(Le(SLen(r), IntB(maxLen)))
			return r
		case *Term:
			if s.sort == SSeq {
				return s
			}
			return App("u8enc", SSeq, s)
		}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if s, ok := v.(*Term); ok && s.sort == SSeq {
			it, _ := typeBits(sl.Elem())
			seq := s
			if it.bits == 32 {
				seq = App("runes", SSeq, s)
				st.assume(Le(SLen(seq), SLen(s)))
			}
			st.assume(Le(SLen(seq), IntB(maxLen)))
			ref := x.allocRef(st)
			n := SLen(seq)
			c := Fresh("cap", SInt, bi(0), maxLen)
			st.assume(Le(n, c))
			key, _, _ := heapKey(sl.Elem(), nil)
			st.heaps[key] = HWrite(x.heap(st, key), ref, Int(0), seq)
			return &VSlice{ref: ref, off: Int(0), len: n, cap: c, elem: sl.Elem()}
		}
		if s, ok := v.(*VSlice); ok {
			return retype(s, t)
		}
	}
	unsup("conversion from %s to %s", ft, t)
	return nil
}

// lookup handles map and string indexing; it may fork.
func (x *X) lookup(fr *frame, st *State, in *ssa.Lookup, next func(*frame, *State)) (Val, bool) {
	xv := x.get(fr, st, in.X)
	k := x.get(fr, st, in.Index)
	if s, ok := xv.(*Term); ok {
		i := x.term(k)
		x.ob(st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, SLen(s))), "index in range")
		return x.strAt(st, s, i), false
	}
	m, ok := xv.(*VMap)
	if !ok {
		if u, bad := xv.(*VUnknown); bad {
			unsup("%s", u.why)
		}
		unsup("lookup in %T", xv)
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	pack := func(v Val, ok *Term) Val {
		if in.CommaOk {
			return &VTuple{[]Val{v, ok}}
		}
		return v
	}
	if m.m == nil {
		return pack(x.zeroVal(st, et), False), false
	}
	if m.m.taint {
		unsup("map not known after initialisation")
	}
	key := x.term(k)
	if key.sort != SInt {
		unsup("map with keys of type %s", in.Index.Type())
	}
	if key.k == KInt {
		v, has := m.m.vals[key.n.Int64()]
		if !has {
			return pack(x.zeroVal(st, et), False), false
		}
		return pack(x.fromC(v, et), True), false
	}
	_, isInt := typeBits(et)
	b, isB := et.Underlying().(*types.Basic)
	isBool := isB && b.Kind() == types.Bool
	es, isS := et.Underlying().(*types.Struct)
	if isInt || isBool || (isS && es.NumFields() == 0) {
		v, ok := x.mapLookup(st, m.m, key)
		var val Val = v
		if isBool {
			val = Eq(v, Int(1))
		}
		if isS {
			val = &VStruct{typ: et}
		}
		return pack(val, ok), false
	}
	// fork over the entries
	if len(m.m.keys) > 200 {
		unsup("map too large")
	}
	var none []*Term
	type ent struct {
		k int64
		v CVal
	}
	var es2 []ent
	for _, kk := range m.m.keys {
		n, ok := kk.(CInt)
		if !ok {
			unsup("map with keys other than integers")
		}
		es2 = append(es2, ent{n.n, m.m.vals[n.n]})
	}
	sort.Slice(es2, func(i, j int) bool { return es2[i].k < es2[j].k })
	var conds []*Term
	for _, e := range es2 {
		conds = append(conds, Eq(key, Int(e.k)))
		none = append(none, Ne(key, Int(e.k)))
	}
	conds = append(conds, And(none...))
	feas := x.feasible(st, conds...)
	for i, c := range conds {
		if !feas[i] {
			continue
		}
		st2, fr2 := st.clone(), fr.clone()
		st2.branch(c)
		if i < len(es2) {
			fr2.regs[in] = pack(x.fromC(es2[i].v, et), True)
		} else {
			fr2.regs[in] = pack(x.zeroVal(st2, et), False)
		}
		next(fr2, st2)
	}
	return nil, true
}

// ---- calls

func (x *X) callInstr(fr *frame, st *State, in *ssa.Call, k func(*State, []Val)) {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(st, []Val{x.builtin(fr, st, in, b)})
		return
	}
	var args []Val
	for _, a := range c.Args {
		v := x.get(fr, st, a)
		if s, ok := v.(*VSlice); ok && s.lit != nil {
			v = x.materialize(st, s)
		}
		args = append(args, v)
	}
	var fn *ssa.Function
	var binds []Val
	if c.IsInvoke() {
		v, ok := x.get(fr, st, c.Value).(*VIface)
		if !ok {
			unsup("invoke on %T", x.get(fr, st, c.Value))
		}
		if v.sym != "" {
			x.foreign(st, v.sym, c.Method.Name(), args, in, k)
			return
		}
		if v.dyn == nil {
			if v.id.k == KInt && v.id.n.Sign() == 0 {
				x.ob(st, "nil", in.Pos(), False, "call of a method of a nil interface")
				return
			}
			if c.Method.Name() == "Error" {
				k(st, []Val{x.symVal(st, "errtext", types.Typ[types.String])})
				return
			}
			unsup("call of method %s of an unknown value", c.Method.Name())
		}
		fn = x.P.prog.LookupMethod(v.dyn, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			unsup("method %s not found", c.Method.Name())
		}
		args = append([]Val{v.val}, args...)
	} else if sc := c.StaticCallee(); sc != nil {
		fn = sc
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = x.get(fr, st, mc).(*VFunc).binds
		}
	} else {
		switch f := x.get(fr, st, c.Value).(type) {
		case *VFunc:
			if f.pred != "" {
				if f.dom != nil {
					i := x.term(args[0])
					x.ob(st, "requires", in.Pos(), And(Le(Int(0), i), Lt(i, f.dom)), "the function is called in its range only")
				}
				k(st, []Val{App(f.pred, SBool, x.term(args[0]))})
				return
			}
			fn, binds = f.fn, f.binds
		case *VNilPtr:
			x.ob(st, "nil", in.Pos(), False, "call of a nil function")
			return
		default:
			unsup("call of %T", f)
		}
	}
	x.callFn(st, fn, args, binds, in, k)
}

func (x *X) callFn(st *State, fn *ssa.Function, args, binds []Val, in *ssa.Call, k func(*State, []Val)) {
	if x.intrinsic(st, fn, args, in, k) {
		return
	}
	if con := x.S.contractOf(x, fn); con != nil && (!x.noCon[fn] || con == x.con) && len(binds) == 0 {
		if x.applyContract(st, con, fn, args, in, k) {
			return
		}
	}
	x.inlineCall(st, fn, args, binds, k)
}

// inlineCall runs the body of fn; ways of returning which differ only in
// scalar results are merged.
func (x *X) inlineCall(st *State, fn *ssa.Function, args, binds []Val, k func(*State, []Val)) {
	if x.inlined != nil {
		x.inlined[fn.String()] = true
	}
	type exit struct {
		st *State
		rs []Val
	}
	var exits []exit
	pre := st.clone()
	x.call(fn, args, binds, st, func(s *State, rs []Val) { exits = append(exits, exit{s, rs}) })
	if len(exits) > 1 {
		same := true
		for _, e := range exits {
			same = same && x.sameButGarbage(pre, e.st) && mergeable(e.rs) && len(e.rs) == len(exits[0].rs)
		}
		if same {
			n := len(pre.pc)
			var conds []*Term
			m := pre
			type imp struct{ c, f *Term }
			var facts []imp
			for _, e := range exits {
				var bs []*Term
				for _, p := range e.st.pc[n:] {
					if p.br {
						bs = append(bs, p.t)
					}
				}
				c := And(bs...)
				conds = append(conds, c)
				for _, p := range e.st.pc[n:] {
					if !p.br {
						facts = append(facts, imp{c, p.t})
					}
				}
			}
			ok := true
			rs := make([]Val, len(exits[0].rs))
			for j := range rs {
				v := mergeVals(conds, func(i int) Val { return exits[i].rs[j] }, len(exits))
				if v == nil {
					ok = false
					break
				}
				rs[j] = v
			}
			if ok {
				m.assume(Or(conds...))
				// a fact common to all exits holds unconditionally
				cnt := map[*Term]int{}
				for _, f := range facts {
					cnt[f.f]++
				}
				for _, f := range facts {
					if cnt[f.f] >= len(exits) {
						m.assume(f.f)
					} else {
						m.assume(Imp(f.c, f.f))
					}
				}
				k(m, rs)
				return
			}
		}
	}
	for _, e := range exits {
		k(e.st, e.rs)
	}
}

// sameButGarbage reports that b differs from the earlier state a only in
// arrays allocated since; if no value refers to them they can be forgotten.
func (x *X) sameButGarbage(a, b *State) bool {
	for k, v := range a.cells {
		if b.cells[k] != v {
			return false
		}
	}
	for k, v := range b.heaps {
		h0 := a.heaps[k]
		if h0 == nil {
			h0 = Var(k+"!init."+x.unit, SHeap)
		}
		for v != h0 && v.k == KApp && v.name == "hwrite" && refSince(v.args[1], a.alloc) {
			v = v.args[0]
		}
		if v != h0 {
			return false
		}
	}
	for k, v := range b.ghost {
		if a.ghost[k] != v {
			return false
		}
	}
	for k, v := range b.ghv {
		if a.ghv[k] != v {
			return false
		}
	}
	return true
}

func refSince(r, alloc *Term) bool {
	if r.k == KIte {
		return refSince(r.args[1], alloc) && refSince(r.args[2], alloc)
	}
	d := Sub(r, alloc)
	return d.k == KInt && d.n.Sign() >= 0
}

func (x *X) sameStore(a, b *State) bool {
	if a.alloc != b.alloc {
		return false
	}
	for k, v := range a.cells {
		if b.cells[k] != v {
			return false
		}
	}
	for k, v := range b.heaps {
		if a.heaps[k] == nil {
			if v != Var(k+"!init."+x.unit, SHeap) {
				return false
			}
			continue
		}
		if a.heaps[k] != v {
			return false
		}
	}
	for k, v := range b.ghost {
		if a.ghost[k] != v {
			return false
		}
	}
	return true
}

func mergeable(rs []Val) bool {
	for _, r := range rs {
		switch r := r.(type) {
		case *Term:
			if r.sort != SInt && r.sort != SBool {
				return false
			}
		case *VIface:
			if r.dyn != nil || r.sym != "" {
				return false
			}
		case *VStruct:
			if !mergeable(r.f) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func mergeVals(conds []*Term, f func(int) Val, n int) Val {
	switch v := f(n - 1).(type) {
	case *Term:
		r := v
		for i := n - 2; i >= 0; i-- {
			t, ok := f(i).(*Term)
			if !ok || t.sort != r.sort {
				return nil
			}
			r = Ite(conds[i], t, r)
		}
		return r
	case *VIface:
		r := v.id
		for i := n - 2; i >= 0; i-- {
			t, ok := f(i).(*VIface)
			if !ok {
				return nil
			}
			r = Ite(conds[i], t.id, r)
		}
		return &VIface{id: r}
	case *VStruct:
		s := &VStruct{typ: v.typ}
		for j := range v.f {
			j := j
			m := mergeVals(conds, func(i int) Val {
				t, ok := f(i).(*VStruct)
				if !ok {
					return nil
				}
				return t.f[j]
			}, n)
			if m == nil {
				return nil
			}
			s.f = append(s.f, m)
		}
		return s
	}
	return nil
}

func (x *X) builtin(fr *frame, st *State, in *ssa.Call, b *ssa.Builtin) Val {
	var args []Val
	for _, a := range in.Call.Args {
		args = append(args, x.get(fr, st, a))
	}
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case *VSlice:
			if b.Name() == "cap" {
				return v.cap
			}
			return v.len
		case *Term:
			return SLen(v)
		case *PArr:
			return Int(v.n)
		case *VMap:
			if v.m == nil {
				return Int(0)
			}
			return Int(int64(len(v.m.keys)))
		}
	case "append":
		d, ok := args[0].(*VSlice)
		if !ok {
			unsup("append to %T", args[0])
		}
		if d.lit != nil {
			d = x.materialize(st, d)
		}
		var xs *Term
		var n *Term
		switch s := args[1].(type) {
		case *VSlice:
			xs, n = x.view(st, s), s.len
			if s.lit != nil {
				n = Int(int64(len(s.lit)))
			}
		case *Term:
			xs, n = s, SLen(s)
		default:
			unsup("append of %T", args[1])
		}
		return x.doAppend(st, d, xs, n, in.Pos())
	case "copy":
		d, ok := args[0].(*VSlice)
		if !ok || d.lit != nil {
			unsup("copy to %T", args[0])
		}
		var xs, n *Term
		switch s := args[1].(type) {
		case *VSlice:
			xs, n = x.view(st, s), s.len
		case *Term:
			xs, n = s, SLen(s)
		default:
			unsup("copy from %T", args[1])
		}
		m := Ite(Le(n, d.len), n, d.len)
		r := x.quick(st, []*Term{Le(n, d.len), Le(d.len, n)})
		if r[0] {
			m = n
		} else if r[1] {
			m = d.len
			xs = Take(xs, m)
		} else {
			xs = Take(xs, m)
		}
		x.heapWrite(st, d.ref, d.off, d.elem, nil, xs, in.Pos())
		return m
	case "min", "max":
		r := x.term(args[0])
		for _, a := range args[1:] {
			t := x.term(a)
			c := Le(r, t)
			if b.Name() == "max" {
				c = Le(t, r)
			}
			r = Ite(c, r, t)
		}
		return r
	case "ssa:wrapnilchk":
		if _, isNil := args[0].(*VNilPtr); isNil {
			x.ob(st, "nil", in.Pos(), False, "nil receiver")
		}
		return args[0]
	case "print", "println":
		return nil
	case "clear":
		if s, ok := args[0].(*VSlice); ok {
			x.heapWrite(st, s.ref, s.off, s.elem, nil, Zeros(s.len), in.Pos())
			return nil
		}
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *X) doAppend(st *State, d *VSlice, xs, n *Term, pos token.Pos) Val {
	if n.k == KInt && n.n.Sign() == 0 {
		return d
	}
	key, _, ok := heapKey(d.elem, nil)
	if !ok {
		unsup("append to []%s", d.elem)
	}
	newLen := Add(d.len, n)
	st.assume(Le(newLen, IntB(maxLen))) // otherwise memory is exhausted
	fits := Le(newLen, d.cap)
	if fits != True && fits != False {
		f := x.feasible(st, fits, Not(fits))
		if !f[0] {
			fits = False
		} else if !f[1] {
			fits = True
		}
	}
	fresh := x.allocRef(st)
	c := Fresh("cap", SInt, bi(0), maxLen)
	st.assume(Imp(Not(fits), Le(newLen, c)))
	r := &VSlice{ref: Ite(fits, d.ref, fresh), off: Ite(fits, d.off, Int(0)), len: newLen, cap: Ite(fits, d.cap, c), elem: d.elem}
	st.assume(Le(newLen, r.cap))
	w := x.view(st, d)
	if isConstRef(r.ref) {
		x.ob(st, "frame", pos, Or(Le(Int(0), r.ref), Eq(n, Int(0))), "append into a package-level table")
	}
	st.heaps[key] = HWrite(x.heap(st, key), r.ref, r.off, Cat(w, xs))
	return r
}

var trace = func() int { n, _ := strconv.Atoi(os.Getenv("VC_TRACE")); return n }()

var startTime = time.Now()

func dbg(f string, a ...interface{}) {
	if trace > 0 {
		fmt.Fprintf(os.Stderr, "%6.1f "+f+"\n", append([]interface{}{time.Since(startTime).Seconds()}, a...)...)
	}
}
