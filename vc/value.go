package main

// Symbolic values and states.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of *Term (integers, booleans, strings as sequences), *VSlice,
// *VStruct, *VIface, *VFunc, *PCell, *PElem, *PArr, *PConst, *VNilPtr, *VMap,
// *VIter, *VTuple, *VUnknown.
type Val interface{}

type (
	VSlice struct {
		ref, off, len, cap *Term
		elem               types.Type
		lit                []*Term // contents of a literal not yet given an array
	}
	VStruct struct {
		typ types.Type
		f   []Val
	}
	VIface struct {
		id  *Term // 0: nil
		dyn types.Type
		val Val
		sym string // name of a foreign object (source, destination)
	}
	VFunc struct {
		fn    *ssa.Function
		binds []Val
		pred  string // uninterpreted predicate (verification of sort.Search and the like)
		dom   *Term  // it may be called with 0 <= i < dom
	}
	PCell struct {
		id   int
		path []int
	}
	PElem struct {
		ref, idx *Term
		elem     types.Type
		path     []int
	}
	PArr struct {
		ref  *Term
		n    int64
		elem types.Type
	}
	PConst   struct{ s *slot }
	VNilPtr  struct{}
	VMap     struct{ m *CMap }
	VIter    struct{ cell int }
	VTuple   struct{ f []Val }
	VUnknown struct{ why string }
)

type pcItem struct {
	t  *Term
	br bool // a branch taken (as opposed to a fact)
}

type bound struct{ lo, hi *big.Int }

type State struct {
	pc    []pcItem
	cells map[int]Val
	heaps map[string]*Term
	alloc *Term
	ghost map[string]*Term
	bnd   map[*Term]bound
	ghv   map[string]Val // other ghost values (slices), by name
	dead  bool
}

func newState() *State {
	return &State{cells: map[int]Val{}, heaps: map[string]*Term{}, ghost: map[string]*Term{}, bnd: map[*Term]bound{}, ghv: map[string]Val{}}
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], alloc: s.alloc, dead: s.dead,
		cells: make(map[int]Val, len(s.cells)), heaps: make(map[string]*Term, len(s.heaps)),
		ghost: make(map[string]*Term, len(s.ghost)), bnd: make(map[*Term]bound, len(s.bnd)), ghv: make(map[string]Val, len(s.ghv))}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.bnd {
		n.bnd[k] = v
	}
	for k, v := range s.ghv {
		n.ghv[k] = v
	}
	return n
}

func (s *State) hyps() []*Term {
	out := make([]*Term, len(s.pc))
	for i, p := range s.pc {
		out[i] = p.t
	}
	return out
}

func (s *State) add(t *Term, br bool) {
	if t == True {
		return
	}
	if t == False {
		s.dead = true
	}
	if t.k == KAnd && !br {
		for _, a := range t.args {
			s.add(a, false)
		}
		return
	}
	s.pc = append(s.pc, pcItem{t, br})
	s.learn(t)
}
func (s *State) assume(t *Term) { s.add(t, false) }
func (s *State) branch(t *Term) { s.add(t, true) }

// learn records the unary bounds which t gives.
func (s *State) learn(t *Term) {
	switch t.k {
	case KAnd:
		for _, a := range t.args {
			s.learn(a)
		}
	case KLe:
		d := toLin(t.args[1])
		d.add(t.args[0], bi(-1)) // d >= 0
		s.learnLin(d)
	case KEq:
		if t.args[0].sort == SInt {
			d := toLin(t.args[1])
			d.add(t.args[0], bi(-1))
			s.learnLin(d)
			d = toLin(t.args[0])
			d.add(t.args[1], bi(-1))
			s.learnLin(d)
		}
	}
}

func (s *State) learnLin(d lin) {
	if len(d.co) == 0 || len(d.co) > 4 {
		return
	}
	for x, c := range d.co {
		// c*x + rest + k >= 0: use the bounds of the rest
		rest := lin{c: d.c, co: map[*Term]*big.Int{}}
		for y, e := range d.co {
			if y != x {
				rest.co[y] = e
			}
		}
		rt := rest.term()
		_, hi := s.bounds(rt)
		if hi == nil {
			continue
		}
		// c*x >= -hi
		b := s.bnd[x]
		neg := new(big.Int).Neg(hi)
		if c.Sign() > 0 {
			// x >= ceil(-hi/c)
			q, m := new(big.Int).DivMod(neg, c, new(big.Int))
			if m.Sign() != 0 {
				q.Add(q, bi(1))
			}
			if b.lo == nil || q.Cmp(b.lo) > 0 {
				b.lo = q
			}
		} else {
			// x <= floor(hi/-c)
			q := new(big.Int).Div(hi, new(big.Int).Neg(c))
			if b.hi == nil || q.Cmp(b.hi) < 0 {
				b.hi = q
			}
		}
		s.bnd[x] = b
	}
}

// bounds of a term in this state (cheap).
func (s *State) bounds(t *Term) (lo, hi *big.Int) {
	lo, hi = t.lo, t.hi
	if b, ok := s.bnd[t]; ok {
		if b.lo != nil && (lo == nil || b.lo.Cmp(lo) > 0) {
			lo = b.lo
		}
		if b.hi != nil && (hi == nil || b.hi.Cmp(hi) < 0) {
			hi = b.hi
		}
	}
	switch t.k {
	case KLin:
		l2, h2 := linBounds(t, s.bounds)
		if l2 != nil && (lo == nil || l2.Cmp(lo) > 0) {
			lo = l2
		}
		if h2 != nil && (hi == nil || h2.Cmp(hi) < 0) {
			hi = h2
		}
	case KDiv:
		l2, h2 := s.bounds(t.args[0])
		if l2 != nil {
			l2 = new(big.Int).Div(l2, t.n)
			if lo == nil || l2.Cmp(lo) > 0 {
				lo = l2
			}
		}
		if h2 != nil {
			h2 = new(big.Int).Div(h2, t.n)
			if hi == nil || h2.Cmp(hi) < 0 {
				hi = h2
			}
		}
	case KIte:
		al, ah := s.bounds(t.args[1])
		bl, bh := s.bounds(t.args[2])
		if al != nil && bl != nil {
			if m := minB(al, bl); lo == nil || m.Cmp(lo) > 0 {
				lo = m
			}
		}
		if ah != nil && bh != nil {
			if m := maxB(ah, bh); hi == nil || m.Cmp(hi) < 0 {
				hi = m
			}
		}
	}
	return
}

// ---- flattening: the term components of a value

// components calls f on each term in v and rebuilds v from the results.
func mapVal(v Val, name string, f func(name string, t *Term) *Term) Val {
	switch v := v.(type) {
	case *Term:
		return f(name, v)
	case *VSlice:
		if v.lit != nil {
			panic(unsupported{"literal slice escapes"})
		}
		n := &VSlice{elem: v.elem}
		n.ref = f(name+".ref", v.ref)
		n.off = f(name+".off", v.off)
		n.len = f(name+".len", v.len)
		n.cap = f(name+".cap", v.cap)
		return n
	case *VStruct:
		n := &VStruct{typ: v.typ}
		st := v.typ.Underlying().(*types.Struct)
		for i, x := range v.f {
			n.f = append(n.f, mapVal(x, name+"."+st.Field(i).Name(), f))
		}
		return n
	case *VIface:
		if v.dyn != nil || v.sym != "" {
			if v.val == nil {
				return v
			}
			return &VIface{id: v.id, dyn: v.dyn, val: mapVal(v.val, name+".dyn", f), sym: v.sym}
		}
		return &VIface{id: f(name+".id", v.id)}
	case *VTuple:
		n := &VTuple{}
		for i, x := range v.f {
			n.f = append(n.f, mapVal(x, fmt.Sprintf("%s.%d", name, i), f))
		}
		return n
	case *VFunc:
		if len(v.binds) == 0 {
			return v
		}
		n := &VFunc{fn: v.fn, pred: v.pred}
		for i, x := range v.binds {
			n.binds = append(n.binds, mapVal(x, fmt.Sprintf("%s.%d", name, i), f))
		}
		return n
	case *PElem:
		return &PElem{ref: f(name+".ref", v.ref), idx: f(name+".idx", v.idx), elem: v.elem, path: v.path}
	case *PArr:
		return &PArr{ref: f(name+".ref", v.ref), n: v.n, elem: v.elem}
	}
	return v
}

// shape describes everything of a value except its terms.
func shape(v Val) string {
	switch v := v.(type) {
	case *Term:
		return v.sort.String()
	case *VSlice:
		return "slice"
	case *VStruct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, x := range v.f {
			sb.WriteString(shape(x) + ";")
		}
		return sb.String() + "}"
	case *VIface:
		if v.sym != "" {
			return "sym:" + v.sym
		}
		if v.dyn != nil {
			return "iface:" + v.dyn.String() + ":" + shape(v.val)
		}
		return "iface"
	case *VTuple:
		var sb strings.Builder
		for _, x := range v.f {
			sb.WriteString(shape(x) + ";")
		}
		return "(" + sb.String() + ")"
	case *VFunc:
		var sb strings.Builder
		for _, x := range v.binds {
			sb.WriteString(shape(x) + ";")
		}
		if v.fn == nil {
			return "func:" + v.pred
		}
		return "func:" + v.fn.String() + sb.String()
	case *PCell:
		return fmt.Sprintf("cell%d%v", v.id, v.path)
	case *PElem:
		return fmt.Sprintf("elem%v", v.path)
	case *PArr:
		return fmt.Sprintf("arr%d", v.n)
	case *PConst:
		return fmt.Sprintf("const%p", v.s)
	case *VNilPtr:
		return "nil"
	case *VMap:
		return fmt.Sprintf("map%p", v.m)
	case *VIter:
		return fmt.Sprintf("iter%d", v.cell)
	case nil:
		return "none"
	}
	return fmt.Sprintf("%T", v)
}

type comp struct {
	name string
	t    *Term
}

func comps(v Val, name string) []comp {
	var out []comp
	mapVal(v, name, func(n string, t *Term) *Term {
		out = append(out, comp{n, t})
		return t
	})
	return out
}

func sortedCells(m map[int]Val) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }
