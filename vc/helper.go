package main

// Helper contracts are contracts of functions inside the package, by which
// their callers are verified if they hold; if the function does not exist or
// does something else, the callers are verified against its body.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// setField assigns to a field v.f.g of an object.
func (sc *scope) setField(name string, nv Val) {
	p, path := sc.fieldPath(name)
	sc.st.cells[p.id] = pathSet(sc.st.cells[p.id], path, nv)
}

func (sc *scope) fieldPath(name string) (*PCell, []int) {
	fs := strings.Split(name, ".")
	p, ok := sc.vars[fs[0]].(*PCell)
	if !ok {
		unsup("contract: %s is not a field", name)
	}
	path := append([]int{}, p.path...)
	v := pathGet(sc.st.cells[p.id], path)
	for _, f := range fs[1:] {
		s, ok := v.(*VStruct)
		if !ok {
			unsup("contract: %s is not a field", name)
		}
		t := s.typ.Underlying().(*types.Struct)
		found := false
		for i := 0; i < t.NumFields() && !found; i++ {
			if t.Field(i).Name() == f {
				path, v, found = append(path, i), s.f[i], true
			}
		}
		if !found {
			unsup("contract: no field %s", f)
		}
	}
	return p, path
}

func (sc *scope) sliceField(name string) *VSlice {
	var v Val
	if strings.Contains(name, ".") {
		p, path := sc.fieldPath(name)
		v = pathGet(sc.st.cells[p.id], path)
	} else {
		v = sc.vars[name]
	}
	s, ok := v.(*VSlice)
	if !ok || s.lit != nil {
		unsup("contract: %s is not a slice", name)
	}
	return s
}

// helps reports whether the contract of a helper can be used for a call.
func (x *X) helps(st *State, c *Contract, sc *scope) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, u := e.(unsupported); !u {
				panic(e)
			}
			ok = false
		}
	}()
	for _, m := range c.mem {
		switch m.kind {
		case "given":
			p, path := sc.fieldPath(m.a)
			v, ok1 := pathGet(sc.st.cells[p.id], path).(*VSlice)
			w, ok2 := sc.eval(m.e.e).(*VSlice)
			if !ok1 || !ok2 || v.ref != w.ref || v.off != w.off || v.len != w.len || v.lit != nil || w.lit != nil {
				return false
			}
		case "grow", "append":
			if s := sc.sliceField(m.a); isConstRef(s.ref) {
				return false
			}
		}
	}
	var gs []*Term
	for _, r := range c.req {
		gs = append(gs, sc.term(r.e))
	}
	if x.quiet > 0 {
		// what is inferred is checked with the real precondition
		for _, g := range gs {
			st.assume(g)
		}
		return true
	}
	for _, r := range x.quick(st, gs) {
		if !r {
			return false
		}
	}
	return true
}

// memResult is the result n of a call by contract.
func (x *X) memResult(st, pre *State, c *Contract, args []Val, n string, other func() Val) Val {
	for _, m := range c.mem {
		if m.b != n {
			continue
		}
		sc := x.S.bind(x, c, pre, pre, args, nil)
		switch m.kind {
		case "append":
			d := sc.sliceField(m.a)
			return x.grown(st, d, Cat(x.view(pre, d), sc.term(m.e.e)))
		case "grow":
			s0 := sc.sliceField(m.a)
			// what was there is overwritten
			w := Fresh("old.data", SSeq, nil, nil)
			st.assume(Eq(SLen(w), s0.cap))
			x.heapWrite(st, s0.ref, s0.off, s0.elem, nil, w, 0)
			v := Fresh("new.data", SSeq, nil, nil)
			st.assume(Le(SLen(v), IntB(maxLen)))
			s1 := x.grown(st, s0, v)
			x.S.bind(x, c, st, st, args, nil).setField(m.a, s1)
			return s1
		}
	}
	return other()
}

// grown is the array of d, or a new one, with the contents xs.
func (x *X) grown(st *State, d *VSlice, xs *Term) *VSlice {
	key, _, ok := heapKey(d.elem, nil)
	if !ok {
		unsup("array of %s", d.elem)
	}
	stays := Fresh("stays", SBool, nil, nil)
	fresh := x.allocRef(st)
	c := Fresh("cap", SInt, bi(0), maxLen)
	n := SLen(xs)
	r := &VSlice{ref: Ite(stays, d.ref, fresh), off: Ite(stays, d.off, Int(0)), len: n, cap: Ite(stays, d.cap, c), elem: d.elem}
	st.assume(Le(n, r.cap))
	st.heaps[key] = HWrite(x.heap(st, key), r.ref, r.off, xs)
	return r
}

// memObs are the obligations for what a function does to memory; it returns
// what it may write to.
func (x *X) memObs(st, pre *State, c *Contract, args, rs []Val, fn *ssa.Function) []*VSlice {
	var ws []*VSlice
	post := x.S.bind(x, c, st, pre, args, rs)
	old := x.S.bind(x, c, pre, pre, args, rs)
	ob := func(g *Term, what string) { x.record(st, "memory", fn.Pos(), g, what) }
	stay := func(d, q *VSlice) *Term { return And(Eq(q.ref, d.ref), Eq(q.off, d.off), Eq(q.cap, d.cap)) }
	same := func(d, q *VSlice, what string) {
		ob(Or(stay(d, q), And(Le(pre.alloc, q.ref), Lt(q.ref, st.alloc), Eq(q.off, Int(0)))), what+": the same array or a new one")
	}
	changed := map[int][][]int{}
	for _, m := range c.mem {
		switch m.kind {
		case "append":
			d, q := old.sliceField(m.a), post.sliceField(m.b)
			e := old.term(m.e.e)
			ob(Eq(x.view(st, q), Cat(x.view(pre, d), e)), m.b+" is "+m.a+" with "+m.e.src)
			ob(Eq(q.len, Add(d.len, SLen(e))), "length of "+m.b)
			same(d, q, m.b)
			ws = append(ws, &VSlice{ref: d.ref, off: Add(d.off, d.len), len: Ite(stay(d, q), SLen(e), Int(0)), elem: d.elem})
		case "grow":
			d, q := old.sliceField(m.a), post.sliceField(m.a)
			same(d, q, m.a)
			ws = append(ws, &VSlice{ref: d.ref, off: d.off, len: d.cap, elem: d.elem})
			p, path := old.fieldPath(m.a)
			changed[p.id] = append(changed[p.id], path)
			r := post.sliceField(m.b)
			ob(And(stay(q, r), Eq(q.len, r.len)), m.b+" is "+m.a)
		}
	}
	if c.helper {
		for id, v := range pre.cells {
			if !sameExcept(v, st.cells[id], changed[id]) {
				dbg("object %s became %s", showVal(v), showVal(st.cells[id]))
				ob(False, "objects stay as they were")
			}
		}
	}
	return ws
}

func sameExcept(a, b Val, paths [][]int) bool {
	if a == b {
		return true
	}
	for _, p := range paths {
		if len(p) == 0 {
			return true
		}
	}
	switch s := a.(type) {
	case *VSlice:
		t, ok := b.(*VSlice)
		return ok && s.lit == nil && t.lit == nil && s.ref == t.ref && s.off == t.off && s.len == t.len && s.cap == t.cap
	case *VIface:
		t, ok := b.(*VIface)
		return ok && s.dyn == nil && t.dyn == nil && s.id == t.id && s.sym == t.sym
	}
	s, ok1 := a.(*VStruct)
	t, ok2 := b.(*VStruct)
	if !ok1 || !ok2 {
		return false
	}
	for i := range s.f {
		var sub [][]int
		for _, p := range paths {
			if p[0] == i {
				sub = append(sub, p[1:])
			}
		}
		if !sameExcept(s.f[i], t.f[i], sub) {
			return false
		}
	}
	return true
}

// newResults are the results which must be new memory.
func (c *Contract) newResults(rs []Val) []Val {
	var out []Val
	for i, r := range rs {
		old := false
		for _, m := range c.mem {
			if i < len(c.results) && m.b == c.results[i] {
				old = true
			}
		}
		if !old {
			out = append(out, r)
		}
	}
	return out
}

// grows reports that a field grows according to the contract.
func (x *X) grows() bool {
	if x.con != nil {
		for _, m := range x.con.mem {
			if m.kind == "grow" {
				return true
			}
		}
	}
	return false
}

func showVal(v Val) string {
	switch v := v.(type) {
	case *VStruct:
		var o []string
		for _, f := range v.f {
			o = append(o, showVal(f))
		}
		return "{" + strings.Join(o, ", ") + "}"
	case *VSlice:
		return fmt.Sprintf("slice(%s %s %s %s)", v.ref, v.off, v.len, v.cap)
	}
	return fmt.Sprint(v)
}
