package main

// Object units: a value made by the package and an arbitrary sequence of calls
// of its methods, which is treated as a loop; what holds between the calls is
// inferred like the invariant of a loop.  Between the calls the caller may do
// anything to the arrays which it has access to.

import (
	"fmt"
	"go/types"
	"strings"
)

func (R *Run) runObject(x *X, c *Contract, st *State) {
	x.own = true
	x.heap(st, byteKey)
	vars := map[string]Val{}
	for i, p := range c.params {
		vars[p] = x.unitArg(st, p, c.ptypes[i], c)
	}
	x.vacuity(st)
	pre := st.clone()
	n := 0
	R.runStmts(x, c.body, st, pre, vars, func(st *State, vars map[string]Val) {
		n++
		for _, v := range vars {
			if s, ok := v.(*VSlice); ok && x.quiet == 0 {
				o := x.record(st, "fresh", 0, Or(Eq(s.cap, Int(0)), Not(x.ownT(s.ref))), "no memory is shared with the caller")
				o.Props = []string{"X02"}
			}
		}
		j := &loopJob{x: x, key: x.unit + "/object", st0: st, memory: true, object: true}
		j.run = func(st *State, _ []Val, cut bool, back func(*State, []Val)) {
			for _, m := range c.methods {
				R.runMethod(x, c, m, st.clone(), vars, back)
			}
		}
		j.infer()
	})
	if n == 0 {
		x.record(st, "returns", 0, False, "the object can be made")
	}
}

const byteKey = "Hu8"

// unitArg is an arbitrary argument of a unit.
func (x *X) unitArg(st *State, name, typ string, c *Contract) Val {
	switch typ {
	case "source", "sink":
		id := Fresh(name+".id", SInt, bi(1<<30), nil)
		st.ghost[name+".err"] = Int(0)
		st.ghost[name+".idle"] = False
		st.ghost[name+".data"] = Empty
		return &VIface{id: id, sym: typ + ":" + name}
	}
	t := paramType(typ)
	if t == nil {
		return Fresh(name, parseSort(&parser{file: c.pos}, typ), nil, nil)
	}
	v := x.symVal(st, name, t)
	if s, ok := v.(*VSlice); ok && x.own {
		st.assume(Not(x.ownT(s.ref)))
	}
	return v
}

func (R *Run) runMethod(x *X, c *Contract, m *Method, st *State, vars map[string]Val, back func(*State, []Val)) {
	// the caller does something
	for _, k := range sortedKeys(st.heaps) {
		h0 := st.heaps[k]
		h1 := Fresh(k, SHeap, nil, nil)
		r, lo, hi, i := BVar("r", SInt), BVar("lo", SInt), BVar("hi", SInt), BVar("i", SInt)
		v1, g1 := HSub(h1, r, lo, hi), HGet(h1, r, i)
		st.assume(Forall([]*Term{r, lo, hi}, Imp(x.ownT(r), Eq(v1, HSub(h0, r, lo, hi))), []*Term{v1}))
		st.assume(Forall([]*Term{r, i}, Imp(x.ownT(r), Eq(g1, HGet(h0, r, i))), []*Term{g1}))
		st.heaps[k] = h1
	}
	a0 := st.alloc
	st.alloc = Fresh("alloc", SInt, bi(1), nil)
	st.assume(Le(a0, st.alloc))
	n := map[string]Val{}
	for k, v := range vars {
		n[k] = v
	}
	for i, p := range m.params {
		n[p] = x.unitArg(st, p, m.ptypes[i], c)
	}
	for k := range st.ghost {
		if strings.HasSuffix(k, ".idle") {
			st.ghost[k] = False
		}
	}
	pre := st.clone()
	old := x.allocE
	x.allocE = st.alloc
	cnt := 0
	R.runStmts(x, m.body, st, pre, n, func(st *State, vs map[string]Val) {
		cnt++
		if x.quiet == 0 {
			var ws []*VSlice
			for _, w := range m.writes {
				ws = append(ws, n[w].(*VSlice))
			}
			x.frameObs(st, pre, ws, nil, nil, m.name)
		}
		back(st, nil)
	})
	x.allocE = old
	if cnt == 0 && x.quiet == 0 {
		x.record(st, "returns", 0, Bool(st.dead), m.name+" can return")
	}
}

// ownT says that the array ref belongs to the package alone.
func (x *X) ownT(ref *Term) *Term { return App("own", SBool, ref) }

// foreign is a call of a method of a value which the caller supplied: it does
// what the documentation of its interface promises, and no more.
func (x *X) foreign(st *State, sym, method string, args []Val, in interface{ Name() string }, k func(*State, []Val)) {
	i := strings.IndexByte(sym, ':')
	kind, name := sym[:i], sym[i+1:]
	p, ok := (*VSlice)(nil), false
	if len(args) == 1 {
		p, ok = args[0].(*VSlice)
	}
	if !ok {
		unsup("call of %s of %s", method, name)
	}
	n := Fresh(name+".n", SInt, bi(0), maxLen)
	st.assume(Le(n, p.len))
	err := Fresh(name+".error", SInt, bi(0), nil)
	isnil := Eq(err, Int(0))
	switch kind + "." + method {
	case "source.Read":
		x.assumed["an io.Reader given by the caller keeps the contract of io.Reader and does not refer to memory of the package after Read"] = true
		w, rest := Fresh(name+".chunk", SSeq, nil, nil), Fresh(name+".rest", SSeq, nil, nil)
		st.assume(Eq(SLen(w), n))
		st.assume(Eq(SLen(rest), Sub(p.len, n)))
		x.heapWrite(st, p.ref, p.off, p.elem, nil, w, 0)
		x.heapWrite(st, p.ref, Add(p.off, n), p.elem, nil, rest, 0)
		st.ghost[name+".data"] = Cat(st.ghost[name+".data"], w)
		st.ghost[name+".err"] = Ite(isnil, st.ghost[name+".err"], err)
		st.ghost[name+".idle"] = Or(st.ghost[name+".idle"], And(isnil, Eq(n, Int(0))))
	case "sink.Write":
		x.assumed["an io.Writer given by the caller keeps the contract of io.Writer"] = true
		st.assume(Imp(isnil, Eq(n, p.len)))
		w := x.view(st, p)
		s := st.clone()
		// one continuation for each outcome: an error ends most things
		st.assume(isnil)
		st.ghost[name+".data"] = Cat(st.ghost[name+".data"], w)
		k(st, []Val{n, &VIface{id: Int(0)}})
		s.assume(Not(isnil))
		s.ghost[name+".err"] = err
		k(s, []Val{n, &VIface{id: err}})
		return
	default:
		unsup("call of %s of %s", method, name)
	}
	k(st, []Val{n, &VIface{id: err}})
}

// tries instantiates the schemas of invariants of the contract.
func (x *X) tries(j *loopJob, h *lhead, accs, rests []part, errs []termAtom) []cand {
	var out []cand
	dedupParts := func(ps []part) []part {
		seen := map[*Term]bool{}
		var out []part
		for _, p := range append(ps, part{name: "empty", t: Empty, kind: "bytes", n: Int(0)}) {
			if p.kind == "bytes" && !seen[p.tried()] {
				seen[p.tried()] = true
				out = append(out, p)
			}
		}
		return out
	}
	accs, rests = dedupParts(accs), dedupParts(rests)
	for _, t := range x.con.tries {
		var rec func(i int, vars map[string]Val, name string)
		rec = func(i int, vars map[string]Val, name string) {
			if i == len(t.params) {
				sc := &scope{S: x.S, x: x, st: h.st, old: h.st, vars: vars}
				f := sc.term(t.e)
				lens := map[*Term]*Term{}
				for _, ps := range [][]part{accs, rests} {
					for _, p := range ps {
						if l := SLen(p.tried()); p.n != nil && l.k == KApp {
							lens[l] = p.n
						}
					}
				}
				out = append(out, cand{name: t.src + name, t: subst(f, lens)})
				return
			}
			with := func(v Val, n string) {
				m := map[string]Val{}
				for k, w := range vars {
					m[k] = w
				}
				m[t.params[i]] = v
				rec(i+1, m, name+", "+t.params[i]+" = "+n)
			}
			switch t.ptypes[i] {
			case "rest":
				for _, p := range rests {
					with(p.tried(), p.name)
				}
			case "done":
				for _, p := range accs {
					with(p.tried(), p.name)
				}
			case "error":
				for _, e := range errs {
					with(&VIface{id: e.h}, e.name)
				}
			default:
				fatal("try: unknown kind %s", t.ptypes[i])
			}
		}
		rec(0, map[string]Val{}, "")
	}
	return out
}

var _ = fmt.Sprint
var _ types.Type
