package main

// Functions of the standard library which are given by a contract here
// rather than by their body.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *X) intrinsic(st *State, fn *ssa.Function, args []Val, in *ssa.Call, k func(*State, []Val)) bool {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	switch name {
	case "sort.Search":
		if x.noCon[fn] {
			return false
		}
		x.used["sort.Search"] = true
		if c := x.S.byName["sort.Search"]; c != nil {
			x.ensureContract(c, fn)
		} else {
			x.assumed["sort.Search finds the first index, by its documentation"] = true
		}
		x.ob(st, "requires", in.Pos(), Le(x.term(args[0]), IntB(maxLen)), "sort.Search: the range is no longer than a slice")
		x.search(st, args, in, k)
		return true
	case "errors.New", "fmt.Errorf":
		id := Fresh("err.id", SInt, bi(1<<20), nil)
		k(st, []Val{&VIface{id: id}})
		return true
	}
	if strings.HasPrefix(name, "(*strings.Builder).") {
		return x.builder(st, fn, strings.TrimPrefix(name, "(*strings.Builder)."), args, in, k)
	}
	return false
}

// search applies the contract of sort.Search (contracts/0sort.spec): for every function f,
// (r == 0 or not f(r-1)) and (r == n or f(r)), 0 <= r <= n.
func (x *X) search(st *State, args []Val, in *ssa.Call, k func(*State, []Val)) {
	n := x.term(args[0])
	f, ok := args[1].(*VFunc)
	if !ok {
		unsup("sort.Search with %T", args[1])
	}
	pos := in.Pos()
	nn := Ite(Lt(n, Int(0)), Int(0), n)
	r := Fresh("search", SInt, bi(0), maxLen)
	st.assume(Le(r, nn))
	at := func(i *Term, cond *Term, obs bool) *Term {
		s := st.clone()
		s.assume(cond)
		if s.dead {
			return nil
		}
		if !obs {
			x.quiet++
			defer func() { x.quiet-- }()
		}
		var res *Term
		cnt := 0
		run := func(s2 *State, rs []Val) {
			cnt++
			if !x.sameStore(s, s2) {
				unsup("sort.Search with a function which has effects")
			}
			res = x.term(rs[0])
			// facts found on the way
			for _, p := range s2.pc[len(s.pc):] {
				st.assume(Imp(cond, p.t))
			}
		}
		if f.pred != "" {
			return App(f.pred, SBool, i)
		}
		c := s.clone()
		x.inlineCall(c, f.fn, []Val{i}, f.binds, run)
		if cnt != 1 {
			unsup("sort.Search with a function which does not return one value")
		}
		return res
	}
	// the function is safe wherever it may be called
	gi := Fresh("search.i", SInt, bi(0), maxLen)
	at(gi, Lt(gi, n), true)
	if b := at(Sub(r, Int(1)), Lt(Int(0), r), false); b != nil {
		st.assume(Imp(Lt(Int(0), r), Not(b)))
	}
	if b := at(r, Lt(r, nn), false); b != nil {
		st.assume(Imp(Lt(r, nn), b))
	}
	_ = pos
	k(st, []Val{r})
}

// builder gives the methods of strings.Builder by their documented effect
// on the bytes accumulated so far.
func (x *X) builder(st *State, fn *ssa.Function, m string, args []Val, in *ssa.Call, k func(*State, []Val)) bool {
	p, ok := args[0].(*PCell)
	if !ok {
		return false
	}
	sv, ok := pathGet(st.cells[p.id], p.path).(*VStruct)
	if !ok {
		return false
	}
	x.assumed["strings.Builder behaves as documented"] = true
	bt := sv.typ.Underlying().(*types.Struct)
	bi := -1
	for i := 0; i < bt.NumFields(); i++ {
		if bt.Field(i).Name() == "buf" {
			bi = i
		}
	}
	buf, ok := sv.f[bi].(*VSlice)
	if !ok {
		return false
	}
	set := func(v Val) {
		n := &VStruct{typ: sv.typ, f: append([]Val{}, sv.f...)}
		n.f[bi] = v
		st.cells[p.id] = pathSet(st.cells[p.id], p.path, n)
	}
	nilErr := &VIface{id: Int(0)}
	switch m {
	case "Len":
		k(st, []Val{buf.len})
	case "Cap":
		k(st, []Val{buf.cap})
	case "Grow":
		g := x.term(args[1])
		x.ob(st, "requires", in.Pos(), Le(Int(0), g), "strings.Builder.Grow: not negative")
		k(st, nil)
	case "Reset":
		set(x.zeroVal(st, bt.Field(bi).Type()))
		k(st, nil)
	case "String":
		w := x.view(st, buf)
		k(st, []Val{w})
	case "WriteByte":
		set(x.doAppend(st, buf, Unit(x.term(args[1])), Int(1), in.Pos()))
		k(st, []Val{nilErr})
	case "WriteRune":
		e := x.u8enc(st, x.term(args[1]))
		n := SLen(e)
		set(x.doAppend(st, buf, e, n, in.Pos()))
		k(st, []Val{n, nilErr})
	case "WriteString":
		w := x.term(args[1])
		n := SLen(w)
		set(x.doAppend(st, buf, w, n, in.Pos()))
		k(st, []Val{n, nilErr})
	case "Write":
		s, ok := args[1].(*VSlice)
		if !ok {
			return false
		}
		w := x.view(st, s)
		set(x.doAppend(st, buf, w, s.len, in.Pos()))
		k(st, []Val{s.len, nilErr})
	default:
		return false
	}
	return true
}

func (x *X) u8enc(st *State, r *Term) *Term {
	e := App("u8enc", SSeq, r)
	st.assume(Le(Int(1), SLen(e)))
	st.assume(Le(SLen(e), Int(4)))
	return e
}
