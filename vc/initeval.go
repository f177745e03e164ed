package main

// Concrete evaluation of package initialisation: the values which the
// package-level variables have once the package's init has run.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type CVal interface{}

type (
	CInt    struct{ n int64 }
	CBool   struct{ b bool }
	CStr    struct{ s string }
	CStruct struct{ slots []*slot }
	CArr    struct {
		slots []*slot
		elem  types.Type
		id    int // negative reference once used symbolically
		taint bool
		name  string
	}
	CSlice struct {
		arr           *CArr
		off, len, cap int
	}
	CMap struct {
		keys  []CVal
		vals  map[interface{}]CVal
		taint bool
		id    int
		name  string
		typ   *types.Map
	}
	CPtr   struct{ to *slot } // nil: nil pointer
	CIface struct {
		t types.Type // nil: nil interface
		v CVal
	}
	CFunc struct {
		fn    *ssa.Function
		binds []CVal
	}
	COpaque  struct{ name string } // a value with identity only, e.g. an error made by errors.New
	CUnknown struct{}
	CTuple   []CVal
)

type slot struct {
	v   CVal
	typ types.Type
	own interface{} // *CArr or *CStruct of which this is an element
}

type initEval struct {
	P       *Program
	globals map[*ssa.Global]*slot
	done    map[*ssa.Package]bool
	failed  map[*ssa.Package]string
	steps   int
}

func newInitEval(P *Program) *initEval {
	return &initEval{P: P, globals: map[*ssa.Global]*slot{}, done: map[*ssa.Package]bool{}, failed: map[*ssa.Package]string{}}
}

type cabort struct{ why string }

func (e *initEval) zero(t types.Type) CVal {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return CInt{0}
		case u.Info()&types.IsBoolean != 0:
			return CBool{}
		case u.Info()&types.IsString != 0:
			return CStr{}
		}
	case *types.Struct:
		s := &CStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.slots = append(s.slots, e.newSlot(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 1<<20 {
			return CUnknown{}
		}
		return e.newArr(u.Elem(), int(u.Len()))
	case *types.Slice:
		return CSlice{}
	case *types.Map:
		return (*CMap)(nil)
	case *types.Pointer:
		return CPtr{}
	case *types.Interface:
		return CIface{}
	case *types.Signature:
		return CFunc{}
	}
	return CUnknown{}
}

func (e *initEval) newSlot(t types.Type) *slot { return &slot{v: e.zero(t), typ: t} }
func (e *initEval) newArr(el types.Type, n int) *CArr {
	a := &CArr{elem: el}
	a.slots = make([]*slot, n)
	for i := range a.slots {
		a.slots[i] = e.newSlot(el)
		a.slots[i].own = a
	}
	return a
}

// copyVal copies struct and array values (value semantics).
func (e *initEval) copyVal(v CVal) CVal {
	switch v := v.(type) {
	case *CStruct:
		s := &CStruct{}
		for _, x := range v.slots {
			s.slots = append(s.slots, &slot{v: e.copyVal(x.v), typ: x.typ})
		}
		return s
	case *CArr:
		a := &CArr{elem: v.elem}
		for _, x := range v.slots {
			a.slots = append(a.slots, &slot{v: e.copyVal(x.v), typ: x.typ, own: a})
		}
		return a
	}
	return v
}

// global returns the storage of a global after initialisation of its package.
func (e *initEval) global(g *ssa.Global) *slot {
	e.initPkg(g.Pkg)
	if e.failed[g.Pkg] != "" {
		return &slot{v: CUnknown{}, typ: g.Type().(*types.Pointer).Elem()}
	}
	return e.slotOf(g)
}

func (e *initEval) slotOf(g *ssa.Global) *slot {
	s := e.globals[g]
	if s == nil {
		s = e.newSlot(g.Type().(*types.Pointer).Elem())
		e.globals[g] = s
	}
	return s
}

func (e *initEval) initPkg(p *ssa.Package) {
	if e.done[p] {
		return
	}
	e.done[p] = true
	e.P.ensureBuilt(p)
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	e.steps = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(cabort); ok {
					e.failed[p] = a.why
					return
				}
				e.failed[p] = fmt.Sprint(r)
			}
		}()
		e.call(f, nil, nil)
	}()
}

func (e *initEval) call(f *ssa.Function, args, binds []CVal) CVal {
	if len(f.Blocks) == 0 {
		return CUnknown{}
	}
	regs := map[ssa.Value]CVal{}
	for i, p := range f.Params {
		regs[p] = args[i]
	}
	for i, p := range f.FreeVars {
		regs[p] = binds[i]
	}
	get := func(v ssa.Value) CVal {
		switch v := v.(type) {
		case *ssa.Const:
			return e.constant(v)
		case *ssa.Global:
			if v.Pkg != f.Pkg && !e.done[v.Pkg] {
				e.initPkg(v.Pkg)
			}
			if e.failed[v.Pkg] != "" {
				return CUnknown{}
			}
			return CPtr{e.slotOf(v)}
		case *ssa.Function:
			return CFunc{fn: v}
		case *ssa.Builtin:
			return CUnknown{}
		}
		return regs[v]
	}
	var pred *ssa.BasicBlock
	b := f.Blocks[0]
	for {
		e.steps++
		var phis []CVal
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, pb := range b.Preds {
					if pb == pred {
						phis = append(phis, get(ph.Edges[i]))
						break
					}
				}
			}
		}
		for i, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				regs[ph] = phis[i]
			}
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			e.steps++
			if e.steps > 20000000 {
				panic(cabort{"initialisation too long"})
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c, ok := get(in.Cond).(CBool)
				if !ok {
					panic(cabort{"branch on an unknown value in " + f.String()})
				}
				next = b.Succs[1]
				if c.b {
					next = b.Succs[0]
				}
			case *ssa.Return:
				if len(in.Results) == 1 {
					return get(in.Results[0])
				}
				var t CTuple
				for _, r := range in.Results {
					t = append(t, get(r))
				}
				return t
			case *ssa.Panic:
				panic(cabort{"panic in init"})
			case *ssa.Store:
				p, ok := get(in.Addr).(CPtr)
				if !ok || p.to == nil {
					panic(cabort{"store through unknown pointer"})
				}
				e.store(p.to, get(in.Val))
			case *ssa.MapUpdate:
				m, ok := get(in.Map).(*CMap)
				if !ok || m == nil {
					panic(cabort{"unknown map"})
				}
				k, kok := ckey(get(in.Key))
				if !kok {
					m.taint = true
					break
				}
				if _, dup := m.vals[k]; !dup {
					m.keys = append(m.keys, get(in.Key))
				}
				m.vals[k] = e.copyVal(get(in.Value))
			case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.RunDefers:
				panic(cabort{"unsupported statement in init"})
			case ssa.Value:
				regs[in] = e.value(f, in, get)
			default:
				panic(cabort{fmt.Sprintf("unsupported %T", in)})
			}
		}
		if next == nil {
			panic(cabort{"no successor"})
		}
		pred, b = b, next
	}
}

func (e *initEval) store(s *slot, v CVal) {
	// struct and array storage keeps its identity
	switch v := v.(type) {
	case *CStruct:
		if d, ok := s.v.(*CStruct); ok && len(d.slots) == len(v.slots) {
			for i := range d.slots {
				e.store(d.slots[i], v.slots[i].v)
			}
			return
		}
	case *CArr:
		if d, ok := s.v.(*CArr); ok && len(d.slots) == len(v.slots) {
			for i := range d.slots {
				e.store(d.slots[i], v.slots[i].v)
			}
			return
		}
	}
	s.v = v
}

func ckey(v CVal) (interface{}, bool) {
	switch v := v.(type) {
	case CInt:
		return v.n, true
	case CStr:
		return v.s, true
	case CBool:
		return v.b, true
	}
	return nil, false
}

func (e *initEval) constant(c *ssa.Const) CVal {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return CBool{constant.BoolVal(c.Value)}
	case constant.String:
		return CStr{constant.StringVal(c.Value)}
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return CInt{n}
		}
		if n, ok := constant.Uint64Val(c.Value); ok {
			return CInt{int64(n)}
		}
	}
	return CUnknown{}
}

func typeBits(t types.Type) (intType, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return intType{}, false
	}
	switch b.Kind() {
	case types.Int8:
		return intType{8, true}, true
	case types.Int16:
		return intType{16, true}, true
	case types.Int32, types.UntypedRune:
		return intType{32, true}, true
	case types.Int64, types.Int, types.UntypedInt:
		return intType{64, true}, true
	case types.Uint8:
		return intType{8, false}, true
	case types.Uint16:
		return intType{16, false}, true
	case types.Uint32:
		return intType{32, false}, true
	case types.Uint64, types.Uint, types.Uintptr:
		return intType{64, false}, true
	}
	return intType{}, false
}

func cwrap(n int64, t types.Type) CVal {
	it, ok := typeBits(t)
	if !ok {
		return CUnknown{}
	}
	if it.bits == 64 {
		return CInt{n}
	}
	sh := 64 - it.bits
	if it.signed {
		return CInt{n << sh >> sh}
	}
	return CInt{int64(uint64(n) << sh >> sh)}
}

func (e *initEval) value(f *ssa.Function, in ssa.Value, get func(ssa.Value) CVal) CVal {
	switch in := in.(type) {
	case *ssa.Alloc:
		return CPtr{e.newSlot(in.Type().(*types.Pointer).Elem())}
	case *ssa.MakeMap:
		return &CMap{vals: map[interface{}]CVal{}, typ: in.Type().Underlying().(*types.Map)}
	case *ssa.MakeSlice:
		n, ok1 := get(in.Len).(CInt)
		c, ok2 := get(in.Cap).(CInt)
		if !ok1 || !ok2 || c.n > 1<<20 {
			return CUnknown{}
		}
		return CSlice{arr: e.newArr(in.Type().Underlying().(*types.Slice).Elem(), int(c.n)), len: int(n.n), cap: int(c.n)}
	case *ssa.FieldAddr:
		p, ok := get(in.X).(CPtr)
		if !ok || p.to == nil {
			return CUnknown{}
		}
		s, ok := p.to.v.(*CStruct)
		if !ok {
			return CUnknown{}
		}
		return CPtr{s.slots[in.Field]}
	case *ssa.Field:
		s, ok := get(in.X).(*CStruct)
		if !ok {
			return CUnknown{}
		}
		return e.copyVal(s.slots[in.Field].v)
	case *ssa.IndexAddr:
		i, ok := get(in.Index).(CInt)
		if !ok {
			return CUnknown{}
		}
		switch x := get(in.X).(type) {
		case CPtr:
			a, ok := x.to.v.(*CArr)
			if !ok || i.n < 0 || int(i.n) >= len(a.slots) {
				return CUnknown{}
			}
			return CPtr{a.slots[i.n]}
		case CSlice:
			if i.n < 0 || int(i.n) >= x.len {
				panic(cabort{"index out of range in init"})
			}
			return CPtr{x.arr.slots[x.off+int(i.n)]}
		}
		return CUnknown{}
	case *ssa.Index:
		i, ok := get(in.Index).(CInt)
		if !ok {
			return CUnknown{}
		}
		switch x := get(in.X).(type) {
		case *CArr:
			if i.n >= 0 && int(i.n) < len(x.slots) {
				return e.copyVal(x.slots[i.n].v)
			}
		case CStr:
			if i.n >= 0 && int(i.n) < len(x.s) {
				return CInt{int64(x.s[i.n])}
			}
		}
		return CUnknown{}
	case *ssa.Slice:
		lim := func(v ssa.Value, d int) (int, bool) {
			if v == nil {
				return d, true
			}
			c, ok := get(v).(CInt)
			return int(c.n), ok
		}
		lo, ok := lim(in.Low, 0)
		if !ok {
			return CUnknown{}
		}
		switch x := get(in.X).(type) {
		case CPtr:
			if x.to == nil {
				return CUnknown{}
			}
			a, ok := x.to.v.(*CArr)
			if !ok {
				return CUnknown{}
			}
			hi, ok := lim(in.High, len(a.slots))
			mx, ok2 := lim(in.Max, len(a.slots))
			if !ok || !ok2 {
				return CUnknown{}
			}
			return CSlice{arr: a, off: lo, len: hi - lo, cap: mx - lo}
		case CSlice:
			hi, ok := lim(in.High, x.len)
			mx, ok2 := lim(in.Max, x.cap)
			if !ok || !ok2 || lo > hi || hi > mx || mx > x.cap {
				return CUnknown{}
			}
			return CSlice{arr: x.arr, off: x.off + lo, len: hi - lo, cap: mx - lo}
		case CStr:
			hi, ok := lim(in.High, len(x.s))
			if !ok || lo > hi || hi > len(x.s) {
				return CUnknown{}
			}
			return CStr{x.s[lo:hi]}
		}
		return CUnknown{}
	case *ssa.UnOp:
		x := get(in.X)
		switch in.Op {
		case token.MUL:
			p, ok := x.(CPtr)
			if !ok || p.to == nil {
				return CUnknown{}
			}
			return e.copyVal(p.to.v)
		case token.NOT:
			if b, ok := x.(CBool); ok {
				return CBool{!b.b}
			}
		case token.SUB:
			if n, ok := x.(CInt); ok {
				return cwrap(-n.n, in.Type())
			}
		case token.XOR:
			if n, ok := x.(CInt); ok {
				return cwrap(^n.n, in.Type())
			}
		}
		return CUnknown{}
	case *ssa.BinOp:
		return cbinop(in, get(in.X), get(in.Y))
	case *ssa.ChangeType:
		return get(in.X)
	case *ssa.Convert:
		return e.convert(in, get(in.X))
	case *ssa.MakeInterface:
		return CIface{t: in.X.Type(), v: get(in.X)}
	case *ssa.ChangeInterface:
		return get(in.X)
	case *ssa.MakeClosure:
		var bs []CVal
		for _, b := range in.Bindings {
			bs = append(bs, get(b))
		}
		return CFunc{fn: in.Fn.(*ssa.Function), binds: bs}
	case *ssa.Extract:
		if t, ok := get(in.Tuple).(CTuple); ok {
			return t[in.Index]
		}
		return CUnknown{}
	case *ssa.Lookup:
		k, ok := ckey(get(in.Index))
		switch x := get(in.X).(type) {
		case *CMap:
			if !ok || (x != nil && x.taint) {
				return CUnknown{}
			}
			var v CVal
			has := false
			if x != nil {
				v, has = x.vals[k]
			}
			if !has {
				v = e.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				return CTuple{v, CBool{has}}
			}
			return v
		case CStr:
			if i, ok := get(in.Index).(CInt); ok && i.n >= 0 && int(i.n) < len(x.s) {
				return CInt{int64(x.s[i.n])}
			}
		}
		return CUnknown{}
	case *ssa.Range:
		switch x := get(in.X).(type) {
		case *CMap:
			if x == nil || x.taint {
				return &citer{}
			}
			// map order is unspecified: an initialiser whose result depends
			// on it is not covered; insertion order is used
			return &citer{m: x}
		case CStr:
			return &citer{s: x.s, isStr: true}
		}
		return CUnknown{}
	case *ssa.Next:
		it, ok := get(in.Iter).(*citer)
		if !ok {
			return CUnknown{}
		}
		if it.isStr {
			if it.i >= len(it.s) {
				return CTuple{CBool{false}, CInt{0}, CInt{0}}
			}
			r, n := utf8.DecodeRuneInString(it.s[it.i:])
			t := CTuple{CBool{true}, CInt{int64(it.i)}, CInt{int64(r)}}
			it.i += n
			return t
		}
		if it.m == nil || it.i >= len(it.m.keys) {
			return CTuple{CBool{false}, CUnknown{}, CUnknown{}}
		}
		k := it.m.keys[it.i]
		it.i++
		kk, _ := ckey(k)
		return CTuple{CBool{true}, k, it.m.vals[kk]}
	case *ssa.Call:
		return e.callInstr(f, in, get)
	}
	return CUnknown{}
}

type citer struct {
	m     *CMap
	s     string
	isStr bool
	i     int
}

func (e *initEval) convert(in *ssa.Convert, x CVal) CVal {
	if n, ok := x.(CInt); ok {
		if _, ok := typeBits(in.Type()); ok {
			return cwrap(n.n, in.Type())
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return CStr{string(rune(n.n))}
		}
	}
	if s, ok := x.(CStr); ok {
		if sl, ok := in.Type().Underlying().(*types.Slice); ok {
			it, _ := typeBits(sl.Elem())
			var ns []int64
			if it.bits == 8 {
				for _, c := range []byte(s.s) {
					ns = append(ns, int64(c))
				}
			} else {
				for _, c := range s.s {
					ns = append(ns, int64(c))
				}
			}
			a := e.newArr(sl.Elem(), len(ns))
			for i, n := range ns {
				a.slots[i].v = CInt{n}
			}
			return CSlice{arr: a, len: len(ns), cap: len(ns)}
		}
		return x
	}
	return CUnknown{}
}

func cbinop(in *ssa.BinOp, x, y CVal) CVal {
	if a, ok := x.(CInt); ok {
		b, ok := y.(CInt)
		if !ok {
			return CUnknown{}
		}
		it, _ := typeBits(in.X.Type())
		lt := a.n < b.n
		if !it.signed {
			lt = uint64(a.n) < uint64(b.n)
		}
		switch in.Op {
		case token.ADD:
			return cwrap(a.n+b.n, in.Type())
		case token.SUB:
			return cwrap(a.n-b.n, in.Type())
		case token.MUL:
			return cwrap(a.n*b.n, in.Type())
		case token.QUO, token.REM:
			if b.n == 0 || !it.signed && (a.n < 0 || b.n < 0) {
				return CUnknown{}
			}
			if in.Op == token.QUO {
				return cwrap(a.n/b.n, in.Type())
			}
			return cwrap(a.n%b.n, in.Type())
		case token.AND:
			return cwrap(a.n&b.n, in.Type())
		case token.OR:
			return cwrap(a.n|b.n, in.Type())
		case token.XOR:
			return cwrap(a.n^b.n, in.Type())
		case token.AND_NOT:
			return cwrap(a.n&^b.n, in.Type())
		case token.SHL:
			if b.n < 0 || b.n > 63 {
				return cwrap(0, in.Type())
			}
			return cwrap(a.n<<uint(b.n), in.Type())
		case token.SHR:
			if b.n < 0 || b.n > 63 {
				return CUnknown{}
			}
			if it.signed {
				return cwrap(a.n>>uint(b.n), in.Type())
			}
			return cwrap(int64(uint64(a.n)>>uint(b.n)), in.Type())
		case token.EQL:
			return CBool{a.n == b.n}
		case token.NEQ:
			return CBool{a.n != b.n}
		case token.LSS:
			return CBool{lt}
		case token.LEQ:
			return CBool{lt || a.n == b.n}
		case token.GTR:
			return CBool{!lt && a.n != b.n}
		case token.GEQ:
			return CBool{!lt}
		}
	}
	if a, ok := x.(CStr); ok {
		if b, ok := y.(CStr); ok {
			switch in.Op {
			case token.ADD:
				return CStr{a.s + b.s}
			case token.EQL:
				return CBool{a.s == b.s}
			case token.NEQ:
				return CBool{a.s != b.s}
			}
		}
	}
	if a, ok := x.(CBool); ok {
		if b, ok := y.(CBool); ok {
			switch in.Op {
			case token.EQL:
				return CBool{a.b == b.b}
			case token.NEQ:
				return CBool{a.b != b.b}
			}
		}
	}
	return CUnknown{}
}

func (e *initEval) taint(v CVal, seen map[interface{}]bool) {
	switch v := v.(type) {
	case CPtr:
		if v.to != nil && !seen[v.to] {
			seen[v.to] = true
			e.taint(v.to.v, seen)
			v.to.v = CUnknown{}
		}
	case CSlice:
		if v.arr != nil && !seen[v.arr] {
			seen[v.arr] = true
			v.arr.taint = true
		}
	case *CMap:
		if v != nil {
			v.taint = true
		}
	case CIface:
		e.taint(v.v, seen)
	case *CStruct:
		for _, s := range v.slots {
			e.taint(s.v, seen)
		}
	case CFunc:
		for _, b := range v.binds {
			e.taint(b, seen)
		}
	}
}

var opaqueN int

func (e *initEval) callInstr(f *ssa.Function, in *ssa.Call, get func(ssa.Value) CVal) CVal {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []CVal
		for _, a := range c.Args {
			args = append(args, get(a))
		}
		switch b.Name() {
		case "len", "cap":
			switch x := args[0].(type) {
			case CSlice:
				if b.Name() == "cap" {
					return CInt{int64(x.cap)}
				}
				return CInt{int64(x.len)}
			case CStr:
				return CInt{int64(len(x.s))}
			case *CMap:
				if x == nil {
					return CInt{0}
				}
				return CInt{int64(len(x.keys))}
			case *CArr:
				return CInt{int64(len(x.slots))}
			}
		case "append":
			x, ok1 := args[0].(CSlice)
			y, ok2 := args[1].(CSlice)
			if !ok1 || !ok2 {
				return CUnknown{}
			}
			n := x.len + y.len
			if n > x.cap {
				a := e.newArr(in.Type().Underlying().(*types.Slice).Elem(), 2*n+8)
				for i := 0; i < x.len; i++ {
					e.store(a.slots[i], e.copyVal(x.arr.slots[x.off+i].v))
				}
				x = CSlice{arr: a, len: x.len, cap: 2*n + 8}
			}
			for i := 0; i < y.len; i++ {
				e.store(x.arr.slots[x.off+x.len+i], e.copyVal(y.arr.slots[y.off+i].v))
			}
			x.len = n
			return x
		case "copy":
			x, ok1 := args[0].(CSlice)
			y, ok2 := args[1].(CSlice)
			if !ok1 || !ok2 {
				return CUnknown{}
			}
			n := x.len
			if y.len < n {
				n = y.len
			}
			tmp := make([]CVal, n)
			for i := range tmp {
				tmp[i] = e.copyVal(y.arr.slots[y.off+i].v)
			}
			for i := range tmp {
				e.store(x.arr.slots[x.off+i], tmp[i])
			}
			return CInt{int64(n)}
		}
		for _, a := range args {
			e.taint(a, map[interface{}]bool{})
		}
		return CUnknown{}
	}
	var args []CVal
	for _, a := range c.Args {
		args = append(args, get(a))
	}
	var fn *ssa.Function
	var binds []CVal
	if sc := c.StaticCallee(); sc != nil {
		fn = sc
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if cf, ok := get(mc).(CFunc); ok {
				binds = cf.binds
			}
		}
	} else if !c.IsInvoke() {
		if cf, ok := get(c.Value).(CFunc); ok && cf.fn != nil {
			fn, binds = cf.fn, cf.binds
		}
	}
	if fn != nil {
		// initialisers of imported packages are evaluated on demand
		if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Pkg != f.Pkg {
			return CTuple{}
		}
		if fn.String() == "errors.New" {
			opaqueN++
			return CIface{t: in.Type(), v: &COpaque{fmt.Sprintf("error%d(%s)", opaqueN, e.P.pos(in.Pos()))}}
		}
		if e.P.inModule(fn.Pkg) || (fn.Pkg != nil && len(fn.Blocks) > 0 && (fn.Pkg.Pkg.Path() == "sort" || fn.Pkg.Pkg.Path() == "slices" || fn.Pkg.Pkg.Path() == "unicode/utf8")) {
			return e.call(fn, args, binds)
		}
	}
	for _, a := range args {
		e.taint(a, map[interface{}]bool{})
	}
	// an unknown call yields an opaque value of its own (identity only)
	if _, ok := in.Type().Underlying().(*types.Interface); ok {
		opaqueN++
		return CIface{t: in.Type(), v: &COpaque{fmt.Sprintf("value%d(%s)", opaqueN, e.P.pos(in.Pos()))}}
	}
	return CUnknown{}
}
