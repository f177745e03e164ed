package main

// Terms of the verification conditions: hash-consed, lightly simplified.
// Integers are mathematical; machine arithmetic is modelled by explicit
// wrap-around (see wrapTo).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort int

const (
	SInt Sort = iota
	SBool
	SSeq  // finite sequence of integers (bytes or runes)
	SHeap // contents of all arrays of one element type
)

func (s Sort) String() string {
	return [...]string{"Int", "Bool", "SeqI", "HeapI"}[s]
}

type Kind int

const (
	KInt Kind = iota
	KBool
	KVar  // free constant
	KBVar // bound variable
	KApp  // function application
	KLin  // linear combination: n + sum coeffs[i]*args[i]
	KMul  // nonlinear product
	KDiv  // floor division by a positive constant n
	KMod  // remainder of floor division by a positive constant n
	KIte
	KEq
	KLe // args[0] <= args[1]
	KAnd
	KOr
	KNot
	KForall // vars, args[0] body, pats
)

type Term struct {
	k      Kind
	sort   Sort
	name   string
	args   []*Term
	coeffs []*big.Int
	n      *big.Int
	b      bool
	vars   []*Term
	pats   [][]*Term
	id     int
	lo, hi *big.Int // nil: unbounded
	hasBV  bool
}

var (
	termTab = map[string]*Term{}
	nextID  int
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	nextID++
	t.id = nextID
	for _, a := range t.args {
		if a.hasBV {
			t.hasBV = true
		}
	}
	if t.k == KBVar || t.k == KForall {
		t.hasBV = true // never lift quantified formulas out of their context
	}
	termTab[key] = t
	return t
}

func ids(ts []*Term) string {
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, " %d", t.id)
	}
	return sb.String()
}

func IntB(n *big.Int) *Term {
	return intern("i"+n.String(), func() *Term {
		return &Term{k: KInt, sort: SInt, n: n, lo: n, hi: n}
	})
}
func Int(n int64) *Term { return IntB(bi(n)) }

var True = intern("T", func() *Term { return &Term{k: KBool, sort: SBool, b: true} })
var False = intern("F", func() *Term { return &Term{k: KBool, sort: SBool, b: false} })

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Var(name string, s Sort) *Term {
	return intern("v"+name, func() *Term { return &Term{k: KVar, sort: s, name: name} })
}

var freshN = map[string]int{}

// Fresh makes a new constant; lo and hi are static bounds (typing facts).
func Fresh(name string, s Sort, lo, hi *big.Int) *Term {
	freshN[name]++
	nm := fmt.Sprintf("%s!%d", name, freshN[name])
	t := Var(nm, s)
	t.lo, t.hi = lo, hi
	return t
}

func BVar(name string, s Sort) *Term {
	return intern("b"+name+":"+s.String(), func() *Term { return &Term{k: KBVar, sort: s, name: name} })
}

// ranges of results of interpreted functions, by name
var appRange = map[string][2]*big.Int{}

func App(name string, s Sort, args ...*Term) *Term {
	return intern("a"+name+"("+ids(args)+")", func() *Term {
		t := &Term{k: KApp, sort: s, name: name, args: args}
		if r, ok := appRange[name]; ok {
			t.lo, t.hi = r[0], r[1]
		}
		return t
	})
}

// ---- linear arithmetic

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{c: new(big.Int), co: map[*Term]*big.Int{}}
	l.add(t, bi(1))
	return l
}

func (l *lin) add(t *Term, k *big.Int) {
	switch t.k {
	case KInt:
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(t.n, k))
	case KLin:
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(t.n, k))
		for i, a := range t.args {
			l.add1(a, new(big.Int).Mul(t.coeffs[i], k))
		}
	default:
		l.add1(t, k)
	}
}

func (l *lin) add1(t *Term, k *big.Int) {
	o := l.co[t]
	if o == nil {
		o = new(big.Int)
	}
	o = new(big.Int).Add(o, k)
	if o.Sign() == 0 {
		delete(l.co, t)
	} else {
		l.co[t] = o
	}
}

func (l lin) term() *Term {
	if len(l.co) == 0 {
		return IntB(l.c)
	}
	as := make([]*Term, 0, len(l.co))
	for a := range l.co {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.c.Sign() == 0 && l.co[as[0]].Cmp(bi(1)) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	key := "l" + l.c.String()
	for i, a := range as {
		cs[i] = l.co[a]
		key += fmt.Sprintf(" %s*%d", cs[i], a.id)
	}
	c := l.c
	return intern(key, func() *Term {
		t := &Term{k: KLin, sort: SInt, n: c, args: as, coeffs: cs}
		t.lo, t.hi = linBounds(t, func(a *Term) (*big.Int, *big.Int) { return a.lo, a.hi })
		return t
	})
}

func linBounds(t *Term, f func(*Term) (*big.Int, *big.Int)) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(t.n), new(big.Int).Set(t.n)
	for i, a := range t.args {
		al, ah := f(a)
		if t.coeffs[i].Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(al, t.coeffs[i]))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ah, t.coeffs[i]))
			}
		}
	}
	return
}

func Add(ts ...*Term) *Term {
	l := lin{c: new(big.Int), co: map[*Term]*big.Int{}}
	for _, t := range ts {
		l.add(t, bi(1))
	}
	return l.term()
}

func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, bi(-1))
	return l.term()
}

func MulC(a *Term, c *big.Int) *Term {
	l := lin{c: new(big.Int), co: map[*Term]*big.Int{}}
	l.add(a, c)
	return l.term()
}

func Mul(a, b *Term) *Term {
	if a.k == KInt {
		return MulC(b, a.n)
	}
	if b.k == KInt {
		return MulC(a, b.n)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern("m"+ids([]*Term{a, b}), func() *Term {
		t := &Term{k: KMul, sort: SInt, args: []*Term{a, b}}
		if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
			for _, x := range []*big.Int{a.lo, a.hi} {
				for _, y := range []*big.Int{b.lo, b.hi} {
					p := new(big.Int).Mul(x, y)
					if t.lo == nil || p.Cmp(t.lo) < 0 {
						t.lo = p
					}
					if t.hi == nil || p.Cmp(t.hi) > 0 {
						t.hi = p
					}
				}
			}
		}
		return t
	})
}

// DivC is floor division by the positive constant c.
func DivC(a *Term, c *big.Int) *Term {
	if c.Sign() <= 0 {
		panic("DivC")
	}
	if c.Cmp(bi(1)) == 0 {
		return a
	}
	if a.k == KInt {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.n, c, m)
		return IntB(q)
	}
	if a.lo != nil && a.hi != nil {
		ql, qh := new(big.Int).Div(a.lo, c), new(big.Int).Div(a.hi, c)
		if ql.Cmp(qh) == 0 {
			return IntB(ql)
		}
	}
	if a.k == KLin {
		// pull out summands which are multiples of c
		in, out := lin{c: new(big.Int), co: map[*Term]*big.Int{}}, lin{c: new(big.Int), co: map[*Term]*big.Int{}}
		q, m := new(big.Int).DivMod(a.n, c, new(big.Int))
		in.c, out.c = m, q
		for i, x := range a.args {
			q, m := new(big.Int).DivMod(a.coeffs[i], c, new(big.Int))
			if m.Sign() == 0 {
				out.co[x] = q
			} else {
				in.co[x] = a.coeffs[i]
			}
		}
		if len(out.co) > 0 || out.c.Sign() != 0 {
			return Add(DivC(in.term(), c), out.term())
		}
	}
	if a.k == KDiv {
		return DivC(a.args[0], new(big.Int).Mul(a.n, c))
	}
	return intern("d"+c.String()+ids([]*Term{a}), func() *Term {
		t := &Term{k: KDiv, sort: SInt, n: c, args: []*Term{a}}
		if a.lo != nil {
			t.lo = new(big.Int).Div(a.lo, c)
		}
		if a.hi != nil {
			t.hi = new(big.Int).Div(a.hi, c)
		}
		return t
	})
}

// ModC is the non-negative remainder by the positive constant c.
func ModC(a *Term, c *big.Int) *Term {
	if c.Sign() <= 0 {
		panic("ModC")
	}
	if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(c) < 0 {
		return a
	}
	if a.k == KInt {
		return IntB(new(big.Int).Mod(a.n, c))
	}
	if a.k == KLin {
		in := lin{c: new(big.Int).Mod(a.n, c), co: map[*Term]*big.Int{}}
		ch := in.c.Cmp(a.n) != 0
		for i, x := range a.args {
			if new(big.Int).Mod(a.coeffs[i], c).Sign() == 0 {
				ch = true
				continue
			}
			in.co[x] = a.coeffs[i]
		}
		if ch {
			return ModC(in.term(), c)
		}
	}
	if a.k == KMod && new(big.Int).Mod(a.n, c).Sign() == 0 {
		return ModC(a.args[0], c)
	}
	return intern("r"+c.String()+ids([]*Term{a}), func() *Term {
		return &Term{k: KMod, sort: SInt, n: c, args: []*Term{a}, lo: bi(0), hi: new(big.Int).Sub(c, bi(1))}
	})
}

// ---- booleans

func Not(a *Term) *Term {
	switch a.k {
	case KBool:
		return Bool(!a.b)
	case KNot:
		return a.args[0]
	case KLe: // not (a <= b)  ==  b+1 <= a
		return Le(Add(a.args[1], Int(1)), a.args[0])
	}
	return intern("n"+ids([]*Term{a}), func() *Term {
		return &Term{k: KNot, sort: SBool, args: []*Term{a}}
	})
}

func And(ts ...*Term) *Term { return nary(KAnd, ts) }
func Or(ts ...*Term) *Term  { return nary(KOr, ts) }

func nary(k Kind, ts []*Term) *Term {
	unit, zero := True, False
	if k == KOr {
		unit, zero = False, True
	}
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(ts []*Term) bool
	rec = func(ts []*Term) bool {
		for _, t := range ts {
			if t == zero {
				return false
			}
			if t == unit || seen[t] {
				continue
			}
			if t.k == k {
				if !rec(t.args) {
					return false
				}
				continue
			}
			if seen[Not(t)] {
				return false
			}
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	if !rec(ts) {
		return zero
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	key := "&"
	if k == KOr {
		key = "|"
	}
	return intern(key+ids(out), func() *Term { return &Term{k: k, sort: SBool, args: out} })
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Le(a, b *Term) *Term {
	l := toLin(b)
	l.add(a, bi(-1)) // l = b - a >= 0
	t := l.term()
	if t.lo != nil && t.lo.Sign() >= 0 {
		return True
	}
	if t.hi != nil && t.hi.Sign() < 0 {
		return False
	}
	// canonical: sum of positive part >= negative part
	pos, neg := lin{c: new(big.Int), co: map[*Term]*big.Int{}}, lin{c: new(big.Int), co: map[*Term]*big.Int{}}
	for x, c := range l.co {
		if c.Sign() > 0 {
			pos.co[x] = c
		} else {
			neg.co[x] = new(big.Int).Neg(c)
		}
	}
	if l.c.Sign() > 0 {
		pos.c = l.c
	} else {
		neg.c = new(big.Int).Neg(l.c)
	}
	p, n := pos.term(), neg.term()
	return intern("<"+ids([]*Term{n, p}), func() *Term {
		return &Term{k: KLe, sort: SBool, args: []*Term{n, p}}
	})
}
func Lt(a, b *Term) *Term { return Le(Add(a, Int(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts %v %v: %s = %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		if a.k == KBool {
			a, b = b, a
		}
		if b.k == KBool {
			if b.b {
				return a
			}
			return Not(a)
		}
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.k == KInt {
			return Bool(d.n.Sign() == 0)
		}
		if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
			return False
		}
		// ite(c,k1,k2) == k3 with constants
		if a.k == KInt {
			a, b = b, a
		}
		if b.k == KInt && a.k == KIte {
			x, y := Eq(a.args[1], b), Eq(a.args[2], b)
			if (x.k == KBool && y.k == KBool) || (x == False) || (y == False) {
				return Or(And(a.args[0], x), And(Not(a.args[0]), y))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern("="+ids([]*Term{a, b}), func() *Term {
		return &Term{k: KEq, sort: SBool, args: []*Term{a, b}}
	})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a.k == KBool {
			if a.b {
				return Or(c, b)
			}
			return And(Not(c), b)
		}
		if b.k == KBool {
			if b.b {
				return Or(Not(c), a)
			}
			return And(c, a)
		}
	}
	if c.k == KNot {
		return Ite(c.args[0], b, a)
	}
	if a.k == KIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.k == KIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return intern("?"+ids([]*Term{c, a, b}), func() *Term {
		t := &Term{k: KIte, sort: a.sort, args: []*Term{c, a, b}}
		if a.sort == SInt {
			if a.lo != nil && b.lo != nil {
				t.lo = minB(a.lo, b.lo)
			}
			if a.hi != nil && b.hi != nil {
				t.hi = maxB(a.hi, b.hi)
			}
		}
		return t
	})
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True {
		return True
	}
	key := "A" + ids(vars) + ":" + ids([]*Term{body})
	for _, p := range pats {
		key += "/" + ids(p)
	}
	return intern(key, func() *Term {
		return &Term{k: KForall, sort: SBool, vars: vars, args: []*Term{body}, pats: pats}
	})
}

// ---- sequences and heaps

var Empty = App("sempty", SSeq)

func Unit(x *Term) *Term { return App("sunit", SSeq, x) }

func Cat(ts ...*Term) *Term {
	// right-nested normal form
	var flat []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.k == KApp && t.name == "scat" {
			rec(t.args[0])
			rec(t.args[1])
			return
		}
		if t != Empty {
			flat = append(flat, t)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	if len(flat) == 0 {
		return Empty
	}
	r := flat[len(flat)-1]
	for i := len(flat) - 2; i >= 0; i-- {
		r = App("scat", SSeq, flat[i], r)
	}
	return r
}

func init() { appRange["slen"] = [2]*big.Int{bi(0), nil} }

func SLen(s *Term) *Term {
	if s.k == KApp {
		switch s.name {
		case "sempty":
			return Int(0)
		case "sunit":
			return Int(1)
		case "scat":
			return Add(SLen(s.args[0]), SLen(s.args[1]))
		case "hsub":
			// lo <= hi holds wherever the generator builds hsub over a slice,
			// but not in specs: keep the guarded axiom unless it is static
			d := Sub(s.args[3], s.args[2])
			if d.lo != nil && d.lo.Sign() >= 0 {
				return d
			}
		}
	}
	return App("slen", SInt, s)
}

func SAt(s, i *Term) *Term {
	if s.k == KApp {
		switch s.name {
		case "sunit":
			if i.k == KInt && i.n.Sign() == 0 {
				return s.args[0]
			}
		case "scat":
			n := SLen(s.args[0])
			if n.k == KInt && i.k == KInt {
				if i.n.Cmp(n.n) < 0 {
					if i.n.Sign() >= 0 {
						return SAt(s.args[0], i)
					}
				} else {
					return SAt(s.args[1], Sub(i, n))
				}
			}
		}
	}
	return App("sat", SInt, s, i)
}

func Drop(s, k *Term) *Term {
	if k.k == KInt && k.n.Sign() == 0 {
		return s
	}
	if s.k == KApp && s.name == "scat" && s.args[0].k == KApp && s.args[0].name == "sunit" && k.k == KInt && k.n.Sign() > 0 {
		return Drop(s.args[1], Sub(k, Int(1)))
	}
	if s.k == KApp && s.name == "sunit" && k.k == KInt && k.n.Cmp(bi(1)) == 0 {
		return Empty
	}
	return App("sdrop", SSeq, s, k)
}
func Take(s, k *Term) *Term {
	if k.k == KInt && k.n.Sign() == 0 {
		return Empty
	}
	return App("stake", SSeq, s, k)
}

// refDistinct reports that two array references are certainly different:
// their difference is a non-zero constant.
func refDistinct(a, b *Term) bool {
	d := Sub(a, b)
	return (d.k == KInt && d.n.Sign() != 0) || (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0)
}

func HGet(h, r, i *Term) *Term {
	for h.k == KApp && h.name == "hwrite" {
		wr, at, xs := h.args[1], h.args[2], h.args[3]
		if refDistinct(wr, r) {
			h = h.args[0]
			continue
		}
		if wr == r {
			n := SLen(xs)
			off := Sub(i, at)
			if off.k == KInt && n.k == KInt {
				if off.n.Sign() < 0 || off.n.Cmp(n.n) >= 0 {
					h = h.args[0]
					continue
				}
				e := SAt(xs, off)
				if !(e.k == KApp && e.name == "sat") {
					return e
				}
				return e
			}
		}
		break
	}
	return App("hget", SInt, h, r, i)
}

func HSub(h, r, lo, hi *Term) *Term {
	d := Sub(hi, lo)
	if d.k == KInt && d.n.Sign() <= 0 {
		return Empty
	}
	for h.k == KApp && h.name == "hwrite" {
		wr, at, xs := h.args[1], h.args[2], h.args[3]
		if refDistinct(wr, r) {
			h = h.args[0]
			continue
		}
		if wr == r {
			if at == lo && SLen(xs) == d {
				return xs
			}
		}
		break
	}
	if d.k == KInt && d.n.Cmp(bi(8)) <= 0 {
		var us []*Term
		for k := int64(0); k < d.n.Int64(); k++ {
			us = append(us, Unit(HGet(h, r, Add(lo, Int(k)))))
		}
		return Cat(us...)
	}
	return App("hsub", SSeq, h, r, lo, hi)
}

func HWrite(h, r, at, xs *Term) *Term {
	if xs == Empty {
		return h
	}
	return App("hwrite", SHeap, h, r, at, xs)
}

// ---- machine integers

type intType struct {
	bits   uint
	signed bool
}

func (it intType) min() *big.Int {
	if !it.signed {
		return bi(0)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(bi(1), it.bits-1))
}
func (it intType) max() *big.Int {
	b := it.bits
	if it.signed {
		b--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(bi(1), b), bi(1))
}

// wrapTo reduces e into the range of it (two's complement). lo/hi bound e.
func wrapTo(e *Term, it intType, lo, hi *big.Int) *Term {
	mn, mx := it.min(), it.max()
	static := true // r's range may be recorded only if it follows from static bounds
	if lo == nil || (e.lo != nil && e.lo.Cmp(lo) >= 0) {
		lo = e.lo
	} else {
		static = false
	}
	if hi == nil || (e.hi != nil && e.hi.Cmp(hi) <= 0) {
		hi = e.hi
	} else {
		static = false
	}
	if lo != nil && hi != nil && lo.Cmp(mn) >= 0 && hi.Cmp(mx) <= 0 {
		return e
	}
	p := new(big.Int).Lsh(bi(1), it.bits)
	if e.k == KInt {
		m := new(big.Int).Mod(e.n, p)
		if m.Cmp(mx) > 0 {
			m.Sub(m, p)
		}
		return IntB(m)
	}
	if lo != nil && hi != nil && new(big.Int).Add(lo, p).Cmp(mn) >= 0 && new(big.Int).Sub(hi, p).Cmp(mx) <= 0 {
		r := e
		if hi.Cmp(mx) > 0 {
			r = Ite(Gt(e, IntB(mx)), Sub(e, IntB(p)), r)
		}
		if lo.Cmp(mn) < 0 {
			r = Ite(Lt(e, IntB(mn)), Add(e, IntB(p)), r)
		}
		if static && r.k == KIte {
			if r.lo == nil || r.lo.Cmp(mn) < 0 {
				r.lo = mn
			}
			if r.hi == nil || r.hi.Cmp(mx) > 0 {
				r.hi = mx
			}
		}
		return r
	}
	if !it.signed {
		return ModC(e, p)
	}
	half := new(big.Int).Lsh(bi(1), it.bits-1)
	return Sub(ModC(Add(e, IntB(half)), p), IntB(half))
}

// bit mask: x & c for constant c >= 0, x any integer (two's complement)
func maskC(x *Term, c *big.Int) *Term {
	r := Int(0)
	n := c.BitLen()
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		p := new(big.Int).Lsh(bi(1), uint(i))
		w := new(big.Int).Lsh(bi(1), uint(j-i))
		r = Add(r, MulC(ModC(DivC(x, p), w), p))
		i = j
	}
	return r
}

// tz is a number of low bits known to be zero.
func tz(t *Term) uint {
	switch t.k {
	case KInt:
		if t.n.Sign() == 0 {
			return 64
		}
		return t.n.TrailingZeroBits()
	case KLin:
		m := uint(64)
		if t.n.Sign() != 0 {
			m = t.n.TrailingZeroBits()
		}
		for i, a := range t.args {
			if z := t.coeffs[i].TrailingZeroBits() + tz(a); z < m {
				m = z
			}
		}
		return m
	case KIte:
		a, b := tz(t.args[1]), tz(t.args[2])
		if a < b {
			return a
		}
		return b
	case KMod:
		z := tz(t.args[0])
		if w := t.n.TrailingZeroBits(); z > w {
			z = w
		}
		return z
	}
	return 0
}

// ---- printing

func smtName(s string) string {
	if s != "" && s[0] >= '0' && s[0] <= '9' {
		return "|" + strings.ReplaceAll(s, "|", "/") + "|"
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.' || r == '$') {
			return "|" + strings.ReplaceAll(s, "|", "/") + "|"
		}
	}
	return s
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

type printer struct {
	names map[*Term]string
}

func (p *printer) str(t *Term) string {
	var sb strings.Builder
	p.write(&sb, t)
	return sb.String()
}

func (p *printer) write(sb *strings.Builder, t *Term) {
	if n, ok := p.names[t]; ok {
		sb.WriteString(n)
		return
	}
	p.body(sb, t)
}

func (p *printer) body(sb *strings.Builder, t *Term) {
	list := func(op string, args ...*Term) {
		sb.WriteString("(")
		sb.WriteString(op)
		for _, a := range args {
			sb.WriteString(" ")
			p.write(sb, a)
		}
		sb.WriteString(")")
	}
	switch t.k {
	case KInt:
		sb.WriteString(smtInt(t.n))
	case KBool:
		fmt.Fprint(sb, t.b)
	case KVar, KBVar:
		sb.WriteString(smtName(t.name))
	case KApp:
		if len(t.args) == 0 {
			sb.WriteString(smtName(t.name))
		} else {
			list(smtName(t.name), t.args...)
		}
	case KLin:
		n := 0
		for range t.args {
			n++
		}
		if t.n.Sign() != 0 {
			n++
		}
		if n > 1 {
			sb.WriteString("(+")
		}
		for i, a := range t.args {
			if n > 1 {
				sb.WriteString(" ")
			}
			if t.coeffs[i].Cmp(bi(1)) == 0 {
				p.write(sb, a)
			} else {
				sb.WriteString("(* " + smtInt(t.coeffs[i]) + " ")
				p.write(sb, a)
				sb.WriteString(")")
			}
		}
		if t.n.Sign() != 0 {
			sb.WriteString(" " + smtInt(t.n))
		}
		if n > 1 {
			sb.WriteString(")")
		}
	case KMul:
		list("*", t.args...)
	case KDiv:
		list("div", t.args[0], IntB(t.n))
	case KMod:
		list("mod", t.args[0], IntB(t.n))
	case KIte:
		list("ite", t.args...)
	case KEq:
		list("=", t.args...)
	case KLe:
		list("<=", t.args...)
	case KAnd:
		list("and", t.args...)
	case KOr:
		list("or", t.args...)
	case KNot:
		list("not", t.args...)
	case KForall:
		sb.WriteString("(forall (")
		for _, v := range t.vars {
			fmt.Fprintf(sb, "(%s %s)", smtName(v.name), v.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		p.write(sb, t.args[0])
		for _, pt := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					sb.WriteString(" ")
				}
				p.write(sb, x)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	}
}

func (t *Term) String() string { return (&printer{}).str(t) }

// subst replaces bound variables (or any terms) by terms.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch || t.k == KForall {
			r = rebuild(t, as, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term, rec func(*Term) *Term) *Term {
	switch t.k {
	case KApp:
		switch t.name {
		case "scat":
			return Cat(as...)
		case "slen":
			return SLen(as[0])
		case "sat":
			return SAt(as[0], as[1])
		case "sdrop":
			return Drop(as[0], as[1])
		case "stake":
			return Take(as[0], as[1])
		case "hget":
			return HGet(as[0], as[1], as[2])
		case "hsub":
			return HSub(as[0], as[1], as[2], as[3])
		case "hwrite":
			return HWrite(as[0], as[1], as[2], as[3])
		}
		return App(t.name, t.sort, as...)
	case KLin:
		l := lin{c: t.n, co: map[*Term]*big.Int{}}
		for i, a := range as {
			l.add(a, t.coeffs[i])
		}
		return l.term()
	case KMul:
		return Mul(as[0], as[1])
	case KDiv:
		return DivC(as[0], t.n)
	case KMod:
		return ModC(as[0], t.n)
	case KIte:
		return Ite(as[0], as[1], as[2])
	case KEq:
		return Eq(as[0], as[1])
	case KLe:
		return Le(as[0], as[1])
	case KAnd:
		return And(as...)
	case KOr:
		return Or(as...)
	case KNot:
		return Not(as[0])
	case KForall:
		pats := make([][]*Term, len(t.pats))
		for i, p := range t.pats {
			for _, x := range p {
				pats[i] = append(pats[i], rec(x))
			}
		}
		return Forall(t.vars, as[0], pats...)
	}
	panic("rebuild")
}

// fuelZero replaces recursive functions by their forms which do not unfold.
func fuelZero(t *Term) *Term {
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = rec(a)
		}
		if t.k == KApp && funcs[t.name+"#0"] != nil {
			return App(t.name+"#0", t.sort, as...)
		}
		return rebuild(t, as, rec)
	}
	return rec(t)
}

// bothFuels is a quantified statement, and the same about the forms of
// recursive functions which do not unfold (they are equal).
func bothFuels(vars []*Term, body *Term, pats [][]*Term) []*Term {
	out := []*Term{Forall(vars, body, pats...)}
	b0 := fuelZero(body)
	if b0 == body {
		return out
	}
	var p0 [][]*Term
	for _, p := range pats {
		var q []*Term
		for _, t := range p {
			q = append(q, fuelZero(t))
		}
		p0 = append(p0, q)
	}
	return append(out, Forall(vars, b0, p0...))
}
