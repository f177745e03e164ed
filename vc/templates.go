package main

import (
	"fmt"
	"strings"
)

// templates makes candidates for loops which consume an input and produce an
// output: what has been produced, followed by what the rest will give, is
// what was to be produced on entry.
type part struct {
	name string
	t    *Term
	kind string
	alt  *Term // the same, as a range of an array
	n    *Term // its length, if the bounds are right
}

// tried is the form of a part which is best for schemas.
func (p part) tried() *Term {
	if p.alt != nil {
		return p.alt
	}
	return p.t
}

func (x *X) templates(j *loopJob, h *lhead) []cand {
	if x.con == nil {
		return nil
	}
	a := j.atoms(h)
	kind := func(s *VSlice) string {
		it, ok := typeBits(s.elem)
		if !ok {
			return ""
		}
		if it.bits == 8 {
			return "bytes"
		}
		if it.bits == 32 && it.signed {
			return "runes"
		}
		return ""
	}
	var accs, rests []part
	type pair struct{ acc, rest part }
	var inplace []pair
	for _, s := range a.slices {
		k := kind(s.h)
		if k == "" || isConstRef(s.h.ref) {
			continue
		}
		key, _, _ := heapKey(s.h.elem, nil)
		v := x.view(h.st, s.h)
		changed := s.mod || j.mod["h:"+key]
		if changed {
			accs = append(accs, part{name: s.name, t: v, kind: k, n: s.h.len})
		}
		if s.mod {
			rests = append(rests, part{name: s.name, t: v, kind: k, n: s.h.len})
		}
		if !s.mod {
			for _, p := range a.ints {
				q := p.h
				if p.e.k == KInt && p.e.n.Sign() < 0 {
					q = Add(q, Int(1))
				}
				d := part{name: fmt.Sprintf("%s[%s:]", s.name, p.name), t: Drop(v, q), kind: k, n: Sub(s.h.len, q)}
				d.alt = x.view(h.st, &VSlice{elem: s.h.elem, ref: s.h.ref, off: Add(s.h.off, q), len: d.n, cap: d.n})
				rests = append(rests, d)
				inplace = append(inplace, pair{part{name: fmt.Sprintf("%s[:%s]", s.name, p.name), t: Take(v, q), kind: k}, d})
				if p.e.k != KInt {
					// p may be the number of those which are left
					q := Sub(s.h.len, p.h)
					d := part{name: fmt.Sprintf("%s[len-%s:]", s.name, p.name), t: Drop(v, q), kind: k, n: p.h}
					d.alt = x.view(h.st, &VSlice{elem: s.h.elem, ref: s.h.ref, off: Add(s.h.off, q), len: d.n, cap: d.n})
					rests = append(rests, d)
				}
			}
		}
	}
	for _, s := range a.seqs {
		if s.h != s.e {
			accs = append(accs, part{name: s.name, t: s.h, kind: "bytes", n: SLen(s.h)})
			rests = append(rests, part{name: s.name, t: s.h, kind: "bytes", n: SLen(s.h)})
			continue
		}
		for _, p := range a.ints {
			rests = append(rests, part{name: fmt.Sprintf("%s[%s:]", s.name, p.name), t: Drop(s.h, p.h), kind: "bytes", n: Sub(SLen(s.h), p.h)})
		}
	}
	for _, it := range a.iters {
		rests = append(rests, part{name: "the rest of the string", t: Drop(it.s, it.h), kind: "bytes", n: Sub(SLen(it.s), it.h)})
	}
	// an output written into the first n elements of a slice
	for _, s := range a.slices {
		k := kind(s.h)
		key, _, ok := heapKey(s.h.elem, nil)
		if k == "" || !ok || isConstRef(s.h.ref) || s.mod || !j.mod["h:"+key] {
			continue
		}
		for _, p := range a.ints {
			if p.e.k == KInt && p.e.n.Sign() < 0 {
				continue
			}
			accs = append(accs, part{name: fmt.Sprintf("%s[:%s]", s.name, p.name), t: Take(x.view(h.st, s.h), p.h), kind: k, n: p.h,
				alt: x.view(h.st, &VSlice{elem: s.h.elem, ref: s.h.ref, off: s.h.off, len: p.h, cap: p.h})})
		}
	}
	var out []cand
	add := func(name string, t *Term) {
		out = append(out, cand{name: name, t: Eq(t, j.at(h, t, j.st0, j.vals0))})
	}
	for _, tp := range x.S.templates {
		if tp.file != x.con.file {
			continue
		}
		d := x.S.defs[tp.fn]
		if d == nil {
			fatal("template of %s, which is not declared", tp.fn)
		}
		sc := &scope{S: x.S, x: x, st: h.st, old: h.st, vars: map[string]Val{}}
		for _, r := range rests {
			if r.kind != tp.from {
				continue
			}
			if tp.to == "int" {
				// the second argument is a number which is carried along
				for _, p := range a.ints {
					add(fmt.Sprintf("%s(%s, %s) is constant", tp.fn, r.name, p.name), sc.applyDef(d, []*Term{r.t, p.h}))
				}
				continue
			}
			f := sc.applyDef(d, []*Term{r.t})
			if tp.to == "holds" {
				out = append(out, cand{name: fmt.Sprintf("%s(%s)", tp.fn, r.name), t: f})
				continue
			}
			if tp.to == "bool" {
				add(fmt.Sprintf("%s(%s) is constant", tp.fn, r.name), f)
				if x.own {
					j.addAll(h, &out, fmt.Sprintf("%s(%s+z) is constant", tp.fn, r.name), func(z *Term) (*Term, *Term) {
						t := sc.applyDef(d, []*Term{Cat(r.t, z)})
						return t, t
					})
				}
				continue
			}
			for _, ac := range accs {
				if ac.kind != tp.to || ac.t == r.t || strings.HasPrefix(ac.name, r.name+"[") {
					continue
				}
				add(fmt.Sprintf("%s + %s(%s) is constant", ac.name, tp.fn, r.name), Cat(ac.t, f))
				if x.own {
					j.addAll(h, &out, fmt.Sprintf("%s + %s(%s+z) is constant", ac.name, tp.fn, r.name), func(z *Term) (*Term, *Term) {
						t := sc.applyDef(d, []*Term{Cat(r.t, z)})
						return Cat(ac.t, t), t
					})
				}
			}
		}
		for _, p := range inplace {
			if p.rest.kind == tp.from && p.acc.kind == tp.to {
				add(fmt.Sprintf("%s + %s(%s) is constant", p.acc.name, tp.fn, p.rest.name), Cat(p.acc.t, sc.applyDef(d, []*Term{p.rest.t})))
			}
		}
	}
	out = append(out, x.tries(j, h, accs, rests, a.errs)...)
	return out
}

// addAll adds the candidate "f(z) is as on entry, for every z".
func (j *loopJob) addAll(h *lhead, out *[]cand, name string, f func(z *Term) (*Term, *Term)) {
	z := BVar("z", SSeq)
	t, p := f(z)
	t0, p0 := j.at(h, t, j.st0, j.vals0), j.at(h, p, j.st0, j.vals0)
	pats := [][]*Term{{p0}}
	if p != p0 {
		pats = append(pats, []*Term{p})
	}
	*out = append(*out, cand{name: name, t: Forall([]*Term{z}, Eq(t, t0), pats...)})
}
