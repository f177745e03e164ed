package main

// Large constant tables and maps: related to the reference maps by facts
// which are checked entry by entry (ground obligations).

import (
	"fmt"
	"go/types"
	"sort"
)

type tabInfo struct {
	name string
	vals []int64
	path []int
}

type tables struct {
	R      *Run
	arrs   map[*CArr][]*tabInfo
	maps   map[*CMap]*mapInfo
	notes  []string
	diffs  []diff
	ground int // ground facts checked
}

// diff is a difference between a table and its reference.
type diff struct {
	Ref     string `json:"ref"`
	Key     int64  `json:"key"`
	Got     int64  `json:"got"`
	Want    int64  `json:"want"`
	Missing bool   `json:"missing"`
}

type mapInfo struct {
	ref  *refMap
	exc  []int64
	all  map[int64]int64
	cval *int64 // constant value (a set)
	name string
}

func newTables(R *Run) *tables {
	return &tables{R: R, arrs: map[*CArr][]*tabInfo{}, maps: map[*CMap]*mapInfo{}}
}

func sortedRefs() []*refMap {
	var ns []string
	for n := range refMaps {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var out []*refMap
	for _, n := range ns {
		out = append(out, refMaps[n])
	}
	return out
}

const maxExc = 12

func (t *tables) columns(a *CArr) []*tabInfo {
	if c, ok := t.arrs[a]; ok {
		return c
	}
	var cols []*tabInfo
	add := func(path []int) {
		ti := &tabInfo{name: fmt.Sprintf("T%d%s", len(t.arrs), pathName(path)), path: path}
		for _, s := range a.slots {
			v, ok := slotPath(s, path).v.(CInt)
			if !ok {
				return
			}
			ti.vals = append(ti.vals, v.n)
		}
		cols = append(cols, ti)
	}
	if st, ok := a.elem.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := typeBits(st.Field(i).Type()); ok {
				add([]int{i})
			}
		}
	} else {
		add(nil)
	}
	t.arrs[a] = cols
	n := int64(len(a.slots))
	iv := BVar("i", SInt)
	in := And(Le(Int(0), iv), Lt(iv, Int(n)))
	notExc := func(es []int64) *Term {
		var ts []*Term
		for _, e := range es {
			ts = append(ts, Ne(iv, Int(e)))
		}
		return And(ts...)
	}
	for _, c := range cols {
		lo, hi := c.vals[0], c.vals[0]
		for _, v := range c.vals {
			if v < lo {
				lo = v
			}
			if v > hi {
				hi = v
			}
		}
		f := declFunc(c.name, SInt, SInt)
		ap := App(c.name, SInt, iv)
		f.Axioms = append(f.Axioms, Forall([]*Term{iv}, And(Le(Int(lo), ap), Le(ap, Int(hi))), []*Term{ap}))
		appRange[c.name] = rng(lo, hi)
		// sorted?
		asc := true
		for i := 1; i < len(c.vals); i++ {
			if c.vals[i-1] >= c.vals[i] {
				asc = false
				break
			}
		}
		if asc {
			jv := BVar("j", SInt)
			ap2 := App(c.name, SInt, jv)
			t.ground += len(c.vals) - 1
			f.Axioms = append(f.Axioms, Forall([]*Term{iv, jv}, Imp(And(Le(Int(0), iv), Lt(iv, jv), Lt(jv, Int(n))), Lt(ap, ap2)), []*Term{ap, ap2}))
		}
	}
	for _, c := range cols {
		for _, r := range sortedRefs() {
			var best *tabInfo
			bestN := 0
			for _, u := range cols {
				if u == c {
					continue
				}
				k := 0
				for i := range c.vals {
					if v, ok := r.m[c.vals[i]]; ok && v == u.vals[i] {
						k++
					}
				}
				if k > bestN {
					best, bestN = u, k
				}
			}
			if best == nil || bestN*2 < len(c.vals) {
				continue
			}
			u := best
			// A: entries
			var exc []int64
			for i := range c.vals {
				if v, ok := r.m[c.vals[i]]; !ok || v != u.vals[i] {
					exc = append(exc, int64(i))
					w, _ := r.m[c.vals[i]]
					t.addDiff(diff{r.name, c.vals[i], u.vals[i], w, false})
				}
			}
			t.ground += len(c.vals)
			tc, tu := App(c.name, SInt, iv), App(u.name, SInt, iv)
			if len(exc) <= maxExc {
				condAxioms = append(condAxioms, condAxiom{name: "entries of " + c.name, need: []string{c.name, u.name, r.name},
					t: Forall([]*Term{iv}, Imp(And(in, notExc(exc)), Eq(App(r.name, SInt, tc), tu)), []*Term{tu}, []*Term{tc})})
			}
			// B: gaps
			exc = nil
			find := func(lo, hi int64) (int64, bool) { // a key strictly between
				i := sort.Search(len(r.keys), func(i int) bool { return r.keys[i] > lo })
				if i < len(r.keys) && r.keys[i] < hi {
					return r.keys[i], true
				}
				return 0, false
			}
			const inf = int64(1) << 40
			for i := int64(0); i <= n; i++ {
				lo, hi := -inf, inf
				if i > 0 {
					lo = c.vals[i-1]
				}
				if i < n {
					hi = c.vals[i]
				}
				if k, bad := find(lo, hi); bad {
					exc = append(exc, i)
					t.addDiff(diff{r.name, k, 0, r.m[k], true})
				}
			}
			t.ground += int(n) + 1
			if len(exc) <= maxExc {
				nv := BVar("n", SInt)
				jv := BVar("j", SInt)
				tp := App(c.name, SInt, jv)
				rn := App(r.name, SInt, nv)
				condAxioms = append(condAxioms,
					condAxiom{name: "gaps of " + c.name, need: []string{c.name, r.name},
						t: Forall([]*Term{iv, jv, nv}, Imp(And(Eq(iv, Add(jv, Int(1))), Lt(Int(0), iv), Lt(iv, Int(n)), notExc(exc), Lt(tp, nv), Lt(nv, tc)), Eq(rn, Int(r.def))), []*Term{tp, tc, rn})})
				if len(exc) == 0 || exc[0] != 0 {
					condAxioms = append(condAxioms, condAxiom{name: "below " + c.name, need: []string{c.name, r.name},
						t: And(Eq(App(c.name, SInt, Int(0)), Int(c.vals[0])), Forall([]*Term{nv}, Imp(Lt(nv, Int(c.vals[0])), Eq(rn, Int(r.def))), []*Term{rn}))})
				}
				if len(exc) == 0 || exc[len(exc)-1] != n {
					condAxioms = append(condAxioms, condAxiom{name: "above " + c.name, need: []string{c.name, r.name},
						t: And(Eq(App(c.name, SInt, Int(n-1)), Int(c.vals[n-1])), Forall([]*Term{nv}, Imp(Gt(nv, Int(c.vals[n-1])), Eq(rn, Int(r.def))), []*Term{rn}))})
				}
			}
			t.notes = append(t.notes, fmt.Sprintf("table %s/%s is matched to %s", c.name, u.name, r.name))
		}
	}
	return cols
}

func (t *tables) addDiff(d diff) {
	if len(t.diffs) < 200 {
		t.diffs = append(t.diffs, d)
	}
}

func pathName(p []int) string {
	s := ""
	for _, i := range p {
		s += fmt.Sprintf(".%d", i)
	}
	return s
}

func (x *X) bigTable(a *CArr, path []int, vals []int64, idx *Term) *Term {
	cols := x.R.tab.columns(a)
	for _, c := range cols {
		if pathName(c.path) != pathName(path) {
			continue
		}
		if len(path) == 0 {
			if v := x.flatTable(c, idx); v != nil {
				return v
			}
		}
		return App(c.name, SInt, idx)
	}
	unsup("large table")
	return nil
}

// flatTable recognises an array indexed by the keys of a reference map.
func (x *X) flatTable(c *tabInfo, idx *Term) *Term {
	for _, r := range sortedRefs() {
		cnt := map[int64]int{}
		hit, in := 0, 0
		for i, v := range c.vals {
			if w, ok := r.m[int64(i)]; ok {
				in++
				if v == w {
					hit++
				}
			} else {
				cnt[v]++
			}
		}
		if in == 0 || hit*2 < len(r.m) {
			continue
		}
		var D int64
		for v, k := range cnt {
			if k > cnt[D] {
				D = v
			}
		}
		var exc []int64
		for i, v := range c.vals {
			w, ok := r.m[int64(i)]
			if !ok {
				w = D
			}
			if v != w {
				exc = append(exc, int64(i))
				x.R.tab.addDiff(diff{r.name, int64(i), v, w, false})
			}
		}
		x.R.tab.ground += len(c.vals)
		if len(exc) > maxExc {
			return nil
		}
		v := refApp(r, idx)
		res := Ite(Ne(v, Int(r.def)), v, Int(D))
		for _, e := range exc {
			res = Ite(Eq(idx, Int(e)), Int(c.vals[e]), res)
		}
		return res
	}
	return nil
}

func (x *X) bigMap(m *CMap, ks, vs []int64, key *Term) (val, ok *Term) {
	t := x.R.tab
	mi := t.maps[m]
	if mi == nil {
		mi = &mapInfo{all: map[int64]int64{}, name: fmt.Sprintf("M%d", len(t.maps))}
		for i, k := range ks {
			mi.all[k] = vs[i]
		}
		t.maps[m] = mi
		same := true
		for _, v := range vs {
			same = same && v == vs[0]
		}
		for _, r := range sortedRefs() {
			hit := 0
			for i, k := range ks {
				if v, ok := r.m[k]; ok && (same || v == vs[i]) {
					hit++
				}
			}
			if hit*2 < len(r.m) || hit*2 < len(ks) {
				continue
			}
			var exc []int64
			for i, k := range ks {
				if v, ok := r.m[k]; !ok || (!same && v != vs[i]) {
					exc = append(exc, k)
					t.addDiff(diff{r.name, k, vs[i], v, false})
				}
			}
			for k, v := range r.m {
				if _, ok := mi.all[k]; !ok {
					exc = append(exc, k)
					t.addDiff(diff{r.name, k, 0, v, true})
				}
			}
			t.ground += len(ks) + len(r.m)
			if len(exc) > maxExc {
				continue
			}
			sort.Slice(exc, func(i, j int) bool { return exc[i] < exc[j] })
			mi.ref, mi.exc = r, exc
			if same {
				mi.cval = &vs[0]
			}
			t.notes = append(t.notes, fmt.Sprintf("map %s is matched to %s", mi.name, r.name))
			break
		}
		if mi.ref == nil {
			lo, hi := int64(0), int64(0)
			for _, v := range vs {
				if v < lo {
					lo = v
				}
				if v > hi {
					hi = v
				}
			}
			iv := BVar("i", SInt)
			ap := App(mi.name+".v", SInt, iv)
			f := declFunc(mi.name+".v", SInt, SInt)
			f.Axioms = append(f.Axioms, Forall([]*Term{iv}, And(Le(Int(lo), ap), Le(ap, Int(hi))), []*Term{ap}))
			appRange[mi.name+".v"] = rng(lo, hi)
		}
	}
	if mi.ref == nil {
		return App(mi.name+".v", SInt, key), App(mi.name+".ok", SBool, key)
	}
	v := refApp(mi.ref, key)
	ok = Ne(v, Int(mi.ref.def))
	if mi.cval != nil {
		v = Int(*mi.cval)
	}
	val = Ite(ok, v, Int(0))
	for _, e := range mi.exc {
		w, has := mi.all[e]
		ok = Ite(Eq(key, Int(e)), Bool(has), ok)
		val = Ite(Eq(key, Int(e)), Int(w), val)
	}
	return val, ok
}
