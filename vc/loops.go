package main

// Loops: the loop invariant is the greatest subset of a set of candidate
// formulas that holds on entry and is preserved by the body.  The same is done
// for objects, where the body is an arbitrary call of one of their methods.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cand struct {
	name string
	t    *Term
	tmpl bool
}

type loopCtx struct {
	blocks map[*ssa.BasicBlock]bool
	back   func(fr *frame, st *State, vals []Val)
	cut    bool
	unroll int
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func naturalLoop(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{b: true}
	var work []*ssa.BasicBlock
	for _, p := range b.Preds {
		if b.Dominates(p) && !in[p] {
			in[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range n.Preds {
			if !in[p] {
				in[p] = true
				work = append(work, p)
			}
		}
	}
	return in
}

// cutEdge reports that control leaves a loop whose continuation is not
// wanted now.
func (fr *frame) cutEdge(pred, b *ssa.BasicBlock) bool {
	for _, lc := range fr.loops {
		if lc != nil && lc.cut && pred != nil && lc.blocks[pred] && !lc.blocks[b] {
			return true
		}
	}
	return false
}

func (x *X) phiVals(fr *frame, st *State, b, pred *ssa.BasicBlock) ([]*ssa.Phi, []Val) {
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == pred {
				v := x.get(fr, st, ph.Edges[i])
				if s, ok := v.(*VSlice); ok && s.lit != nil {
					v = x.materialize(st, s)
				}
				vals = append(vals, v)
				ps = append(ps, ph)
				break
			}
		}
	}
	return ps, vals
}

// literalCond evaluates the condition of a loop header, if it is a literal.
func (x *X) literalCond(fr *frame, st *State, b *ssa.BasicBlock, ps []*ssa.Phi, vals []Val) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.Next, *ssa.Extract, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType:
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	fr, st = fr.clone(), st.clone()
	x.quiet++
	defer func() { x.quiet-- }()
	for i, p := range ps {
		fr.regs[p] = vals[i]
	}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Call:
			fr.regs[in] = x.builtin(fr, st, in, in.Call.Value.(*ssa.Builtin))
		case ssa.Value:
			fr.regs[in] = x.value(fr, st, in)
		}
	}
	if st.dead {
		return false
	}
	c, ok := x.get(fr, st, iff.Cond).(*Term)
	return ok && (c == True || c == False)
}

const unrollMax = 128

func (x *X) loopHeader(fr *frame, st *State, b, pred *ssa.BasicBlock) {
	ps, vals := x.phiVals(fr, st, b, pred)
	lc := fr.loops[b]
	if lc != nil && lc.back != nil && lc.blocks[pred] {
		lc.back(fr, st, vals)
		return
	}
	n := 0
	if lc != nil && lc.back == nil && lc.blocks[pred] {
		n = lc.unroll
	}
	if n < unrollMax && x.literalCond(fr, st, b, ps, vals) {
		old := fr.loops[b]
		blocks := map[*ssa.BasicBlock]bool(nil)
		if old != nil && old.back == nil {
			blocks = old.blocks
		} else {
			blocks = naturalLoop(b)
		}
		fr.loops[b] = &loopCtx{blocks: blocks, unroll: n + 1}
		for i, p := range ps {
			fr.regs[p] = vals[i]
		}
		x.instrs(fr, st, b, 0)
		fr.loops[b] = old
		return
	}
	blocks := naturalLoop(b)
	old := fr.loops[b]
	defer func() { fr.loops[b] = old }()
	j := &loopJob{x: x, pos: loopPos(b), st0: st, vals0: vals}
	j.key = x.unit
	for _, f := range x.stack {
		j.key += "/" + f.String()
	}
	j.key += fmt.Sprintf("#%d", b.Index)
	for _, p := range ps {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		j.names = append(j.names, n)
		j.typs = append(j.typs, p.Type())
	}
	// what the loop refers to
	seen := map[ssa.Value]bool{}
	var blist []*ssa.BasicBlock
	for _, bb := range fr.fn.Blocks {
		if blocks[bb] {
			blist = append(blist, bb)
		}
	}
	cs := map[string]bool{}
	for _, bb := range blist {
		for _, in := range bb.Instrs {
			switch in.(type) {
			case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef, *ssa.Return:
			default:
				j.memory = true
			}
			for _, op := range in.Operands(nil) {
				if *op == nil || seen[*op] {
					continue
				}
				seen[*op] = true
				if c, ok := (*op).(*ssa.Const); ok && c.Value != nil {
					if t, ok := x.constVal(st, c).(*Term); ok && t.k == KInt && !cs[t.n.String()] {
						cs[t.n.String()] = true
						j.consts = append(j.consts, t.n)
					}
					continue
				}
				if v, ok := fr.regs[*op]; ok {
					isPhi := false
					for _, p := range ps {
						isPhi = isPhi || ssa.Value(p) == *op
					}
					if !isPhi {
						j.fixed = append(j.fixed, v)
					}
				}
			}
		}
	}
	// a loop which looks at no slice may be counting through one
	some := false
	for _, bb := range blist {
		for _, in := range bb.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				d, ok := (*op).(ssa.Instruction)
				if s, ok2 := fr.regs[*op].(*VSlice); ok2 && s.lit == nil && !(ok && blocks[d.Block()]) {
					some = true
				}
			}
		}
	}
	if !some {
		add := func(v ssa.Value) {
			if s, ok := fr.regs[v].(*VSlice); ok && s.lit == nil {
				if it, ok := typeBits(s.elem); ok && (it.bits == 8 || it.bits == 32) {
					j.fixed = append(j.fixed, s)
				}
			}
		}
		for _, p := range fr.fn.Params {
			add(p)
		}
		for _, bb := range fr.fn.Blocks {
			if bb == b || !bb.Dominates(b) {
				continue
			}
			for _, in := range bb.Instrs {
				if v, ok := in.(ssa.Value); ok {
					add(v)
				}
			}
		}
	}
	j.run = func(st *State, vals []Val, cut bool, back func(*State, []Val)) {
		fr2 := fr.clone()
		for i, p := range ps {
			fr2.regs[p] = vals[i]
		}
		prev := fr.loops[b]
		fr.loops[b] = &loopCtx{blocks: blocks, cut: cut, back: func(_ *frame, st *State, vals []Val) { back(st, vals) }}
		x.instrs(fr2, st, b, 0)
		fr.loops[b] = prev
	}
	j.measure = true
	j.infer()
}

func loopPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			return p
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if p := in.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}

// loopJob is a loop (or an object with its methods) to be cut by an
// invariant.
type loopJob struct {
	x       *X
	key     string
	pos     token.Pos
	names   []string
	typs    []types.Type
	st0     *State
	vals0   []Val
	fixed   []Val
	consts  []*big.Int
	run     func(st *State, vals []Val, cut bool, back func(*State, []Val))
	measure bool
	object  bool
	memory  bool // the body uses memory or calls functions
	extra   func(j *loopJob, h *lhead) []cand

	mod map[string]bool
}

// lhead is an arbitrary state at the head of the loop.
type lhead struct {
	st   *State
	vals []Val
	h, e map[string]*Term // modified components: here and on entry
	ord  []string
}

// components of a state, by name
func (j *loopJob) comps(st *State, vals []Val) map[string]*Term {
	m := map[string]*Term{}
	put := func(n string, t *Term) *Term { m[n] = t; return t }
	for i, v := range vals {
		mapVal(v, "p:"+j.names[i]+fmt.Sprintf("#%d", i), put)
	}
	for _, id := range sortedCells(j.st0.cells) {
		mapVal(st.cells[id], fmt.Sprintf("c:%d", id), put)
	}
	for k := range st.heaps {
		m["h:"+k] = j.x.heap(st, k)
	}
	for k, t := range st.ghost {
		m["g:"+k] = t
	}
	for k, v := range st.ghv {
		if _, ok := j.st0.ghv[k]; ok {
			mapVal(v, "v:"+k, put)
		}
	}
	m["alloc"] = st.alloc
	return m
}

func (j *loopJob) shapes(st *State, vals []Val) map[string]string {
	m := map[string]string{}
	for i, v := range vals {
		m["p:"+j.names[i]+fmt.Sprintf("#%d", i)] = shape(v)
	}
	for _, id := range sortedCells(j.st0.cells) {
		m[fmt.Sprintf("c:%d", id)] = shape(st.cells[id])
	}
	for k := range j.st0.ghv {
		m["v:"+k] = shape(st.ghv[k])
	}
	return m
}

func (x *X) cellType(id int, v Val) types.Type {
	if s, ok := v.(*VStruct); ok {
		return s.typ
	}
	return x.cellTyp[id]
}

// havoc replaces the modified components of a value.
func (j *loopJob) havoc(st *State, v Val, t types.Type, name string) Val {
	x := j.x
	short := name
	if i := strings.IndexByte(short, ':'); i >= 0 {
		short = short[i+1:]
	}
	switch v := v.(type) {
	case *Term:
		if !j.mod[name] {
			return v
		}
		var lo, hi *big.Int
		if t != nil {
			if it, ok := typeBits(t); ok {
				lo, hi = it.min(), it.max()
			}
		}
		f := Fresh(short, v.sort, lo, hi)
		if v.sort == SSeq {
			if t != nil {
				st.assume(Le(SLen(f), IntB(maxLen)))
			}
		}
		return f
	case *VSlice:
		n := &VSlice{elem: v.elem, ref: v.ref, off: v.off, len: v.len, cap: v.cap}
		ch := false
		if j.mod[name+".ref"] {
			if isConstRef(v.ref) {
				unsup("a variable holds a package-level table on entry of a loop and another one later")
			}
			n.ref = Fresh(short+".ref", SInt, bi(0), nil)
			ch = true
		}
		if j.mod[name+".off"] {
			n.off = Fresh(short+".off", SInt, bi(0), maxLen)
			ch = true
		}
		if j.mod[name+".len"] {
			n.len = Fresh(short+".len", SInt, bi(0), maxLen)
			ch = true
		}
		if j.mod[name+".cap"] {
			n.cap = Fresh(short+".cap", SInt, bi(0), maxLen)
			ch = true
		}
		if ch {
			if isConstRef(n.ref) {
				st.assume(Le(n.len, n.cap))
				st.assume(Le(Add(n.off, n.cap), Int(int64(len(x.constArr[n.ref.n.Int64()].slots)))))
			} else {
				x.sliceFacts(st, n)
			}
		}
		return n
	case *VStruct:
		n := &VStruct{typ: v.typ}
		s := v.typ.Underlying().(*types.Struct)
		for i, f := range v.f {
			n.f = append(n.f, j.havoc(st, f, s.Field(i).Type(), name+"."+s.Field(i).Name()))
		}
		return n
	case *VIface:
		if v.dyn != nil || v.sym != "" {
			if v.val == nil {
				return v
			}
			return &VIface{id: v.id, dyn: v.dyn, val: j.havoc(st, v.val, v.dyn, name+".dyn"), sym: v.sym}
		}
		if !j.mod[name+".id"] {
			return v
		}
		return &VIface{id: Fresh(short+".id", SInt, bi(0), nil)}
	case *VTuple:
		n := &VTuple{}
		for i, f := range v.f {
			nm := fmt.Sprintf("%s.%d", name, i)
			ft, isT := f.(*Term)
			if isT && ft.sort == SInt && j.mod[nm] {
				// the position of an iteration over a string
				p := Fresh(short+".pos", SInt, bi(0), maxLen)
				if len(v.f) == 2 && i == 1 {
					if s, ok := v.f[0].(*Term); ok && s.sort == SSeq {
						st.assume(Le(p, SLen(s)))
					}
				}
				n.f = append(n.f, p)
				continue
			}
			n.f = append(n.f, j.havoc(st, f, nil, nm))
		}
		return n
	case *VFunc:
		if len(v.binds) == 0 {
			return v
		}
		n := &VFunc{fn: v.fn, pred: v.pred}
		for i, f := range v.binds {
			n.binds = append(n.binds, j.havoc(st, f, nil, fmt.Sprintf("%s.%d", name, i)))
		}
		return n
	case *PElem:
		n := &PElem{ref: v.ref, idx: v.idx, elem: v.elem, path: v.path}
		if j.mod[name+".ref"] || j.mod[name+".idx"] {
			unsup("a pointer into an array changes in a loop")
		}
		return n
	case *PArr:
		if j.mod[name+".ref"] {
			unsup("a pointer to an array changes in a loop")
		}
		return v
	}
	return v
}

func (j *loopJob) head() *lhead {
	x := j.x
	st := j.st0.clone()
	h := &lhead{st: st, h: map[string]*Term{}, e: map[string]*Term{}}
	if j.mod["alloc"] {
		st.alloc = Fresh("alloc", SInt, bi(1), nil)
		st.assume(Le(j.st0.alloc, st.alloc))
	}
	for i, v := range j.vals0 {
		h.vals = append(h.vals, j.havoc(st, v, j.typs[i], "p:"+j.names[i]+fmt.Sprintf("#%d", i)))
	}
	for _, id := range sortedCells(j.st0.cells) {
		v := j.st0.cells[id]
		st.cells[id] = j.havoc(st, v, x.cellType(id, v), fmt.Sprintf("c:%d", id))
	}
	var hs []string
	for n := range j.mod {
		if strings.HasPrefix(n, "h:") {
			hs = append(hs, n[2:])
		}
	}
	sort.Strings(hs)
	for _, k := range hs {
		x.heap(j.st0, k)
		st.heaps[k] = Fresh(k, SHeap, nil, nil)
	}
	for _, k := range sortedKeys(j.st0.ghost) {
		if j.mod["g:"+k] {
			t := j.st0.ghost[k]
			st.ghost[k] = Fresh("ghost."+k, t.sort, nil, nil)
		}
	}
	var vs []string
	for k := range j.st0.ghv {
		vs = append(vs, k)
	}
	sort.Strings(vs)
	for _, k := range vs {
		st.ghv[k] = j.havoc(st, j.st0.ghv[k], nil, "v:"+k)
	}
	hc, ec := j.comps(st, h.vals), j.comps(j.st0, j.vals0)
	for n := range j.mod {
		h.ord = append(h.ord, n)
	}
	sort.Strings(h.ord)
	for _, n := range h.ord {
		if hc[n] == nil || ec[n] == nil {
			unsup("component %s of a loop", n)
		}
		h.h[n], h.e[n] = hc[n], ec[n]
	}
	return h
}

// at instantiates a formula over the head at another state.
func (j *loopJob) at(h *lhead, t *Term, st *State, vals []Val) *Term {
	c := j.comps(st, vals)
	m := map[*Term]*Term{}
	for _, n := range h.ord {
		v := c[n]
		if v == nil {
			v = h.h[n]
			if strings.HasPrefix(n, "h:") {
				v = j.x.heap(st, n[2:])
			}
		}
		m[h.h[n]] = v
	}
	return subst(t, m)
}

type backEdge struct {
	st   *State
	vals []Val
}

// dry runs the body quietly and collects the states at the back edges.
func (j *loopJob) dry(h *lhead, inv []cand) []backEdge {
	st := h.st.clone()
	for _, c := range inv {
		st.assume(c.t)
	}
	var bs []backEdge
	j.x.quiet++
	j.run(st, h.vals, true, func(st *State, vals []Val) {
		if !st.dead {
			bs = append(bs, backEdge{st, vals})
		}
	})
	j.x.quiet--
	return bs
}

func (j *loopJob) infer() {
	x := j.x
	x.loopDepth++
	depth := x.loopDepth
	defer func() { x.loopDepth = depth - 1 }()
	if depth > 8 {
		unsup("loops nested too deeply")
	}
	dbg("enter loop %s", j.short())
	j.mod = map[string]bool{}
	sh0 := j.shapes(j.st0, j.vals0)
	var bs []backEdge
	var h *lhead
	rough := false // inner loops have been passed over
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop: no fixed point of the modified variables")
		}
		h = j.head()
		hc := j.comps(h.st, h.vals)
		n := x.cheapN
		x.cheap++
		bs = j.dry(h, nil)
		x.cheap--
		rough = x.cheapN > n
		changed := false
		for _, b := range bs {
			for n, s := range j.shapes(b.st, b.vals) {
				if s != sh0[n] {
					unsup("loop: %s changes from %s to %s", n, sh0[n], s)
				}
			}
			for n, t := range j.comps(b.st, b.vals) {
				o := hc[n]
				if o == nil {
					if strings.HasPrefix(n, "h:") && t == j.x.heap(h.st, n[2:]) {
						continue
					}
					if !strings.HasPrefix(n, "h:") {
						continue
					}
				}
				if o != t && !j.mod[n] {
					j.mod[n] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	dbg("loop %s: modifies %v, %d back edges", j.short(), h.ord, len(bs))
	if x.cheap > 0 {
		x.cheapN++
		j.run(h.st.clone(), h.vals, false, func(*State, []Val) {})
		return
	}
	cands := j.candidates(h)
	if j.extra != nil {
		cands = append(cands, j.extra(j, h)...)
	}
	if j.memory {
		ts := x.templates(j, h)
		for i := range ts {
			ts[i].tmpl = true
		}
		cands = append(cands, ts...)
	}
	cands = dedup(cands)
	if x.opt != nil && x.quiet > 0 {
		if w := x.opt.prev[j.key]; w != nil {
			var cs []cand
			for _, c := range cands {
				if w[c.name] {
					cs = append(cs, c)
				}
			}
			cands = cs
		}
	}
	if w := x.warm[j.key]; w != nil && x.quiet == 0 {
		// the last inference for this loop was under the same invariants of
		// the loops around it
		var cs []cand
		for _, c := range cands {
			if w[c.name] {
				cs = append(cs, c)
			}
		}
		cands = cs
	}
	// on entry
	entry := func(cs []cand) []bool {
		ok := make([]bool, len(cs))
		hyps := j.st0.hyps()
		all := &qreq{hyps: hyps}
		reqs := []*qreq{all}
		var ix []int
		for i, c := range cs {
			g := j.at(h, c.t, j.st0, j.vals0)
			if c.tmpl { // alone: others bring in axioms it does not need
				q := &qreq{hyps: hyps, goals: []*Term{g}}
				reqs = append(reqs, q)
				i := i
				defer func() { ok[i] = q.out[0] }()
				continue
			}
			all.goals = append(all.goals, g)
			ix = append(ix, i)
		}
		quickMulti(reqs, x)
		for k, i := range ix {
			ok[i] = all.out[k]
		}
		return ok
	}
	n0 := len(cands)
	ok := entry(cands)
	for i, c := range cands {
		if !ok[i] {
			j.dropped(&c, &qreq{hyps: j.st0.hyps(), goals: []*Term{j.at(h, c.t, j.st0, j.vals0)}}, 0, -1)
		}
	}
	all := keep(cands, ok)
	n1 := len(all)
	cands = nil // an inductive set
	optimistic := rough && j.object || x.opt != nil && x.opt.prev[j.key] != nil
	if optimistic {
		cands = j.descend(h, all)
	} else if x.own && x.quiet == 0 && x.warm[j.key] != nil && x.optWarm[j.key] {
		// checked below
		cands, optimistic = all, true
	}
	scalGain := true
	for stage := 0; !optimistic; stage++ {
		if stage > 12 {
			unsup("loop: no stable invariant")
		}
		if stage > 0 {
			bs = j.dry(h, cands)
		}
		var base, scal, tmpl []cand
		in := map[*Term]bool{}
		for _, c := range cands {
			in[c.t] = true
		}
		for _, c := range all {
			switch {
			case in[c.t]:
				base = append(base, c)
				scal = append(scal, c)
			case c.tmpl:
				tmpl = append(tmpl, c)
			default:
				scal = append(scal, c)
			}
		}
		next := base
		if stage < 2 || scalGain { // few scalars follow from templates
			next = j.houdini(h, bs, base, scal)
		}
		scalGain = len(next) > len(base)
		next = append(next[:len(next):len(next)], j.alone(h, bs, next, tmpl)...)
		dbg("stage %d of %s: %d back edges, %d of %d candidates", stage, j.short(), len(bs), len(next), len(all))
		if len(next) == len(cands) && !(rough && stage == 0) {
			break
		}
		cands = next
		if len(cands) == len(all) {
			break
		}
	}
	if x.quiet > 0 {
		w := map[string]bool{}
		for _, c := range cands {
			w[c.name] = true
		}
		x.warm[j.key] = w
		x.optWarm[j.key] = x.opt != nil
		if x.opt != nil {
			if x.opt.cur[j.key] == nil {
				x.opt.cur[j.key] = map[string]bool{}
			}
			for n := range w {
				x.opt.cur[j.key][n] = true
			}
		}
	}
	if trace >= 2 {
		for _, c := range all {
			in := false
			for _, d := range cands {
				in = in || d.t == c.t
			}
			if !in {
				dbg("   drop %s", c.name)
			}
		}
	}
	dbg("loop %s: %d candidates, %d on entry, %d invariant, quiet %d", j.short(), n0, n1, len(cands), x.quiet)
	if trace >= 2 {
		for _, c := range cands {
			dbg("   inv %s", c.name)
		}
	}
	st := h.st.clone()
	for _, c := range cands {
		st.assume(c.t)
	}
	if x.quiet > 0 {
		j.run(st, h.vals, false, func(*State, []Val) {})
		return
	}
	// obligations
	var invs []string
	for _, c := range cands {
		invs = append(invs, c.name)
		j.done(j.st0, "invariant", c.name+" (on entry)", "unsat")
	}
	x.loopsSeen[x.P.pos(j.pos)+" in "+x.unit] = strings.Join(invs, "; ")
	var ms []measureEdge
	j.run(st, h.vals, false, func(s *State, vals []Val) {
		if s.dead {
			return
		}
		gs := make([]*Term, len(cands))
		for i, c := range cands {
			gs[i] = j.at(h, c.t, s, vals)
		}
		for i, r := range x.quick(s, gs) {
			if r {
				j.done(s, "invariant", cands[i].name+" (preserved)", "unsat")
			} else {
				x.record(s, "invariant", j.pos, gs[i], cands[i].name+" (preserved)")
			}
		}
		ms = append(ms, measureEdge{s, vals})
	})
	if j.measure {
		j.terminates(h, ms)
	}
}

// optRound is the state of descend: what was inferred for the loops inside in
// the last round and in this one.
type optRound struct{ prev, cur map[string]map[string]bool }

// descend finds an inductive subset of all: the loops inside are dealt with
// under the assumption of everything which is not yet known to be wrong.
func (j *loopJob) descend(h *lhead, all []cand) []cand {
	x := j.x
	if x.opt == nil {
		x.opt = &optRound{}
		defer func() { x.opt = nil }()
	}
	opt := x.opt
	cands := all
	for round := 0; len(cands) > 0; round++ {
		if j.object {
			opt.prev, opt.cur = opt.cur, map[string]map[string]bool{}
		}
		bs := j.dry(h, cands)
		ok := make([]bool, len(cands))
		for i := range ok {
			ok[i] = true
		}
		for lo := 0; lo < len(bs); {
			hi := len(bs)
			if lo == 0 {
				hi = 1
			}
			var reqs []*qreq
			var ixs [][]int
			add := func(b backEdge, ix []int) {
				q := &qreq{hyps: b.st.hyps()}
				for _, i := range ix {
					q.goals = append(q.goals, j.at(h, cands[i].t, b.st, b.vals))
				}
				reqs, ixs = append(reqs, q), append(ixs, ix)
			}
			var scal []int
			for i, c := range cands {
				if ok[i] && !c.tmpl {
					scal = append(scal, i)
				}
			}
			for _, b := range bs[lo:hi] {
				add(b, scal)
				for i, c := range cands {
					if ok[i] && c.tmpl {
						add(b, []int{i})
					}
				}
			}
			quickMulti(reqs, x)
			for k, q := range reqs {
				for l, r := range q.out {
					if !r && ok[ixs[k][l]] {
						ok[ixs[k][l]] = false
						j.dropped(&cands[ixs[k][l]], q, l, k)
					}
				}
			}
			lo = hi
		}
		next := keep(cands, ok)
		dbg("descent %d of %s: %d back edges, %d of %d candidates", round, j.short(), len(bs), len(next), len(cands))
		if trace >= 2 {
			for i, c := range cands {
				if !ok[i] {
					dbg("   out %s", c.name)
				}
			}
		}
		if len(next) == len(cands) {
			break
		}
		cands = next
	}
	return cands
}

// houdini finds the largest inductive subset of all which includes base,
// which is known to be inductive, with respect to the given back edges.
func (j *loopJob) houdini(h *lhead, bs []backEdge, base, all []cand) []cand {
	x := j.x
	fixed := map[*Term]bool{}
	for _, c := range base {
		fixed[c.t] = true
	}
	alive := make([]bool, len(all))
	for i := range alive {
		alive[i] = true
	}
	for round := 0; ; round++ {
		changed := false
		var hs []*Term
		for i, c := range all {
			if alive[i] {
				hs = append(hs, c.t)
			}
		}
		for lo := 0; lo < len(bs); {
			hi := len(bs)
			if lo == 0 {
				hi = 1
			}
			var reqs []*qreq
			var ixs [][]int
			for bi := lo; bi < hi; bi++ {
				b := bs[bi]
				st := j.with(b.st, hs)
				if st.dead {
					continue
				}
				q := &qreq{hyps: st.hyps()}
				var ix []int
				for i, c := range all {
					if alive[i] && !fixed[c.t] {
						q.goals = append(q.goals, j.at(h, c.t, b.st, b.vals))
						ix = append(ix, i)
					}
				}
				reqs = append(reqs, q)
				ixs = append(ixs, ix)
			}
			quickMulti(reqs, x)
			for n, q := range reqs {
				for k, r := range q.out {
					if !r {
						alive[ixs[n][k]] = false
						changed = true
						j.dropped(&all[ixs[n][k]], q, k, lo+n)
					}
				}
			}
			lo = hi
		}
		dbg("  round %d of %s", round, j.short())
		if !changed {
			break
		}
	}
	return keep(all, alive)
}

// alone finds the candidates which are inductive each by itself, given base.
func (j *loopJob) alone(h *lhead, bs []backEdge, base, cs []cand) []cand {
	var hs []*Term
	for _, c := range base {
		hs = append(hs, c.t)
	}
	for lo := 0; lo < len(bs) && len(cs) > 0; {
		hi := len(bs)
		if lo == 0 {
			hi = 1
		}
		var reqs []*qreq
		var ix []int
		for i, c := range cs {
			for bi := lo; bi < hi; bi++ {
				b := bs[bi]
				st := j.with(b.st, append(append([]*Term{}, hs...), c.t))
				if st.dead {
					continue
				}
				reqs = append(reqs, &qreq{hyps: st.hyps(), goals: []*Term{j.at(h, c.t, b.st, b.vals)}})
				ix = append(ix, i)
			}
		}
		quickMulti(reqs, j.x)
		ok := make([]bool, len(cs))
		for i := range ok {
			ok[i] = true
		}
		for n, q := range reqs {
			if !q.out[0] {
				ok[ix[n]] = false
				j.dropped(&cs[ix[n]], q, 0, n)
			}
		}
		cs = keep(cs, ok)
		lo = hi
	}
	return cs
}

func (j *loopJob) with(st *State, hs []*Term) *State {
	st = st.clone()
	for _, t := range hs {
		st.assume(t)
	}
	return st
}

func (j *loopJob) dropped(c *cand, q *qreq, k, edge int) {
	if d := os.Getenv("VC_DROP"); d != "" && strings.Contains(c.name, d) {
		dropN++
		f := fmt.Sprintf("/tmp/drop-%d.smt2", dropN)
		os.WriteFile(f, []byte((&query{hyps: q.hyps, goals: q.goals[k : k+1], reveal: j.x.reveal}).render("z3-new", 0, quickTimeout).text), 0o644)
		dbg("   %s: edge %d: %s", f, edge, c.name)
	}
}

var dropN int

func (j *loopJob) done(st *State, kind, what, status string) {
	o := &Obl{Kind: kind, Pos: j.x.P.pos(j.pos), Unit: j.x.unit, goal: True, done: true}
	if len(j.x.stack) > 0 {
		o.Fn = j.x.stack[len(j.x.stack)-1].String()
	}
	o.Name = fmt.Sprintf("%s/%s@%s: %s", j.x.unit, kind, o.Pos, what)
	o.res = result{status: status, solver: "z3-new"}
	j.x.obls = append(j.x.obls, o)
}

type measureEdge = backEdge

// terminates finds a lexicographic measure which decreases on every back
// edge.
func (j *loopJob) terminates(h *lhead, es []measureEdge) {
	x := j.x
	ms := j.measures(h)
	left := es
	var used []string
	ask := func(e measureEdge, gs []*Term) *qreq {
		return &qreq{hyps: e.st.hyps(), goals: gs, rlimit: quickRlimit / 3, timeout: quickTimeout}
	}
	decreases := func(e measureEdge, m cand) *Term {
		b := j.at(h, m.t, e.st, e.vals)
		return And(Lt(b, m.t), Le(Int(0), m.t))
	}
	// one measure for all edges?
	var single []cand
	for _, m := range ms {
		if strings.HasPrefix(m.name, "[") {
			break
		}
		single = append(single, m)
	}
	for _, e := range es {
		if len(single) == 0 {
			break
		}
		var gs []*Term
		for _, m := range single {
			gs = append(gs, decreases(e, m))
		}
		q := ask(e, gs)
		quickMulti([]*qreq{q}, x)
		single = keep(single, q.out)
	}
	if len(single) > 0 {
		used = append(used, single[0].name)
		left = nil
	}
	// of those which do not increase on any edge left, one which decreases on
	// most of them
	type key struct {
		m, e int
		dec  bool
	}
	known := map[key]bool{}
	todo := map[int]bool{}
	for k := range es {
		todo[k] = true
	}
	solve := func(ks []key) {
		by := map[int][]key{}
		for _, k := range ks {
			if _, ok := known[k]; !ok {
				by[k.e] = append(by[k.e], k)
			}
		}
		var reqs []*qreq
		var its [][]key
		for e := range es {
			if len(by[e]) == 0 {
				continue
			}
			var gs []*Term
			for _, k := range by[e] {
				if k.dec {
					gs = append(gs, decreases(es[e], ms[k.m]))
				} else {
					gs = append(gs, Le(j.at(h, ms[k.m].t, es[e].st, es[e].vals), ms[k.m].t))
				}
			}
			reqs, its = append(reqs, ask(es[e], gs)), append(its, by[e])
		}
		quickMulti(reqs, x)
		for i, q := range reqs {
			for l, r := range q.out {
				known[its[i][l]] = r
			}
		}
	}
	for len(left) > 0 {
		var ok []int
		for i := range ms {
			ok = append(ok, i)
		}
		for e := range es {
			if !todo[e] {
				continue
			}
			var ks []key
			for _, i := range ok {
				ks = append(ks, key{i, e, false})
			}
			solve(ks)
			var next []int
			for _, i := range ok {
				if known[key{i, e, false}] {
					next = append(next, i)
				}
			}
			ok = next
		}
		var ks []key
		for _, i := range ok {
			for e := range todo {
				ks = append(ks, key{i, e, true})
			}
		}
		solve(ks)
		best, bestN := -1, 0
		for _, i := range ok {
			n := 0
			for e := range todo {
				if known[key{i, e, true}] {
					n++
				}
			}
			if n > bestN {
				best, bestN = i, n
			}
		}
		if bestN == 0 {
			break
		}
		used = append(used, ms[best].name)
		left = nil
		for e := range es {
			if todo[e] && known[key{best, e, true}] {
				delete(todo, e)
			}
			if todo[e] {
				left = append(left, es[e])
			}
		}
	}
	if len(left) == 0 {
		j.done(nil, "decreases", "the loop ends ("+strings.Join(used, ", ")+")", "unsat")
		return
	}
	for _, e := range left {
		o := x.record(e.st, "decreases", j.pos, False, "the loop ends (no measure found)")
		o.done = true
		o.res = result{status: "unknown", solver: "z3-new", reason: "no measure found"}
	}
}

func keep(cs []cand, ok []bool) []cand {
	var out []cand
	for i, c := range cs {
		if ok[i] {
			out = append(out, c)
		}
	}
	return out
}

func dedup(cs []cand) []cand {
	seen := map[*Term]bool{True: true}
	var out []cand
	for _, c := range cs {
		if c.t != nil && !seen[c.t] {
			seen[c.t] = true
			out = append(out, c)
		}
	}
	return out
}

// ---- atoms of candidates

type sliceAtom struct {
	name string
	h, e *VSlice
	mod  bool
}
type termAtom struct {
	name string
	h, e *Term
	mod  bool
}

type atoms struct {
	slices []sliceAtom
	ints   []termAtom // integers which change
	fixed  []termAtom // integers which do not
	bools  []termAtom
	seqs   []termAtom
	errs   []termAtom
	ghosts []termAtom
	iters  []iterAtom
}
type iterAtom struct {
	s    *Term
	h, e *Term
}

func (j *loopJob) atoms(h *lhead) *atoms {
	a := &atoms{}
	var walk func(name string, v, w Val)
	seenS := map[string]bool{}
	walk = func(name string, v, w Val) {
		short := name
		switch v := v.(type) {
		case *Term:
			e, ok := w.(*Term)
			if !ok {
				return
			}
			t := termAtom{short, v, e, v != e}
			switch v.sort {
			case SInt:
				if t.mod {
					a.ints = append(a.ints, t)
				} else if v.k != KInt {
					a.fixed = append(a.fixed, t)
				}
			case SBool:
				if t.mod {
					a.bools = append(a.bools, t)
				}
			case SSeq:
				a.seqs = append(a.seqs, t)
			}
		case *VSlice:
			e, ok := w.(*VSlice)
			if !ok || v.lit != nil {
				return
			}
			k := fmt.Sprint(v.ref.id, v.off.id, v.len.id, v.cap.id)
			if seenS[k] {
				return
			}
			seenS[k] = true
			a.slices = append(a.slices, sliceAtom{short, v, e, v.ref != e.ref || v.off != e.off || v.len != e.len || v.cap != e.cap})
		case *VStruct:
			e, ok := w.(*VStruct)
			if !ok {
				return
			}
			st := v.typ.Underlying().(*types.Struct)
			for i := range v.f {
				walk(name+"."+st.Field(i).Name(), v.f[i], e.f[i])
			}
		case *VIface:
			e, ok := w.(*VIface)
			if !ok {
				return
			}
			if v.val != nil {
				if e.val != nil {
					walk(name, v.val, e.val)
				}
				return
			}
			if v.id != e.id {
				a.errs = append(a.errs, termAtom{short, v.id, e.id, true})
			}
		case *VTuple:
			e, ok := w.(*VTuple)
			if !ok {
				return
			}
			if len(v.f) == 2 {
				s, ok1 := v.f[0].(*Term)
				p, ok2 := v.f[1].(*Term)
				if ok1 && ok2 && s.sort == SSeq && p.sort == SInt {
					a.iters = append(a.iters, iterAtom{s, p, e.f[1].(*Term)})
					a.seqs = append(a.seqs, termAtom{name, s, e.f[0].(*Term), false})
					if p != e.f[1].(*Term) {
						a.ints = append(a.ints, termAtom{name + ".pos", p, e.f[1].(*Term), true})
					}
					return
				}
			}
			for i := range v.f {
				walk(fmt.Sprintf("%s.%d", name, i), v.f[i], e.f[i])
			}
		}
	}
	for i, v := range h.vals {
		n := j.names[i]
		for k, o := range j.names {
			if o == n && k != i {
				n = fmt.Sprintf("%s#%d", j.names[i], i)
				break
			}
		}
		walk(n, v, j.vals0[i])
	}
	for _, id := range sortedCells(j.st0.cells) {
		walk(fmt.Sprintf("cell%d", id), h.st.cells[id], j.st0.cells[id])
	}
	for i, v := range j.fixed {
		walk(fmt.Sprintf("fixed%d", i), v, v)
	}
	var vs []string
	for k := range j.st0.ghv {
		vs = append(vs, k)
	}
	sort.Strings(vs)
	for _, k := range vs {
		walk("ghost."+k, h.st.ghv[k], j.st0.ghv[k])
	}
	for _, k := range sortedKeys(j.st0.ghost) {
		t, e := h.st.ghost[k], j.st0.ghost[k]
		if t.sort == SInt && t != e {
			a.ghosts = append(a.ghosts, termAtom{"ghost." + k, t, e, true})
		}
		if t.sort == SSeq && t != e {
			a.seqs = append(a.seqs, termAtom{"ghost." + k, t, e, true})
		}
	}
	return a
}

func (j *loopJob) candidates(h *lhead) []cand {
	x := j.x
	a := j.atoms(h)
	var out []cand
	add := func(t *Term, f string, args ...interface{}) {
		out = append(out, cand{name: fmt.Sprintf(f, args...), t: t})
	}
	for _, f := range x.preds {
		if f.dom == nil {
			continue
		}
		for _, p := range a.ints {
			add(Or(Le(p.h, Int(0)), Not(App(f.pred, SBool, Sub(p.h, Int(1))))), "the predicate is false before %s", p.name)
			add(Or(Ge(p.h, f.dom), App(f.pred, SBool, p.h)), "the predicate is true at %s", p.name)
			add(Or(Le(p.h, Int(0)), Le(p.h, f.dom)), "%s is at most the range", p.name)
			for _, q := range a.ints {
				if p.h != q.h {
					add(Or(Le(f.dom, Int(0)), Le(p.h, q.h)), "%s <= %s unless the range is empty", p.name, q.name)
				}
			}
		}
	}
	type lenT struct {
		name string
		t    *Term
	}
	var lens []lenT
	for _, s := range a.slices {
		lens = append(lens, lenT{"len(" + s.name + ")", s.h.len})
		if s.h.len != s.e.len {
			lens = append(lens, lenT{"old len(" + s.name + ")", s.e.len})
		}
		if s.h.cap != s.h.len && s.h.cap == s.e.cap {
			lens = append(lens, lenT{"cap(" + s.name + ")", s.h.cap})
		}
	}
	for _, s := range a.seqs {
		lens = append(lens, lenT{"len(" + s.name + ")", SLen(s.h)})
		if s.h != s.e {
			lens = append(lens, lenT{"old len(" + s.name + ")", SLen(s.e)})
		}
	}
	for _, f := range a.fixed {
		lens = append(lens, lenT{f.name, f.h})
	}
	seenL := map[*Term]bool{}
	var ls []lenT
	for _, l := range lens {
		if !seenL[l.t] && l.t.k != KInt {
			seenL[l.t] = true
			ls = append(ls, l)
		}
	}
	lens = ls
	var ks []*big.Int
	for _, k := range j.consts {
		if k.Sign() >= 0 && k.Cmp(bi(1<<32)) < 0 {
			ks = append(ks, k)
		}
	}
	for i, p := range a.ints {
		add(Le(Int(-1), p.h), "%s >= -1", p.name)
		add(Le(Int(0), p.h), "%s >= 0", p.name)
		add(Le(Int(1), p.h), "%s >= 1", p.name)
		add(Le(p.e, p.h), "%s >= old", p.name)
		add(Le(p.h, p.e), "%s <= old", p.name)
		for _, k := range ks {
			add(Le(p.h, IntB(k)), "%s <= %s", p.name, k)
			add(Le(IntB(k), p.h), "%s >= %s", p.name, k)
			add(Lt(p.h, IntB(k)), "%s < %s", p.name, k)
		}
		for _, l := range lens {
			add(Le(p.h, l.t), "%s <= %s", p.name, l.name)
			add(Lt(p.h, l.t), "%s < %s", p.name, l.name)
			add(Le(l.t, p.h), "%s >= %s", p.name, l.name)
			add(Lt(l.t, p.h), "%s > %s", p.name, l.name)
		}
		for _, q := range a.ints[i+1:] {
			add(Le(p.h, q.h), "%s <= %s", p.name, q.name)
			add(Lt(p.h, q.h), "%s < %s", p.name, q.name)
			add(Le(q.h, p.h), "%s >= %s", p.name, q.name)
			add(Lt(q.h, p.h), "%s > %s", p.name, q.name)
			add(Eq(Sub(p.h, q.h), Sub(p.e, q.e)), "%s - %s is constant", p.name, q.name)
			add(Eq(Add(p.h, q.h), Add(p.e, q.e)), "%s + %s is constant", p.name, q.name)
		}
		for _, s := range a.slices {
			if s.h.len != s.e.len {
				add(Eq(Add(p.h, s.h.len), Add(p.e, s.e.len)), "%s + len(%s) is constant", p.name, s.name)
				add(Eq(Sub(p.h, s.h.len), Sub(p.e, s.e.len)), "%s - len(%s) is constant", p.name, s.name)
			}
		}
		for _, s := range a.seqs {
			if s.h != s.e {
				add(Eq(Add(p.h, SLen(s.h)), Add(p.e, SLen(s.e))), "%s + len(%s) is constant", p.name, s.name)
				add(Eq(Sub(p.h, SLen(s.h)), Sub(p.e, SLen(s.e))), "%s - len(%s) is constant", p.name, s.name)
			}
		}
	}
	for _, p := range a.bools {
		add(p.h, "%s", p.name)
		add(Not(p.h), "!%s", p.name)
	}
	for _, p := range a.errs {
		add(Eq(p.h, Int(0)), "%s == nil", p.name)
		add(Ne(p.h, Int(0)), "%s != nil", p.name)
	}
	alloc0 := j.st0.alloc
	for _, s := range a.slices {
		if !s.mod {
			continue
		}
		add(Eq(s.h.ref, s.e.ref), "%s: same array", s.name)
		add(Eq(s.h.off, s.e.off), "%s: same offset", s.name)
		add(Le(s.h.len, s.e.len), "len(%s) <= old", s.name)
		add(Le(s.e.len, s.h.len), "len(%s) >= old", s.name)
		add(Eq(s.h.len, Int(0)), "len(%s) == 0", s.name)
		add(Eq(s.h.off, Int(0)), "%s: offset 0", s.name)
		for k := int64(1); k <= 4; k++ {
			add(Le(s.h.len, Int(k)), "len(%s) <= %d", s.name, k)
		}
		add(Eq(Add(s.h.off, s.h.len), Add(s.e.off, s.e.len)), "%s: same end", s.name)
		add(Eq(Add(s.h.off, s.h.cap), Add(s.e.off, s.e.cap)), "%s: same end of capacity", s.name)
		add(Eq(s.h.cap, s.e.cap), "cap(%s) == old", s.name)
		add(Le(s.e.cap, s.h.cap), "cap(%s) >= old", s.name)
		add(Or(Eq(s.h.cap, Int(0)), Le(x.allocE, s.h.ref)), "%s is new since the entry of the function", s.name)
		add(Or(Eq(s.h.cap, Int(0)), Le(alloc0, s.h.ref)), "%s is new since the entry of the loop", s.name)
		add(Or(And(Eq(s.h.ref, s.e.ref), Eq(s.h.off, s.e.off)), Le(alloc0, s.h.ref)), "%s is old or new since the entry of the loop", s.name)
		if x.grows() {
			add(Or(And(Eq(s.h.ref, s.e.ref), Eq(s.h.off, s.e.off), Eq(s.h.cap, s.e.cap)), And(Le(alloc0, s.h.ref), Eq(s.h.off, Int(0)))), "%s is the same array or new since the entry of the loop", s.name)
		}
		if x.own {
			add(Or(Eq(s.h.cap, Int(0)), x.ownT(s.h.ref)), "%s is owned", s.name)
		}
	}
	for i, s := range a.slices {
		for _, t := range a.slices[i+1:] {
			if !s.mod && !t.mod {
				continue
			}
			if k1, _, ok := heapKey(s.h.elem, nil); !ok {
				continue
			} else if k2, _, _ := heapKey(t.h.elem, nil); k1 != k2 {
				continue
			}
			add(Or(Ne(s.h.ref, t.h.ref), Eq(s.h.cap, Int(0)), Eq(t.h.cap, Int(0))), "%s and %s are distinct", s.name, t.name)
		}
	}
	// frames
	for _, n := range h.ord {
		if !strings.HasPrefix(n, "h:") {
			continue
		}
		hh, he := h.h[n], h.e[n]
		r, lo, hi, i := BVar("r", SInt), BVar("lo", SInt), BVar("hi", SInt), BVar("i", SInt)
		frame := func(what string, cond *Term) {
			v1, v0 := HSub(hh, r, lo, hi), HSub(he, r, lo, hi)
			g1, g0 := HGet(hh, r, i), HGet(he, r, i)
			add(And(Forall([]*Term{r, lo, hi}, Imp(cond, Eq(v1, v0)), []*Term{v1}),
				Forall([]*Term{r, i}, Imp(cond, Eq(g1, g0)), []*Term{g1})), "%s unchanged: %s", n[2:], what)
		}
		frame("arrays from before the loop", Lt(r, alloc0))
		if x.own {
			env := And(Lt(r, alloc0), Not(x.ownT(r)))
			frame("arrays of the caller", env)
			for _, s := range a.slices {
				if k, _, ok := heapKey(s.e.elem, nil); ok && "h:"+k == n && !isConstRef(s.e.ref) && !s.mod {
					frame("arrays of the caller except "+s.name, And(env, Ne(r, s.e.ref)))
				}
			}
		}
		if x.allocE != nil && x.allocE != alloc0 {
			frame("arrays from before the function", Lt(r, x.allocE))
		}
		var ne []*Term
		var nm []string
		for _, s := range a.slices {
			if k, _, ok := heapKey(s.e.elem, nil); ok && "h:"+k == n && !isConstRef(s.e.ref) {
				c := And(Lt(r, alloc0), Ne(r, s.e.ref))
				frame("arrays from before the loop except "+s.name, c)
				ne = append(ne, Ne(r, s.e.ref))
				nm = append(nm, s.name)
			}
		}
		if len(ne) > 1 {
			frame("arrays from before the loop except "+strings.Join(nm, ", "), And(append(ne, Lt(r, alloc0))...))
		}
		for _, s := range a.slices {
			if k, _, ok := heapKey(s.e.elem, nil); !ok || "h:"+k != n || isConstRef(s.e.ref) || isConstRef(s.h.ref) {
				continue
			}
			end := Add(s.e.off, s.e.len)
			if s.mod && x.grows() {
				g1, g0 := HGet(hh, s.e.ref, i), HGet(he, s.e.ref, i)
				add(Forall([]*Term{i}, Imp(Or(Lt(i, s.e.off), Le(Add(s.e.off, s.e.cap), i)), Eq(g1, g0)), []*Term{g1}), "%s unchanged outside its capacity", s.name)
			}
			if !s.mod {
				g1, g0 := HGet(hh, s.e.ref, i), HGet(he, s.e.ref, i)
				add(Forall([]*Term{i}, Imp(Or(Lt(i, s.e.off), Le(end, i)), Eq(g1, g0)), []*Term{g1}), "%s unchanged outside its length", s.name)
			}
			add(Eq(HSub(hh, s.e.ref, s.e.off, end), HSub(he, s.e.ref, s.e.off, end)), "the contents of %s on entry", s.name)
			if s.mod {
				endh := Add(s.h.off, s.h.len)
				add(Imp(Le(s.e.len, s.h.len), Eq(HSub(hh, s.h.ref, s.h.off, Add(s.h.off, s.e.len)), HSub(he, s.e.ref, s.e.off, end))), "%s begins with its contents on entry", s.name)
				add(Eq(HSub(hh, s.h.ref, s.h.off, endh), HSub(he, s.h.ref, s.h.off, endh)), "the contents of %s", s.name)
			} else {
				for _, p := range a.ints {
					for d := int64(0); d <= 1; d++ {
						if d == 1 && !(p.e.k == KInt && p.e.n.Sign() < 0) {
							continue
						}
						q := Add(p.h, Int(d))
						add(Eq(HSub(hh, s.e.ref, Add(s.e.off, q), end), HSub(he, s.e.ref, Add(s.e.off, q), end)), "%s from %s on is as on entry", s.name, p.name)
					}
				}
			}
		}
	}
	return out
}

func (j *loopJob) measures(h *lhead) []cand {
	a := j.atoms(h)
	var base []cand
	add := func(n string, t *Term) { base = append(base, cand{name: n, t: t}) }
	for _, s := range a.slices {
		if s.h.len != s.e.len {
			add("len("+s.name+")", s.h.len)
			add("4 - len("+s.name+")", Sub(Int(4), s.h.len))
		}
	}
	for _, s := range a.seqs {
		if s.h != s.e {
			add("len("+s.name+")", SLen(s.h))
		}
	}
	for _, it := range a.iters {
		add("rest of the string", Sub(SLen(it.s), it.h))
	}
	for i, p := range a.ints {
		add(p.name, p.h)
		for _, s := range a.slices {
			add("len("+s.name+") - "+p.name, Sub(s.h.len, p.h))
		}
		for _, s := range a.seqs {
			add("len("+s.name+") - "+p.name, Sub(SLen(s.h), p.h))
		}
		for _, f := range a.fixed {
			add(f.name+" - "+p.name, Sub(f.h, p.h))
		}
		for k, q := range a.ints {
			if k != i {
				add(q.name+" - "+p.name, Sub(q.h, p.h))
			}
		}
		for _, k := range j.consts {
			if k.Sign() > 0 {
				add(k.String()+" - "+p.name, Sub(IntB(k), p.h))
			}
		}
	}
	var flags []cand
	for _, b := range a.bools {
		flags = append(flags, cand{name: b.name, t: b.h})
	}
	for _, b := range a.errs {
		flags = append(flags, cand{name: b.name + " is nil", t: Eq(b.h, Int(0))})
	}
	for _, s := range a.slices {
		if s.h.len != s.e.len {
			flags = append(flags, cand{name: "len(" + s.name + ") is 0", t: Eq(s.h.len, Int(0))})
		}
	}
	out := append([]cand{}, base...)
	if len(flags) <= 6 {
		for _, f := range flags {
			out = append(out, cand{name: "[" + f.name + "]", t: Ite(f.t, Int(1), Int(0))}, cand{name: "[not " + f.name + "]", t: Ite(f.t, Int(0), Int(1))})
		}
		if len(base) <= 24 {
			for _, f := range flags {
				for _, b := range base {
					out = append(out, cand{name: b.name + " if " + f.name, t: Ite(f.t, b.t, Int(0))}, cand{name: b.name + " unless " + f.name, t: Ite(f.t, Int(0), b.t)})
				}
			}
		}
	}
	return out
}

func (j *loopJob) short() string { return j.key[strings.LastIndex(j.key, "/")+1:] }
