package main

import (
	"bytes"
	"context"
	_ "embed"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

//go:embed prelude.smt2
var prelude string

// FuncInfo declares a function symbol of the specification language.
type FuncInfo struct {
	Name   string
	Args   []Sort
	Ret    Sort
	Axioms []*Term // included in a query in which the symbol occurs
	Opaque []*Term // included only if the symbol is revealed
	order  int
}

var funcs = map[string]*FuncInfo{}

func declFunc(name string, ret Sort, args ...Sort) *FuncInfo {
	if f, ok := funcs[name]; ok {
		return f
	}
	f := &FuncInfo{Name: name, Args: args, Ret: ret, order: len(funcs)}
	funcs[name] = f
	return f
}

// condAxiom is an axiom (a proved lemma, a checked fact about a table) which
// is included in a query if all the symbols in need occur in it.
type condAxiom struct {
	name  string
	need  []string
	t     *Term
	local bool
}

var condAxioms []condAxiom

var builtinFuncs = map[string]bool{"sempty": true, "sunit": true, "scat": true, "slen": true, "sat": true, "stake": true, "sdrop": true, "sdiff": true, "hget": true, "hsub": true, "hwrite": true}

type query struct {
	hyps   []*Term
	goals  []*Term
	reveal map[string]bool
	vals   []*Term // terms whose values are wanted in a counterexample
}

type result struct {
	status string // unsat (goal proved), sat, unknown
	solver string
	model  map[*Term]*big.Int
	time   time.Duration
	reason string
}

func collect(ts []*Term, seen map[*Term]bool, f func(*Term)) {
	for _, t := range ts {
		if seen[t] {
			continue
		}
		seen[t] = true
		collect(t.args, seen, f)
		for _, p := range t.pats {
			collect(p, seen, f)
		}
		f(t)
	}
}

// build renders the shared part of a query and each of its goals.
func (q *query) build() (head string, goals []string, quant bool) {
	vars := map[*Term]bool{}
	syms := map[string]bool{}
	var asserts []*Term
	seen := map[*Term]bool{}
	usesSeq := false
	count := map[*Term]int{}
	visit := func(t *Term) {
		switch t.k {
		case KVar:
			vars[t] = true
		case KApp:
			syms[t.name] = true
			if _, ok := funcs[t.name]; !ok && !builtinFuncs[t.name] {
				var as []Sort
				for _, a := range t.args {
					as = append(as, a.sort)
				}
				declFunc(t.name, t.sort, as...)
			}
			if builtinFuncs[t.name] {
				usesSeq = true
			}
		}
		if t.sort == SSeq || t.sort == SHeap {
			usesSeq = true
		}
		if t.k == KForall {
			quant = true
		}
		for _, a := range t.args {
			count[a]++
		}
	}
	asserts = append(asserts, q.hyps...)
	collect(asserts, seen, visit)
	collect(q.goals, seen, visit)
	collect(q.vals, seen, visit)
	// closure over axioms
	done := map[*Term]bool{}
	var ax []*Term
	for {
		var add []*Term
		for s := range syms {
			if f := funcs[s]; f != nil {
				for _, a := range f.Axioms {
					if !done[a] {
						done[a] = true
						add = append(add, a)
					}
				}
				if q.reveal[s] {
					for _, a := range f.Opaque {
						if !done[a] {
							done[a] = true
							add = append(add, a)
						}
					}
				}
			}
		}
		for _, c := range condAxioms {
			if done[c.t] || c.local && !q.reveal[c.name] && !q.reveal["lemmas"] {
				continue
			}
			ok := true
			for _, n := range c.need {
				ok = ok && syms[n]
			}
			if ok {
				done[c.t] = true
				add = append(add, c.t)
			}
		}
		if len(add) == 0 {
			break
		}
		sort.Slice(add, func(i, j int) bool { return add[i].id < add[j].id })
		ax = append(ax, add...)
		collect(add, seen, visit)
	}
	var sb strings.Builder
	if usesSeq {
		quant = true
		sb.WriteString(prelude)
	}
	var fs []*FuncInfo
	for s := range syms {
		if f := funcs[s]; f != nil {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].order < fs[j].order })
	for _, f := range fs {
		fmt.Fprintf(&sb, "(declare-fun %s (", smtName(f.Name))
		for i, a := range f.Args {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(a.String())
		}
		fmt.Fprintf(&sb, ") %s)\n", f.Ret)
	}
	var vs []*Term
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtName(v.name), v.sort)
	}
	for _, v := range vs {
		if v.lo != nil {
			fmt.Fprintf(&sb, "(assert (<= %s %s))\n", smtInt(v.lo), smtName(v.name))
		}
		if v.hi != nil {
			fmt.Fprintf(&sb, "(assert (<= %s %s))\n", smtName(v.name), smtInt(v.hi))
		}
	}
	// name shared closed subterms
	p := &printer{names: map[*Term]string{}}
	var shared []*Term
	seen2 := map[*Term]bool{}
	all := append(append(append([]*Term{}, ax...), asserts...), q.goals...)
	collect(all, seen2, func(t *Term) {
		if t.hasBV || len(t.args) == 0 || count[t] < 2 {
			return
		}
		shared = append(shared, t)
	})
	for _, t := range shared {
		b := &strings.Builder{}
		p.body(b, t)
		n := fmt.Sprintf("$%d", t.id)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort, b.String())
		p.names[t] = n
	}
	for _, t := range append(ax, asserts...) {
		fmt.Fprintf(&sb, "(assert %s)\n", p.str(t))
	}
	for _, g := range q.goals {
		goals = append(goals, fmt.Sprintf("(assert (not %s))\n", p.str(g)))
	}
	return sb.String(), goals, quant
}

type solverCfg struct {
	name string
	cmd  func(timeout time.Duration) []string
	opts func(quant bool, rlimit int) string
}

var z3opts = func(quant bool, rlimit int) string {
	s := ""
	if quant {
		s += "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 1)\n"
	}
	if rlimit > 0 {
		s += fmt.Sprintf("(set-option :rlimit %d)\n", rlimit)
	}
	return s
}

var solvers = map[string]solverCfg{
	"z3-new": {"z3-new", func(t time.Duration) []string {
		return []string{"z3-new", "-in", "-smt2", "-memory:3000"}
	}, z3opts},
	"z3": {"z3", func(t time.Duration) []string {
		return []string{"z3", "-in", "-smt2", "-memory:3000"}
	}, z3opts},
	"cvc5": {"cvc5", func(t time.Duration) []string {
		return []string{"cvc5", "--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", t.Milliseconds()), "--lang=smt2", "-"}
	}, func(quant bool, rlimit int) string { return "(set-logic ALL)\n" }},
}

var (
	sem        = make(chan struct{}, 8)
	solverTime int64
	nQueries   int64
	byBackend  sync.Map
	dumpDir    = os.Getenv("VC_DUMP")
	dumpN      int64
	solverErrs int64
	qcache     sync.Map
)

// job is a rendered query; running it touches no terms and may be done
// concurrently.
type job struct {
	solver  string
	text    string
	head    string
	goals   []string
	n       int
	timeout time.Duration
	vals    []*Term
}

// render prepares a solver script with all goals of q.
func (q *query) render(solver string, rlimit int, timeout time.Duration) *job {
	head, goals, quant := q.build()
	cfg := solvers[solver]
	var sb strings.Builder
	sb.WriteString(cfg.opts(quant, rlimit))
	if solver != "cvc5" {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeout.Milliseconds())
	}
	sb.WriteString(head)
	var gv string
	if len(q.vals) > 0 {
		p := &printer{}
		gv = "(get-value ("
		for _, v := range q.vals {
			gv += p.str(v) + " "
		}
		gv += "))\n"
	}
	if solver == "cvc5" {
		s := weightRE.ReplaceAllString(sb.String(), "")
		sb.Reset()
		sb.WriteString(s)
	}
	j := &job{solver: solver, head: sb.String(), n: len(goals), timeout: timeout, vals: q.vals}
	for _, g := range goals {
		j.goals = append(j.goals, "(push 1)\n"+g+"(check-sat)\n(echo \"@@\")\n"+gv+"(echo \"##\")\n(pop 1)\n")
	}
	j.text = j.head + strings.Join(j.goals, "")
	return j
}

// variant is the same query with other choices of the search: a proof that
// is not found soon is often found soon in another order.
func (j *job) variant(n int, only []int) *job {
	k := *j
	if only != nil {
		k.goals = nil
		for _, i := range only {
			k.goals = append(k.goals, j.goals[i])
		}
		k.n = len(only)
	}
	if j.solver != "cvc5" {
		w := []string{"5", "2", "0", "3"}[n%4]
		k.head = strings.Replace(k.head, ":weight 5 ", ":weight "+w+" ", 1)
		k.head = strings.Replace(k.head, ":random_seed 1)", fmt.Sprintf(":random_seed %d)", n+1), 1)
	}
	k.text = k.head + strings.Join(k.goals, "")
	return &k
}

func (j *job) run() []result { return j.runCtx(context.Background()) }

func (j *job) runCtx(pctx context.Context) []result {
	key := j.solver + "\n" + j.text
	if r, ok := qcache.Load(key); ok {
		return r.([]result)
	}
	if dumpDir != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > time.Second {
				n := atomic.AddInt64(&dumpN, 1)
				os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%05d-%s-%.1f.smt2", n, j.solver, d.Seconds())), []byte(j.text), 0o644)
			}
		}()
	}
	if expired() {
		rs := make([]result, j.n)
		for i := range rs {
			rs[i] = result{status: "unknown", reason: "out of time"}
		}
		return rs
	}
	select {
	case sem <- struct{}{}:
	case <-pctx.Done():
		rs := make([]result, j.n)
		for i := range rs {
			rs[i].status = "unknown"
		}
		return rs
	}
	defer func() { <-sem }()
	total := j.timeout*time.Duration(j.n) + 2*time.Second
	ctx, cancel := context.WithTimeout(pctx, total)
	defer cancel()
	args := solvers[j.solver].cmd(j.timeout)
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(j.text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	dt := time.Since(t0)
	atomic.AddInt64(&solverTime, int64(dt))
	atomic.AddInt64(&nQueries, int64(j.n))
	rs := make([]result, j.n)
	chunks := strings.Split(out.String(), "##")
	for i := range rs {
		rs[i] = result{status: "unknown", solver: j.solver, time: dt / time.Duration(j.n)}
		if i >= len(chunks) {
			continue
		}
		parts := strings.SplitN(chunks[i], "@@", 2)
		st := strings.Trim(strings.ReplaceAll(parts[0], "\"", ""), " \n\t\r")
		lines := strings.Split(st, "\n")
		last := strings.TrimSpace(lines[len(lines)-1])
		switch last {
		case "unsat", "sat":
			rs[i].status = last
		}
		if strings.Contains(parts[0], "(error") {
			rs[i].status = "unknown"
			rs[i].reason = st
			if atomic.AddInt64(&solverErrs, 1) <= 2 {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR:", j.solver, strings.SplitN(st, "\n", 2)[0])
				if dumpDir != "" {
					os.WriteFile(filepath.Join(dumpDir, "vc_error.smt2"), []byte(j.text), 0o644)
				}
			}
		}
		if len(parts) == 2 && rs[i].status != "unsat" && len(j.vals) > 0 {
			rs[i].model = parseValues(parts[1], j.vals)
		}
	}
	if pctx.Err() == nil {
		qcache.Store(key, rs)
	}
	return rs
}

// parseValues reads the answer of get-value, in order.
func parseValues(s string, vals []*Term) map[*Term]*big.Int {
	s = strings.ReplaceAll(s, "\"", "")
	toks := tokenizeSexp(s)
	pos := 0
	var parse func() interface{}
	parse = func() interface{} {
		if pos >= len(toks) {
			return nil
		}
		t := toks[pos]
		pos++
		if t != "(" {
			return t
		}
		var l []interface{}
		for pos < len(toks) && toks[pos] != ")" {
			l = append(l, parse())
		}
		pos++
		return l
	}
	l, ok := parse().([]interface{})
	if !ok {
		return nil
	}
	m := map[*Term]*big.Int{}
	for i, e := range l {
		p, ok := e.([]interface{})
		if !ok || len(p) < 2 || i >= len(vals) {
			continue
		}
		v := p[len(p)-1]
		neg := false
		if vl, ok := v.([]interface{}); ok && len(vl) == 2 && vl[0] == "-" {
			neg = true
			v = vl[1]
		}
		vs, ok := v.(string)
		if !ok {
			continue
		}
		if vs == "true" {
			vs = "1"
		} else if vs == "false" {
			vs = "0"
		}
		n, ok := new(big.Int).SetString(vs, 10)
		if !ok {
			continue
		}
		if neg {
			n.Neg(n)
		}
		m[vals[i]] = n
	}
	return m
}

func tokenizeSexp(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

var weightRE = regexp.MustCompile(`:weight \d+ `)

var (
	quickRlimit  = 3000000
	quickTimeout = 4 * time.Second
	slowTimeout  = 30 * time.Second

	// is a branch possible? (if in doubt, yes)
	pruneRlimit  = 200000
	pruneTimeout = 2 * time.Second
)

// qreq is a batch of goals under the same hypotheses.
type qreq struct {
	hyps, goals []*Term
	out         []bool
	rlimit      int
	timeout     time.Duration
	once        bool
}

// quickMulti tries batches of goals cheaply, side by side; true means proved.
func quickMulti(rs []*qreq, x *X) {
	var wg sync.WaitGroup
	for _, q := range rs {
		q := q
		q.out = make([]bool, len(q.goals))
		if q.rlimit == 0 {
			q.rlimit, q.timeout = x.rlimit(), quickTimeout
		}
		var idx []int
		var gs []*Term
		for i, g := range q.goals {
			if g == True {
				q.out[i] = true
				continue
			}
			idx = append(idx, i)
			gs = append(gs, g)
		}
		chunk := (len(gs) + 7) / 8
		if chunk < 4 {
			chunk = 4
		}
		for lo := 0; lo < len(gs); lo += chunk {
			hi := lo + chunk
			if hi > len(gs) {
				hi = len(gs)
			}
			j := (&query{hyps: q.hyps, goals: gs[lo:hi], reveal: x.reveal}).render("z3-new", q.rlimit, q.timeout)
			ix := idx[lo:hi]
			wg.Add(1)
			go func() {
				defer wg.Done()
				var again []int
				for k, r := range j.run() {
					q.out[ix[k]] = r.status == "unsat"
					if r.status == "unknown" {
						again = append(again, k)
					}
				}
				if q.once || len(again) == 0 {
					return
				}
				for k, r := range j.variant(1, again).run() {
					q.out[ix[again[k]]] = r.status == "unsat"
				}
			}()
		}
	}
	wg.Wait()
}

// rlimit is the effort which is worthwhile for a candidate in a unit.
func (x *X) rlimit() int {
	if x.helped() {
		return quickRlimit
	}
	return quickRlimit / 3
}

// helped: the contracts of helpers are used only where inlining costs too much.
func (x *X) helped() bool {
	return x.own || isLight(x.R.prop) || x.con != nil && x.con.helper
}
