package main

// The check command: verify the obligations of a property, look for a
// failing input if one fails, report, and write the evidence.

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func rng(lo, hi int64) [2]*big.Int { return [2]*big.Int{bi(lo), bi(hi)} }

// Checker is one run of a check.
type Checker struct {
	prop, tier, repo, home string
	seed                   int
	R                      *Run
	t0                     time.Time
	deadline               time.Time
	mu                     sync.Mutex
	searching, blind       bool            // blind: without a failed obligation
	ctx                    context.Context // of the search
	cancel                 func()
	searched               []string // what the search did
	done                   chan struct{}
	found                  *finding
	note                   string
}

type finding struct {
	check string
	data  []byte
}

// expired tells the generator and the discharger to stop.
var stopAt time.Time

func expired() bool { return !stopAt.IsZero() && time.Now().After(stopAt) }

func runCheck(prop, tier, repo, home string) int {
	C := &Checker{prop: prop, tier: tier, repo: repo, home: home, t0: time.Now()}
	C.ctx, C.cancel = context.WithCancel(context.Background())
	C.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 660 * time.Second
	if tier == "thorough" {
		budget = 2400 * time.Second
		slowTimeout = 90 * time.Second
	}
	C.deadline = C.t0.Add(budget)
	stopAt = C.deadline
	res := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				if f, ok := e.(fatalErr); ok {
					res <- f.msg
					return
				}
				res <- fmt.Sprintf("the verifier failed: %v\n%s", e, debug.Stack())
			}
		}()
		C.R = newRun(repo, filepath.Join(home, "contracts"))
		C.R.onFail = C.startSearch
		C.R.check(prop)
		res <- ""
	}()
	var crash string
	wait := C.poll()
	// A proof which takes much longer than usual is about to fail.
	early := time.AfterFunc(budget*3/4, func() { C.startSearch(nil) })
	defer early.Stop()
	select {
	case crash = <-res:
	case <-wait:
	case <-time.After(budget + 120*time.Second):
		crash = "the verifier ran out of time"
	}
	return C.finish(crash)
}

// poll is closed when the search has found a failing input.
func (C *Checker) poll() chan struct{} {
	ch := make(chan struct{})
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			C.mu.Lock()
			f := C.found
			C.mu.Unlock()
			if f != nil {
				close(ch)
				return
			}
		}
	}()
	return ch
}

func (o *Obl) failed() bool { return o.done && o.res.status != "unsat" }

func (C *Checker) finish(crash string) int {
	var mine, bad []*Obl
	if C.R != nil {
		C.R.mu.Lock()
		for _, o := range C.R.obls {
			if !o.counts(C.prop) {
				continue
			}
			mine = append(mine, o)
			if o.res.status != "unsat" {
				bad = append(bad, o)
			}
		}
		C.R.mu.Unlock()
	}
	if crash != "" {
		bad = append(bad, &Obl{Name: "verifier: " + strings.SplitN(crash, "\n", 2)[0], res: result{status: "unknown", solver: "generator", reason: crash}})
		fmt.Fprintln(os.Stderr, crash)
	}
	cross := C.tier == "thorough" && len(bad) == 0
	if len(bad) > 0 || cross {
		secs := 75
		if cross {
			secs = 120
		}
		C.search(secs, bad)
	}
	C.mu.Lock()
	f := C.found
	C.mu.Unlock()
	viol := 0
	if f != nil || len(bad) > 0 {
		viol = 1
		C.report(f, bad)
	}
	C.evidence(mine, bad, viol)
	C.cancel()
	C.mu.Lock()
	done := C.done
	C.mu.Unlock()
	if done != nil {
		<-done
	}
	if viol > 0 {
		return 1
	}
	fmt.Printf("%s: %d obligations discharged in %.0f s\n", C.prop, len(mine), time.Since(C.t0).Seconds())
	return 0
}

// ---- looking for a failing input

// startSearch begins the search while the verifier goes on.
func (C *Checker) startSearch(bad []*Obl) {
	C.mu.Lock()
	if C.searching {
		C.mu.Unlock()
		return
	}
	C.searching = true
	C.blind = len(bad) == 0
	C.done = make(chan struct{})
	C.mu.Unlock()
	go func() {
		C.doSearch(75, bad)
		close(C.done)
	}()
}

func (C *Checker) search(secs int, bad []*Obl) {
	C.mu.Lock()
	if C.searching {
		C.mu.Unlock()
		<-C.done
		C.mu.Lock()
		again := C.found == nil && C.blind && len(bad) > 0
		C.blind = false
		C.mu.Unlock()
		if again {
			C.doSearch(secs, bad)
		}
		return
	}
	C.searching = true
	C.done = make(chan struct{})
	C.mu.Unlock()
	C.doSearch(secs, bad)
	close(C.done)
}

func (C *Checker) hints(bad []*Obl) string {
	seen := map[string]bool{}
	var hs []string
	add := func(s string) {
		if _, err := strconv.ParseInt(s, 10, 64); err == nil && !seen[s] && len(hs) < 2000 {
			seen[s] = true
			hs = append(hs, s)
		}
	}
	for _, o := range bad {
		var ks []string
		for _, v := range o.res.model {
			ks = append(ks, v.String())
		}
		sort.Strings(ks)
		for _, v := range ks {
			add(v)
		}
	}
	if C.R != nil && C.R.tab != nil {
		for _, d := range C.R.tab.diffs {
			add(fmt.Sprint(d.Key))
			add(fmt.Sprint(d.Got))
			add(fmt.Sprint(d.Want))
		}
	}
	return strings.Join(hs, " ")
}

const overlayName = "zz_verif_replay_test.go"

// buildHarness compiles the search for the tree as it is.
func (C *Checker) buildHarness(dir string, race bool) (string, error) {
	consts := filepath.Join(dir, "consts_test.go")
	var sb strings.Builder
	sb.WriteString("package hangul_test\n\nimport hangul \"github.com/suapapa/go_hangul\"\n\nvar _ = hangul.IsHangul\n\nfunc init() {\n\tconstants = []constVal{\n")
	if C.R != nil {
		for _, c := range C.R.S.consts {
			p := strings.SplitN(c.name, ".", 2)
			if _, ok := C.R.P.namedConst(p[0], p[1]); ok && p[0] == "hangul" {
				fmt.Fprintf(&sb, "\t\t{%q, int64(%s), %s},\n", c.name, c.name, c.val)
			}
		}
	}
	sb.WriteString("\t}\n}\n")
	if err := os.WriteFile(consts, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov := map[string]map[string]string{"Replace": {
		filepath.Join(C.repo, overlayName):               filepath.Join(C.home, "replay", "replay_test.go"),
		filepath.Join(C.repo, "zz_verif_consts_test.go"): consts,
	}}
	b, _ := json.Marshal(ov)
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf}
	if race {
		bin += ".race"
		args = append(args, "-race")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", append(args, "-o", bin, ".")...)
	cmd.Dir = C.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("the search does not build: %v\n%s", err, out)
	}
	return bin, nil
}

func (C *Checker) doSearch(secs int, bad []*Obl) {
	dir, err := os.MkdirTemp("", "vcreplay")
	if err != nil {
		C.note = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	bin, err := C.buildHarness(dir, false)
	if err != nil {
		C.note = err.Error()
		return
	}
	list, _ := exec.Command(bin, "-test.run", "TestVerifList").Output()
	var names []string
	for _, l := range strings.Split(string(list), "\n") {
		w := strings.Fields(l)
		if len(w) < 3 || w[0] != "CHECK" {
			continue
		}
		for _, p := range w[2:] {
			if p == C.prop {
				names = append(names, w[1])
			}
		}
	}
	hints := C.hints(bad)
	race := ""
	if C.prop == "X02" {
		race, _ = C.buildHarness(dir, true)
	}
	var wg sync.WaitGroup
	ctx, cancel := context.WithCancel(C.ctx)
	defer cancel()
	sem := make(chan bool, 6)
	for i, n := range names {
		i, n := i, n
		b := bin
		if n == "together" && race != "" {
			b = race
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if f := C.runHarness(ctx, b, dir, n, secs, hints, i, false); f != nil {
				C.mu.Lock()
				if C.found == nil {
					C.found = f
				}
				C.mu.Unlock()
				cancel()
			}
		}()
	}
	wg.Wait()
}

func (C *Checker) runHarness(ctx context.Context, bin, dir, name string, secs int, hints string, i int, trace bool) *finding {
	out := filepath.Join(dir, fmt.Sprintf("out%d", i))
	tr := filepath.Join(dir, fmt.Sprintf("trace%d", i))
	cctx, cancel := context.WithTimeout(ctx, time.Duration(secs+60)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, bin, "-test.run", "TestVerifReplay", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_REFS="+filepath.Join(C.home, "contracts"), "VERIF_CHECK="+name, "VERIF_SECS="+fmt.Sprint(secs), "VERIF_OUT="+out, "VERIF_HINTS="+hints, "VERIF_SEED="+fmt.Sprint(C.seed), "GORACE=halt_on_error=1 exitcode=4")
	if trace {
		cmd.Env = append(cmd.Env, "VERIF_TRACE="+tr)
	}
	b, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return nil
	}
	C.mu.Lock()
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "SEARCHED ") {
			C.searched = append(C.searched, strings.TrimPrefix(l, "SEARCHED "))
		}
	}
	C.mu.Unlock()
	if d, e := os.ReadFile(out); e == nil {
		return &finding{name, d}
	}
	if err == nil || cctx.Err() != nil {
		return nil
	}
	// the process died: a fatal error of the Go runtime, or a data race
	msg := string(b)
	if i := strings.Index(msg, "WARNING: DATA RACE"); i >= 0 {
		msg = msg[i:]
	} else if i := strings.Index(msg, "fatal error"); i >= 0 {
		msg = msg[i:]
	} else if !strings.Contains(msg, "goroutine ") {
		return nil
	}
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	k := json.RawMessage(`{"check":"` + name + `"}`)
	if trace {
		if d, e := os.ReadFile(tr); e == nil && json.Valid(d) {
			k = d
		}
	} else if !strings.Contains(msg, "DATA RACE") {
		if f := C.runHarness(ctx, bin, dir, name, secs, hints, i, true); f != nil {
			return f
		}
	}
	d, _ := json.MarshalIndent(map[string]interface{}{"case": k, "wrong": msg}, "", " ")
	return &finding{name, append(d, '\n')}
}

// ---- reports

func (C *Checker) report(f *finding, bad []*Obl) {
	m := map[string]interface{}{}
	if f != nil {
		json.Unmarshal(f.data, &m)
	}
	var obs []map[string]interface{}
	for i, o := range bad {
		if i >= 40 {
			break
		}
		d := map[string]interface{}{"obligation": o.Name, "answer": o.res.status, "by": o.res.solver}
		if o.Pos != "" {
			d["at"] = o.Pos
		}
		if o.res.reason != "" {
			d["reason"] = o.res.reason
		}
		if len(o.res.model) > 0 {
			mm := map[string]string{}
			for t, v := range o.res.model {
				mm[t.String()] = v.String()
			}
			d["model"] = mm
		}
		obs = append(obs, d)
	}
	m["property"] = C.prop
	m["failed_obligations"] = obs
	m["failed_count"] = len(bad)
	if C.R != nil && C.R.tab != nil && len(C.R.tab.diffs) > 0 {
		m["table_differences"] = C.R.tab.diffs
	}
	if C.note != "" {
		m["search"] = C.note
	}
	m["replay"] = "run.sh replay FILE"
	b, _ := json.MarshalIndent(m, "", " ")
	dir := filepath.Join(C.home, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%.12s.json", C.prop, fmt.Sprintf("%x", sha256.Sum256(b))))
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	for i, o := range bad {
		if i >= 12 {
			fmt.Printf("... and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("failed: %s [%s by %s]\n", o.Name, o.res.status, o.res.solver)
	}
	if f != nil {
		fmt.Printf("failing input (%s): %v\n", f.check, m["wrong"])
		fmt.Printf("VIOLATION property=%s replay=%s\n", C.prop, p)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", C.prop, p)
	}
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (C *Checker) evidence(obls, bad []*Obl, viol int) {
	cov := map[string]interface{}{}
	byS, byK, slow := map[string]int{}, map[string]int{}, []string{}
	units := map[string]int{}
	names := map[string]bool{}
	for _, o := range obls {
		if o.res.status == "unsat" {
			byS[o.res.solver]++
		}
		byK[o.Kind]++
		units[o.Unit]++
		names[o.Name] = true
		if o.res.time > 5*time.Second {
			slow = append(slow, fmt.Sprintf("%s (%s, %.1f s)", o.Name, o.res.solver, o.res.time.Seconds()))
		}
	}
	nbad := 0
	for _, o := range obls {
		if o.res.status != "unsat" {
			nbad++
		}
	}
	cov["obligations"] = len(obls) + len(bad) - nbad
	cov["discharged"] = len(obls) - nbad
	cov["distinct_obligations"] = len(names)
	cov["checker_cmd"] = fmt.Sprintf("./run.sh check %s %s", C.prop, C.tier)
	cov["discharged_by"] = byS
	cov["obligations_by_kind"] = byK
	cov["units"] = units
	cov["solver_seconds"] = float64(solverTime) / 1e9
	cov["solver_queries"] = nQueries
	if len(slow) > 0 {
		sort.Strings(slow)
		cov["slow_obligations"] = slow
	}
	var assumptions []string
	if C.R != nil {
		cov["functions_under_contract"] = keysOf(C.R.funcs)
		cov["contracts_used_at_calls"] = keysOf(C.R.used)
		cov["functions_inlined"] = keysOf(C.R.inlined)
		loops := map[string]string{}
		for k, v := range C.R.loops {
			loops[k] = v
		}
		cov["loop_invariants"] = loops
		if C.R.tab != nil {
			cov["table_entries_compared"] = C.R.tab.ground
			cov["tables"] = C.R.tab.notes
		}
		assumptions = keysOf(C.R.assumed)
	}
	cov["trusted_base"] = []string{
		"the verifier /verif/vc (its semantics of Go's SSA form, generation of obligations, simplifier)",
		"golang.org/x/tools/go/packages and go/ssa as translators of the source; the Go compiler and runtime",
		"z3 4.8.12 (z3), z3-new, cvc5 1.1.2: an answer 'unsat' is believed",
		"the axioms of sequences and memory in vc/prelude.smt2",
		"the reference files contracts/*.ref (tools/mk*.py say where they come from)",
	}
	if len(C.searched) > 0 {
		sort.Strings(C.searched)
		cov["search_for_failing_input"] = C.searched
	}
	assumptions = append(assumptions,
		"slices and strings are shorter than 2^48 elements; memory does not run out; the stack does not overflow at the proved recursion depths",
		"errors.New and fmt.Errorf return a non-nil error different from the others",
		"the code runs with the standard library whose source was read (Go 1.27.3)")
	ev := map[string]interface{}{
		"property": C.prop, "tier": C.tier, "seed": C.seed, "level": "proof",
		"coverage": cov, "assumptions": assumptions, "wall_s": time.Since(C.t0).Seconds(), "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	os.MkdirAll(filepath.Join(C.home, "evidence"), 0o755)
	os.WriteFile(filepath.Join(C.home, "evidence", C.prop+".json"), append(b, '\n'), 0o644)
}

// runReplay runs the case of a replay file against the tree.
func runReplay(file, repo, home string) int {
	C := &Checker{repo: repo, home: home}
	func() {
		defer func() { recover() }()
		C.R = newRun(repo, filepath.Join(home, "contracts"))
	}()
	dir, err := os.MkdirTemp("", "vcreplay")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	abs, _ := filepath.Abs(file)
	b, _ := os.ReadFile(abs)
	race := strings.Contains(string(b), "DATA RACE")
	bin, err := C.buildHarness(dir, race)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	cmd := exec.Command(bin, "-test.run", "TestVerifReplay", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_REFS="+filepath.Join(home, "contracts"), "VERIF_CASE="+abs)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if err := cmd.Run(); err != nil {
		return 1
	}
	fmt.Println("the case does not fail on this tree")
	return 0
}
