// Package hangul_test: a search for a failing input, run against the real
// code after a proof obligation has failed, and the replay of one.  It uses
// the exported interface only.  The oracles are written from the properties
// and read the same reference files as the contracts (never the code).
package hangul_test

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
)

// A kase is one input of one check.
type kase struct {
	Check string  `json:"check"`
	Ints  []int64 `json:"ints,omitempty"`
	Strs  [][]byte `json:"bytes,omitempty"` // base64 in JSON
	Text  []string `json:"quoted,omitempty"`
}

type check struct {
	name  string
	props string
	run   func(k *kase) string // "" or what is wrong
	gen   func(s *search)
}

var checks []*check

// constants are the exported ones, and their values by the contracts: filled
// in by a generated file.
var constants []constVal

type constVal struct {
	name      string
	got, want int64
}

type search struct {
	c        *check
	rnd      *rand.Rand
	deadline time.Time
	n        int64
	hints    []int64
	cur      atomic.Value // *kase
	seq      int64
	stop     bool
	trace    *os.File
}

// safely runs one case; a panic is a failure.
func (c *check) safely(k *kase) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, st)
		}
	}()
	return c.run(k)
}

func (s *search) over() bool {
	return s.stop || time.Now().After(s.deadline)
}

func (s *search) try(ints []int64, strs ...[]byte) {
	if s.stop {
		return
	}
	k := &kase{Check: s.c.name, Ints: ints, Strs: strs}
	s.tryKase(k)
}

func (s *search) tryKase(k *kase) {
	s.n++
	if s.n&0x3ff == 0 && time.Now().After(s.deadline) {
		s.stop = true
		return
	}
	s.cur.Store(k)
	atomic.AddInt64(&s.seq, 1)
	if s.trace != nil {
		b, _ := json.Marshal(k)
		s.trace.WriteAt(append(b, '\n'), 0)
		s.trace.Truncate(int64(len(b) + 1))
	}
	if msg := s.c.safely(k); msg != "" {
		k, msg = s.shrink(k, msg)
		report(k, msg)
	}
}

// shrink shortens the byte strings of a failing case.
func (s *search) shrink(k *kase, msg string) (*kase, string) {
	end := time.Now().Add(5 * time.Second)
	for si := range k.Strs {
		for size := len(k.Strs[si]) / 2; size > 0; {
			cut := false
			for at := 0; at+size <= len(k.Strs[si]) && time.Now().Before(end); {
				n := &kase{Check: k.Check, Ints: k.Ints}
				n.Strs = append(n.Strs, k.Strs...)
				n.Strs[si] = append(append([]byte{}, k.Strs[si][:at]...), k.Strs[si][at+size:]...)
				s.cur.Store(n)
				atomic.AddInt64(&s.seq, 1)
				if m := s.c.safely(n); m != "" {
					k, msg, cut = n, m, true
				} else {
					at += size
				}
			}
			if !cut || size > len(k.Strs[si]) {
				size /= 2
			}
		}
	}
	return k, msg
}

var reported int32

func report(k *kase, msg string) {
	if !atomic.CompareAndSwapInt32(&reported, 0, 1) {
		select {}
	}
	for _, b := range k.Strs {
		k.Text = append(k.Text, strconv.Quote(string(b)))
	}
	out, _ := json.MarshalIndent(map[string]interface{}{"case": k, "wrong": msg}, "", " ")
	if p := os.Getenv("VERIF_OUT"); p != "" {
		os.WriteFile(p, append(out, '\n'), 0o644)
	}
	fmt.Printf("FOUND %s\n", out)
	os.Exit(3)
}

func TestVerifReplay(t *testing.T) {
	debug.SetMaxStack(64 << 20)
	loadRefs()
	if f := os.Getenv("VERIF_CASE"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var d struct {
			Case *kase `json:"case"`
		}
		if err := json.Unmarshal(b, &d); err != nil || d.Case == nil {
			t.Fatalf("%s: no case in it (%v)", f, err)
		}
		for _, c := range checks {
			if c.name == d.Case.Check {
				s := &search{c: c}
				s.cur.Store(d.Case)
				go s.watch(10 * time.Second)
				if msg := c.safely(d.Case); msg != "" {
					d.Case.Text = nil
					report(d.Case, msg)
				}
				return
			}
		}
		t.Fatalf("no check %s", d.Case.Check)
	}
	name := os.Getenv("VERIF_CHECK")
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if secs == 0 {
		secs = 20
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	for _, c := range checks {
		if c.name != name {
			continue
		}
		s := &search{c: c, rnd: rand.New(rand.NewSource(seed)), deadline: time.Now().Add(time.Duration(secs) * time.Second)}
		for _, h := range strings.Fields(os.Getenv("VERIF_HINTS")) {
			if n, err := strconv.ParseInt(h, 10, 64); err == nil {
				s.hints = append(s.hints, n)
			}
		}
		if f := os.Getenv("VERIF_TRACE"); f != "" {
			s.trace, _ = os.Create(f)
		}
		s.cur.Store(&kase{Check: c.name})
		go s.watch(10 * time.Second)
		c.gen(s)
		fmt.Printf("SEARCHED %s %d\n", c.name, s.n)
	}
}

// TestVerifList prints the checks of the properties.
func TestVerifList(t *testing.T) {
	for _, c := range checks {
		fmt.Printf("CHECK %s %s\n", c.name, c.props)
	}
}

// watch reports a case which does not return.
func (s *search) watch(limit time.Duration) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(100 * time.Millisecond)
		if n := atomic.LoadInt64(&s.seq); n != last {
			last, since = n, time.Now()
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if time.Since(since) > limit || m.HeapAlloc > 3<<30 {
			report(s.cur.Load().(*kase), fmt.Sprintf("does not return (%v, %d MB)", time.Since(since).Round(time.Second), m.HeapAlloc>>20))
		}
	}
}

// ---- references

var (
	refCP    = map[int]rune{} // code to character
	refCPenc = map[rune]int{}
	refHJ    = map[rune]rune{}
	refC2    = map[rune]rune{} // conjoining to compatibility
	refL     = map[rune]rune{}
	refM     = map[rune]rune{}
	refT     = map[rune]rune{}
	refEl    = map[rune][]rune{}
	refStr   = map[rune]int{}
	cpKeys   []int
	hjKeys   []rune
)

func rows(name string, f func(v []int64)) {
	fh, err := os.Open(filepath.Join(os.Getenv("VERIF_REFS"), name))
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) == 0 || w[0][0] == '#' {
			continue
		}
		var v []int64
		for _, x := range w {
			n, err := strconv.ParseInt(x, 0, 64)
			if err != nil {
				break
			}
			v = append(v, n)
		}
		f(v)
	}
}

func loadRefs() {
	rows("cp949.ref", func(v []int64) {
		refCP[int(v[0])] = rune(v[1])
		refCPenc[rune(v[1])] = int(v[0])
		cpKeys = append(cpKeys, int(v[0]))
	})
	rows("hanja.ref", func(v []int64) { refHJ[rune(v[0])] = rune(v[1]); hjKeys = append(hjKeys, rune(v[0])) })
	two := func(m map[rune]rune) func(v []int64) { return func(v []int64) { m[rune(v[0])] = rune(v[1]) } }
	rows("jamo.ref", two(refC2))
	rows("lead.ref", two(refL))
	rows("medial.ref", two(refM))
	rows("tail.ref", two(refT))
	rows("elems.ref", func(v []int64) {
		for _, e := range v[1:] {
			if e != 0 {
				refEl[rune(v[0])] = append(refEl[rune(v[0])], rune(e))
			}
		}
	})
	rows("strokes.ref", func(v []int64) { refStr[rune(v[0])] = int(v[1]) })
}

func isLead(r rune) bool    { return 0x1100 <= r && r <= 0x1112 }
func isMedial(r rune) bool  { return 0x1161 <= r && r <= 0x1175 }
func isTail(r rune) bool    { return 0x11A8 <= r && r <= 0x11C2 }
func isCJaeum(r rune) bool  { return 0x3131 <= r && r <= 0x314E }
func isCMoeum(r rune) bool  { return 0x314F <= r && r <= 0x3163 }
func isSyl(r rune) bool     { return 0xAC00 <= r && r <= 0xD7A3 }
func compatJ(r rune) rune {
	if isCJaeum(r) || isCMoeum(r) {
		return r
	}
	return refC2[r]
}
func pick(is func(rune) bool, m map[rune]rune, r rune) rune {
	if is(r) {
		return r
	}
	return m[r]
}
func dec(c rune) (l, m, t rune) {
	n := c - 0xAC00
	l, m = 0x1100+n/588, 0x1161+n%588/28
	if n%28 != 0 {
		t = 0x11A7 + n%28
	}
	return
}
func strokesOf(r rune) int {
	if isSyl(r) {
		l, m, t := dec(r)
		return strokesOf(l) + strokesOf(m) + strokesOf(t)
	}
	c := compatJ(r)
	if es, ok := refEl[c]; ok {
		n := 0
		for _, e := range es {
			n += refStr[e]
		}
		return n
	}
	return refStr[c]
}

// decode gives the decoding of the complete characters and the length of an
// incomplete one.
func decode(in []byte) (out []byte, left int) {
	for len(in) > 0 {
		if in[0] < 0x80 {
			out = append(out, in[0])
			in = in[1:]
			continue
		}
		if len(in) < 2 {
			return out, 1
		}
		r, ok := refCP[int(in[0])<<8|int(in[1])]
		if !ok {
			r = 0xFFFD
		}
		out = append(out, string(r)...)
		in = in[2:]
	}
	return out, 0
}

// encode converts; hold leaves an incomplete character at the end alone.
func encode(in []byte, hold bool) (out []byte, left int) {
	for len(in) > 0 {
		if in[0] < 0x80 {
			out = append(out, in[0])
			in = in[1:]
			continue
		}
		if hold && !utf8.FullRune(in) {
			return out, len(in)
		}
		r, n := utf8.DecodeRune(in)
		if c, ok := refCPenc[r]; ok {
			out = append(out, byte(c>>8), byte(c))
		} else {
			out = append(out, '?')
		}
		in = in[n:]
	}
	return out, 0
}

func differ(what string, got, want interface{}) string {
	return fmt.Sprintf("%s: got %s, want %s", what, show(got), show(want))
}

func show(v interface{}) string {
	s := ""
	switch v := v.(type) {
	case []byte:
		s = fmt.Sprintf("%d bytes %q", len(v), v)
	case string:
		s = fmt.Sprintf("%q", v)
	case rune:
		s = fmt.Sprintf("%#x", v)
	case []rune:
		s = fmt.Sprintf("%x", v)
	default:
		s = fmt.Sprint(v)
	}
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// ---- generators

var edgeRunes = []rune{-1, -2, -128, -0x8000, -0x10000, -0x7FFFFFFF - 1, 0x7FFFFFFF, 0x7FFFFFFE, 0x110000, 0x1100, 0x11100, 0x1131, 0x10FFFF, 0x10000, 0xFFFF, 0xFFFE, 0xFFFD, 0xD800, 0xDFFF, 0xDC00, 0xFEFF, 0}

// runesAll calls f with every code point, and with others that are equal to
// interesting ones in some of their bits.
func (s *search) runesAll(f func(r rune)) {
	for _, h := range s.hints {
		f(rune(h))
	}
	for _, r := range edgeRunes {
		f(r)
	}
	for r := rune(-300); r <= 0x110100 && !s.over2(); r++ {
		f(r)
	}
	for _, k := range []rune{-0x10000, 0x110000, 0x200000, 0x1000000, -0x1000000, 0x7FFF0000, -0x80000000, 0x40000000} {
		for r := rune(0); r < 0x10000 && !s.over2(); r++ {
			f(r + k)
		}
	}
	for i := 0; i < 1000000 && !s.over2(); i++ {
		f(rune(s.rnd.Uint32()))
	}
}

func (s *search) over2() bool { return s.stop }

func i64(rs ...rune) []int64 {
	var out []int64
	for _, r := range rs {
		out = append(out, int64(r))
	}
	return out
}

var u8tokens = []string{"", "a", "\x00", "\x7f", "?", "é", "ß", "가", "힣", "똠", "한", "글", "ㄱ", "ᄀ", "漢", "女", "樂", "㐀", "豈", "。", "€", "\uFFFD", "\uFEFF", "\uE000", "😀", "𠀀", "\U00010000", "\U0001AC00", "\U0010FFFF",
	"\x80", "\xBF", "\xC0", "\xC1\x81", "\xC2", "\xE0", "\xE0\x80\x80", "\xE0\xA0", "\xEA", "\xEA\xB0", "\xED\xA0\x80", "\xED\xA0", "\xED\x9F", "\xEF\xBF", "\xF0", "\xF0\x9F", "\xF0\x9F\x98", "\xF0\x80\x80\x80", "\xF0\x90", "\xF4\x90\x80\x80", "\xF4\x8F\xBF", "\xF5", "\xF8", "\xFE", "\xFF", "\xEA\xB0a", "\xF0\x9F\x98a", "\xE2\x82\xF0"}

var cpTokens = []string{"", "a", "\x00", "\x7f", "\xb0\xa1", "\xc8\xfe", "\x8cc", "\x81A", "\xc6R", "\xa1\xa1", "\xfd\xfe", "\xca\xa1", "\xa2\xe6", "\xa2\xe8", "\x80\x80", "\x80A", "\x81\x00", "\x81\x40", "\x81\x5b", "\xff\xff", "\xfe\xfe", "\xc9\xa1", "\xb0a", "\xb0\x7f", "\x90\x80", "\xa4\xd4"}
var cpTails = []string{"", "\x80", "\x81", "\xb0", "\xff", "\xa1"}

// texts calls f with combinations of tokens and with random and long ones.
func (s *search) texts(toks, tails []string, f func(b []byte)) {
	if tails == nil {
		tails = []string{""}
	}
	for _, a := range toks {
		for _, t := range tails {
			f([]byte(a + t))
		}
	}
	for _, a := range toks {
		for _, b := range toks {
			for _, t := range tails {
				f([]byte(a + b + t))
			}
		}
	}
	for _, a := range toks {
		for _, t := range tails {
			for _, n := range []int{3, 4, 5, 7, 8, 15, 16, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 341, 342, 511, 512, 513, 682, 683, 1023, 1024, 1025, 1365, 1366, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 10000, 70000} {
				f([]byte(strings.Repeat(a, n) + t))
				f([]byte("a" + strings.Repeat(a, n) + t))
			}
			if s.over() {
				return
			}
		}
	}
	for _, a := range toks {
		for _, b := range toks {
			for _, c := range toks {
				f([]byte(a + b + c))
			}
		}
		if s.over() {
			return
		}
	}
	for i := 0; !s.over() && i < 400000; i++ {
		var b []byte
		n := s.rnd.Intn(12)
		if i%50 == 0 {
			n = s.rnd.Intn(1500)
		}
		for j := 0; j < n; j++ {
			switch s.rnd.Intn(6) {
			case 0:
				b = append(b, byte(s.rnd.Intn(256)))
			case 1:
				if len(s.hints) > 0 {
					b = append(b, string(rune(s.hints[s.rnd.Intn(len(s.hints))]))...)
				}
			default:
				b = append(b, toks[s.rnd.Intn(len(toks))]...)
			}
		}
		b = append(b, tails[s.rnd.Intn(len(tails))]...)
		f(b)
	}
}

func (s *search) cpHints(f func(b []byte)) {
	for _, h := range s.hints {
		f([]byte{byte(h >> 8), byte(h)})
		f([]byte{byte(h)})
	}
}

func init() {
	add := func(name, props string, run func(k *kase) string, gen func(s *search)) {
		checks = append(checks, &check{name, props, run, gen})
	}
	ru := func(k *kase, i int) rune { return rune(k.Ints[i]) }

	add("split", "H01 X01", func(k *kase) string {
		c := ru(k, 0)
		l, m, t := hangul.Split(c)
		cl, cm, ct := hangul.SplitCompat(c)
		if !isSyl(c) {
			return ""
		}
		wl, wm, wt := dec(c)
		if l != wl || m != wm || t != wt {
			return differ("Split", []rune{l, m, t}, []rune{wl, wm, wt})
		}
		if cl != compatJ(wl) || cm != compatJ(wm) || ct != compatJ(wt) {
			return differ("SplitCompat", []rune{cl, cm, ct}, []rune{compatJ(wl), compatJ(wm), compatJ(wt)})
		}
		if r := hangul.Join(l, m, t); r != c {
			return differ("Join of Split", r, c)
		}
		if r := hangul.Join(cl, cm, ct); r != c {
			return differ("Join of SplitCompat", r, c)
		}
		return ""
	}, func(s *search) {
		for round := 0; round < 2; round++ {
			s.runesAll(func(r rune) { s.try(i64(r)) })
		}
	})

	add("join", "H02 X01", func(k *kase) string {
		l, m, t := ru(k, 0), ru(k, 1), ru(k, 2)
		got := hangul.Join(l, m, t)
		wl, wm, wt := pick(isLead, refL, l), pick(isMedial, refM, m), rune(0)
		if t != 0 {
			wt = pick(isTail, refT, t)
		}
		want := rune(0xFFFD)
		if wl != 0 && wm != 0 && (t == 0 || wt != 0) {
			want = 0xAC00 + ((wl-0x1100)*21+wm-0x1161)*28
			if wt != 0 {
				want += wt - 0x11A7
			}
		}
		if got != want {
			return differ("Join", got, want)
		}
		return ""
	}, func(s *search) {
		var set []rune
		for _, h := range s.hints {
			set = append(set, rune(h))
		}
		near := func(lo, hi rune) {
			for r := lo; r <= hi; r++ {
				set = append(set, r)
			}
		}
		near(0x10FE, 0x1114)
		near(0x115F, 0x1177)
		near(0x11A5, 0x11C5)
		near(0x312F, 0x3166)
		set = append(set, edgeRunes...)
		set = append(set, 'a', 0xAC00, 0xD7A3, 0x11100, 0x21100, 0x13131, 0x1314F, 0x111A8, 0x11161, 0x1100-0x10000, 1, 27, 28)
		var k kase
		k.Check = "join"
		k.Ints = make([]int64, 3)
		for _, a := range set {
			for _, b := range set {
				for _, c := range set {
					k.Ints[0], k.Ints[1], k.Ints[2] = int64(a), int64(b), int64(c)
					if s.n&0xff == 0 {
						kk := k
						kk.Ints = append([]int64{}, k.Ints...)
						s.tryKase(&kk)
					} else {
						s.n++
						if s.c.run(&k) != "" {
							s.try([]int64{int64(a), int64(b), int64(c)})
						}
					}
				}
			}
			if s.over() {
				return
			}
		}
		for _, p := range [][3]rune{{0x1100, 0x1161, 0}, {0x3131, 0x314F, 0x3131}, {0x1112, 0x1175, 0x11C2}} {
			for i := 0; i < 3; i++ {
				s.runesAll(func(r rune) {
					q := p
					q[i] = r
					s.try(i64(q[0], q[1], q[2]))
				})
			}
		}
	})

	add("predicates", "H03 X01", func(k *kase) string {
		r := ru(k, 0)
		for _, c := range []struct {
			n         string
			got, want bool
		}{
			{"IsLead", hangul.IsLead(r), isLead(r)},
			{"IsMedial", hangul.IsMedial(r), isMedial(r)},
			{"IsTail", hangul.IsTail(r), isTail(r)},
			{"IsJaeum", hangul.IsJaeum(r), isCJaeum(r) || isLead(r) || isTail(r)},
			{"IsMoeum", hangul.IsMoeum(r), isCMoeum(r) || isMedial(r)},
			{"IsHangul", hangul.IsHangul(r), isSyl(r) || isCJaeum(r) || isCMoeum(r) || isLead(r) || isMedial(r) || isTail(r)},
		} {
			if c.got != c.want {
				return differ(c.n, c.got, c.want)
			}
		}
		return ""
	}, func(s *search) { s.runesAll(func(r rune) { s.try(i64(r)) }) })

	add("jamo", "H04 X01", func(k *kase) string {
		r := ru(k, 0)
		for _, c := range []struct {
			n         string
			got, want rune
		}{
			{"CompatJamo", hangul.CompatJamo(r), compatJ(r)},
			{"Lead", hangul.Lead(r), pick(isLead, refL, r)},
			{"Medial", hangul.Medial(r), pick(isMedial, refM, r)},
			{"Tail", hangul.Tail(r), pick(isTail, refT, r)},
		} {
			if c.got != c.want {
				return differ(c.n, c.got, c.want)
			}
		}
		return ""
	}, func(s *search) { s.runesAll(func(r rune) { s.try(i64(r)) }) })

	add("elements", "H05 X01 X02", func(k *kase) string {
		r := ru(k, 0)
		want := refEl[compatJ(r)]
		for round := 0; round < 2; round++ {
			es, ok := hangul.SplitMultiElement(r)
			if ok != (len(want) > 0) || string(es) != string(want) || len(es) != len(want) {
				return differ(fmt.Sprintf("SplitMultiElement, call %d", round+1), es, want)
			}
			es2, _ := hangul.SplitMultiElement(r)
			for i := range es {
				es[i] = -7
			}
			if cap(es) > len(es) {
				es = es[:cap(es)]
				for i := range es {
					es[i] = -7
				}
			}
			if string(es2) != string(want) {
				return differ("SplitMultiElement, after writing to another result", es2, want)
			}
		}
		return ""
	}, func(s *search) { s.runesAll(func(r rune) { s.try(i64(r)) }) })

	add("strokes", "H06 X01", func(k *kase) string {
		r := ru(k, 0)
		if g, w := hangul.Stroke(r), strokesOf(r); g != w {
			return differ("Stroke", g, w)
		}
		return ""
	}, func(s *search) { s.runesAll(func(r rune) { s.try(i64(r)) }) })

	last := func(w string) rune {
		rs := []rune(w)
		if len(rs) == 0 || !isSyl(rs[len(rs)-1]) {
			return 0
		}
		_, _, t := dec(rs[len(rs)-1])
		return t
	}
	add("lastconsonant", "H07 X01", func(k *kase) string {
		w := string(k.Strs[0])
		if g, x := hangul.LastConsonant(w), last(w); g != x {
			return differ("LastConsonant", g, x)
		}
		if g, x := hangul.EndsWithConsonant(w), last(w) != 0; g != x {
			return differ("EndsWithConsonant", g, x)
		}
		return ""
	}, func(s *search) {
		for _, p := range []string{"", "a", "각", "가", "\xff", "한글", "\xea\xb0"} {
			for r := rune(0); r <= 0x10FFFF; r++ {
				s.try(nil, []byte(p+string(r)))
			}
		}
		s.texts(u8tokens, []string{"", "각", "달", "개", "ㄱ", "ᆨ", "\xea\xb0", "가\xb0", " ", "."}, func(b []byte) { s.try(nil, b) })
	})

	add("postposition", "H08 X01", func(k *kase) string {
		w, a, b := string(k.Strs[0]), string(k.Strs[1]), string(k.Strs[2])
		want := w + a
		if l := last(w); l == 0 || l == 0x11AF && a == "으로" {
			want = w + b
		}
		if g := hangul.AppendPostposition(w, a, b); g != want {
			return differ("AppendPostposition", g, want)
		}
		return ""
	}, func(s *search) {
		forms := []string{"으로", "은", "는", "", "로", "으로써", "으", "을", "이", "(으)로", "\xff", "으로", "으로 ", "\xec\x9c\xbc\xeb\xa1", "과", "으론", "와", "이나"}
		for _, a := range forms {
			for _, b := range forms {
				for _, w := range append([]string{"서울", "강", "바다", "달", "월", "ㄹ", "ᆯ", "을", "를", "물a", "칼\xff", "닭", "삶", "핥", "갈"}, u8tokens...) {
					s.try(nil, []byte(w), []byte(a), []byte(b))
				}
			}
		}
		for r := rune(0); r <= 0x10FFFF; r++ {
			s.try(nil, []byte(string(r)), []byte("으로"), []byte("로"))
			if r >= 0xA000 && r < 0xE000 || r >= 0x1000 && r < 0x1200 || r >= 0x3000 && r < 0x3200 {
				s.try(nil, []byte("가"+string(r)), []byte("은"), []byte("는"))
				s.try(nil, []byte("각"+string(r)), []byte("으로"), []byte("로"))
			}
		}
		i := 0
		s.texts(u8tokens, nil, func(b []byte) { i++; s.try(nil, b, []byte(forms[i%len(forms)]), []byte(forms[i/7%len(forms)])) })
	})

	add("constants", "H09", func(k *kase) string {
		for _, c := range constants {
			if c.name == string(k.Strs[0]) && c.got != c.want {
				return differ(c.name, rune(c.got), rune(c.want))
			}
		}
		return ""
	}, func(s *search) {
		for _, c := range constants {
			s.try(nil, []byte(c.name))
		}
	})

	from := func(in []byte) string {
		orig := append([]byte{}, in...)
		out, err := cp949.From(in)
		if !bytes.Equal(orig, in) {
			return differ("From changed its input", in, orig)
		}
		want, left := decode(orig)
		if left > 0 {
			if err != cp949.ErrCP949UnexpectedStream {
				return differ("From: error", err, cp949.ErrCP949UnexpectedStream)
			}
			if out != nil {
				return differ("From: output with an error", out, nil)
			}
			return ""
		}
		if err != nil {
			return differ("From: error", err, nil)
		}
		if !bytes.Equal(out, want) {
			return differ("From", out, want)
		}
		return ""
	}
	to := func(in []byte) string {
		orig := append([]byte{}, in...)
		out, err := cp949.To(in)
		if !bytes.Equal(orig, in) {
			return differ("To changed its input", in, orig)
		}
		want, _ := encode(orig, false)
		if err != nil {
			return differ("To: error", err, nil)
		}
		if !bytes.Equal(out, want) {
			return differ("To", out, want)
		}
		return ""
	}
	add("from", "C01 C07 X01", func(k *kase) string { return from(k.Strs[0]) }, func(s *search) {
		s.try(nil, nil)
		s.cpHints(func(b []byte) { s.try(nil, b) })
		for i := 0; i < 256; i++ {
			s.try(nil, []byte{byte(i)})
		}
		for i := 0; i < 65536; i++ {
			s.try(nil, []byte{byte(i >> 8), byte(i)})
			s.try(nil, []byte{'a', byte(i >> 8), byte(i)})
			s.try(nil, []byte{byte(i >> 8), byte(i), 'z'})
			s.try(nil, []byte{0xb0, 0xa1, byte(i >> 8), byte(i)})
		}
		s.texts(cpTokens, cpTails, func(b []byte) { s.try(nil, b) })
	})
	add("to", "C02 C07 X01", func(k *kase) string { return to(k.Strs[0]) }, func(s *search) {
		s.try(nil, nil)
		for _, h := range s.hints {
			s.try(nil, []byte(string(rune(h))))
		}
		for i := 0; i < 65536; i++ {
			s.try(nil, []byte{byte(i >> 8), byte(i)})
		}
		for r := rune(0); r <= 0x10FFFF; r++ {
			s.try(nil, []byte(string(r)))
			if r < 0x20000 {
				s.try(nil, []byte("a"+string(r)+"b"))
				s.try(nil, []byte(string(r)+"가"))
			}
		}
		s.texts(u8tokens, nil, func(b []byte) { s.try(nil, b) })
		for i := 0; i < 1<<24 && !s.over(); i += 37 {
			s.try(nil, []byte{byte(i >> 16), byte(i >> 8), byte(i)})
		}
	})
	add("roundtrip", "C03 C07", func(k *kase) string {
		if k.Ints[0] == 0 { // a text
			t := k.Strs[0]
			for b := t; len(b) > 0; {
				r, n := utf8.DecodeRune(b)
				if _, ok := refCPenc[r]; (r >= 0x80 && !ok) || (r == 0xFFFD && n == 1) {
					return ""
				}
				b = b[n:]
			}
			c, err := cp949.To(append([]byte{}, t...))
			if err != nil {
				return differ("To: error", err, nil)
			}
			u, err := cp949.From(c)
			if err != nil || !bytes.Equal(u, t) {
				return differ(fmt.Sprintf("From(To(text)) (error %v)", err), u, t)
			}
			return ""
		}
		c := k.Strs[0]
		for b := c; len(b) > 0; {
			if b[0] < 0x80 {
				b = b[1:]
				continue
			}
			if len(b) < 2 {
				return ""
			}
			if _, ok := refCP[int(b[0])<<8|int(b[1])]; !ok {
				return ""
			}
			b = b[2:]
		}
		t, err := cp949.From(append([]byte{}, c...))
		if err != nil {
			return differ("From: error", err, nil)
		}
		d, err := cp949.To(t)
		if err != nil || !bytes.Equal(d, c) {
			return differ(fmt.Sprintf("To(From(codes)) (error %v)", err), d, c)
		}
		return ""
	}, func(s *search) {
		for _, c := range cpKeys {
			r := string(refCP[c])
			b := string([]byte{byte(c >> 8), byte(c)})
			for _, p := range []string{"", "a", "\x00"} {
				s.try([]int64{1}, []byte(p+b))
				s.try([]int64{1}, []byte(b+p+b))
				s.try([]int64{0}, []byte(p+r))
				s.try([]int64{0}, []byte(r+p+r))
			}
		}
		var ct, tt []string
		for i, c := range cpKeys {
			if i%700 == 0 {
				ct = append(ct, string([]byte{byte(c >> 8), byte(c)}))
				tt = append(tt, string(refCP[c]))
			}
		}
		ct, tt = append(ct, "a", "\x00", "\x7f"), append(tt, "a", "\x00", "\x7f")
		s.texts(ct, nil, func(b []byte) { s.try([]int64{1}, b) })
		s.texts(tt, nil, func(b []byte) { s.try([]int64{0}, b) })
	})

	add("hanja", "J01 J02 X01", func(k *kase) string {
		h := string(k.Strs[0])
		var want []rune
		for _, r := range h {
			y, ok := refHJ[r]
			if hanja.IsHanja(r) != ok {
				return differ(fmt.Sprintf("IsHanja(%#x)", r), !ok, ok)
			}
			if ok {
				r = y
			}
			want = append(want, r)
		}
		got := hanja.Convert(h)
		if got != string(want) {
			return differ("Convert", got, string(want))
		}
		if again := hanja.Convert(got); again != got {
			return differ("Convert of its result", again, got)
		}
		return ""
	}, func(s *search) {
		for _, h := range s.hints {
			s.try(nil, []byte(string(rune(h))))
		}
		for r := rune(0); r <= 0x10FFFF; r++ {
			s.try(nil, []byte(string(r)))
		}
		for i, r := range hjKeys {
			x := string(r)
			y := string(hjKeys[(i*7919+13)%len(hjKeys)])
			for _, t := range []string{x + x, "가" + x, x + "가", x + y, y + x, " " + x, "a" + x + "b", x + "\xff", "\xff" + x, y + x + y, "不" + x, x + "率", "十" + x, "女" + x} {
				s.try(nil, []byte(t))
			}
		}
		var tt []string
		for i, r := range hjKeys {
			if i%900 == 0 {
				tt = append(tt, string(r))
			}
		}
		s.texts(append(tt, u8tokens...), nil, func(b []byte) { s.try(nil, b) })
	})
	add("ishanja", "J02 X01", func(k *kase) string {
		_, ok := refHJ[ru(k, 0)]
		if g := hanja.IsHanja(ru(k, 0)); g != ok {
			return differ("IsHanja", g, ok)
		}
		return ""
	}, func(s *search) { s.runesAll(func(r rune) { s.try(i64(r)) }) })

	add("decoder", "C06 X01 X02", func(k *kase) string { return transformCase(k, true) }, func(s *search) { s.transforms(cpTokens, cpTails) })
	add("encoder", "C06 X01 X02", func(k *kase) string { return transformCase(k, false) }, func(s *search) { s.transforms(u8tokens, []string{"", "\xea", "\xea\xb0", "\xf0\x9f\x98", "\xe0\x80"}) })
	add("reader", "C04 X01 X02", readerCase, (*search).readers)
	add("writer", "C05 X01 X02", writerCase, (*search).writers)
	add("memory", "X02 C01 C02 H05", memoryCase, (*search).memory)
	add("together", "X02", togetherCase, func(s *search) {
		for i := int64(0); i < 40 && !s.over(); i++ {
			s.try([]int64{i})
		}
	})
}

// ---- Transform: ints are triples (dst length, atEOF, index of src)

func transformCase(k *kase, decoding bool) string {
	e := cp949.NewCP949Encoding()
	var tr transform.Transformer
	if decoding {
		tr = e.NewDecoder().Transformer
	} else {
		tr = e.NewEncoder().Transformer
	}
	for i := 0; i+2 < len(k.Ints); i += 3 {
		n, eof := int(k.Ints[i]), k.Ints[i+1] != 0
		src0 := k.Strs[k.Ints[i+2]]
		if msg := oneTransform(tr, decoding, n, eof, src0); msg != "" {
			return fmt.Sprintf("call %d, %d bytes of destination, atEOF %v: %s", i/3+1, n, eof, msg)
		}
	}
	return ""
}

func oneTransform(tr transform.Transformer, decoding bool, n int, eof bool, src0 []byte) string {
	back := bytes.Repeat([]byte{0xA5}, n+8)
	dst := back[4 : 4+n]
	sb := append(append([]byte("<<<<"), src0...), ">>>>"...)
	src := sb[4 : 4+len(src0)]
	nd, ns, err := tr.Transform(dst, src, eof)
	if !bytes.Equal(sb, append(append([]byte("<<<<"), src0...), ">>>>"...)) {
		return differ("the source was changed", sb, src0)
	}
	if !bytes.Equal(back[:4], []byte{0xA5, 0xA5, 0xA5, 0xA5}) || !bytes.Equal(back[4+n:], []byte{0xA5, 0xA5, 0xA5, 0xA5}) {
		return "bytes outside of the destination were changed"
	}
	if nd < 0 || nd > n || ns < 0 || ns > len(src0) {
		return fmt.Sprintf("counts %d and %d for buffers of %d and %d", nd, ns, n, len(src0))
	}
	// what must have happened
	wd, ws := 0, 0
	var out []byte
	var want error
	for ws < len(src0) {
		step, inc := 1, false
		if src0[ws] >= 0x80 {
			if decoding {
				step = 2
				inc = len(src0)-ws < 2
			} else {
				_, step = utf8.DecodeRune(src0[ws:])
				inc = !eof && !utf8.FullRune(src0[ws:])
			}
		}
		if inc {
			want = transform.ErrShortSrc
			if eof {
				want = cp949.ErrCP949UnexpectedStream
			}
			break
		}
		var c []byte
		if decoding {
			c, _ = decode(src0[ws : ws+step])
		} else {
			c, _ = encode(src0[ws:ws+step], false)
		}
		if wd+len(c) > n {
			want = transform.ErrShortDst
			break
		}
		out = append(out, c...)
		wd += len(c)
		ws += step
	}
	if nd != wd || ns != ws || err != want {
		return fmt.Sprintf("got %d, %d, %v; want %d, %d, %v", nd, ns, err, wd, ws, want)
	}
	if !bytes.Equal(dst[:nd], out) {
		return differ("destination", dst[:nd], out)
	}
	return ""
}

func (s *search) transforms(toks, tails []string) {
	short := 0
	s.texts(toks, tails, func(b []byte) {
		if len(b) > 20000 {
			return
		}
		short++
		max := len(b)*3 + 2
		if max > 14 && short%16 != 0 {
			max = 14
		}
		if max > 60 {
			max = 60
		}
		for n := 0; n <= max; n++ {
			for e := int64(0); e < 2; e++ {
				s.try([]int64{int64(n), e, 0}, b)
			}
		}
		for e := int64(0); e < 2; e++ {
			s.try([]int64{int64(len(b) * 3), e, 0, int64(s.rnd.Intn(len(b) + 3)), 1 - e, 0, 100, e, 0}, b)
		}
		if len(b) > 60 {
			for _, n := range []int{127, 128, 255, 256, 1023, 1024, 2048, 4095, 4096, len(b) - 1, len(b), len(b) + 1, len(b)/2 - 1, len(b) / 2, len(b) * 3 / 2, len(b)*3/2 - 1} {
				for e := int64(0); e < 2; e++ {
					s.try([]int64{int64(n), e, 0}, b)
				}
			}
		}
	})
}

// ---- Reader: ints are error kind, flags, number of chunks, chunks, sizes

var errSource = errors.New("source failed")

type source struct {
	data   []byte
	chunks []int64
	err    error
	flags  int64
	done   int // bytes delivered
	ended  bool
	zero   bool // returned (0, nil) since last asked
	calls  int
}

func (s *source) Read(p []byte) (int, error) {
	s.calls++
	if s.ended {
		return 0, s.err
	}
	if len(p) == 0 {
		s.zero = true
		return 0, nil
	}
	n := len(s.data) - s.done
	if len(s.chunks) > 0 {
		if int64(n) > s.chunks[0] {
			n = int(s.chunks[0])
		}
		s.chunks = s.chunks[1:]
	}
	if s.flags&4 != 0 && n > 3 {
		n = 3
	}
	if n > len(p) {
		n = len(p)
	}
	if s.flags&2 != 0 {
		for i := range p {
			p[i] = 0xEE // scratch space
		}
	}
	copy(p, s.data[s.done:s.done+n])
	s.done += n
	if s.done == len(s.data) && (s.flags&1 != 0 || n == 0 && len(s.chunks) == 0) {
		s.ended = true
		return n, s.err
	}
	if n == 0 {
		s.zero = true
	}
	return n, nil
}

func readerCase(k *kase) string {
	errs := []error{io.EOF, errSource, io.ErrUnexpectedEOF, io.ErrNoProgress}
	n := int(k.Ints[2])
	if 3+n > len(k.Ints) {
		return ""
	}
	src := &source{data: append([]byte{}, k.Strs[0]...), err: errs[k.Ints[0]], flags: k.Ints[1], chunks: append([]int64{}, k.Ints[3:3+n]...)}
	sizes := k.Ints[3+n:]
	if len(sizes) == 0 {
		sizes = []int64{64}
	}
	r, err := cp949.NewReader(src)
	if err != nil || r == nil {
		return fmt.Sprintf("NewReader: %v, %v", r, err)
	}
	// another reader, used in between, is independent
	var other io.Reader
	if k.Ints[1]&8 != 0 {
		other, _ = cp949.NewReader(bytes.NewReader([]byte("\xc7\xd1\xb1\xdb\xb0")))
	}
	// the decoding of each beginning of the data: how much of full it is
	full, _ := decode(src.data)
	olen, dang := make([]int, len(src.data)+1), make([]int, len(src.data)+1)
	for i, o := 0, 0; i < len(src.data); {
		n := 1
		if src.data[i] >= 0x80 {
			n = 2
			dang[i+1] = 1
			olen[i+1] = o
		}
		if i+n > len(src.data) {
			break
		}
		c, _ := decode(src.data[i : i+n])
		o += len(c)
		i += n
		olen[i] = o
	}
	var got []byte
	seen := 0
	zeros := 0
	for i := 0; i < 100000; i++ {
		size := int(sizes[i%len(sizes)])
		back := bytes.Repeat([]byte{0x5A}, size+8)
		buf := back[4 : 4+size]
		src.zero = false
		calls := src.calls
		m, err := r.Read(buf)
		if !bytes.Equal(back[:4], []byte("ZZZZ")) || !bytes.Equal(back[4+size:], []byte("ZZZZ")) {
			return "Read changed bytes outside of the buffer"
		}
		if m < 0 || m > size {
			return fmt.Sprintf("Read returned %d for a buffer of %d", m, size)
		}
		got = append(got, buf[:m]...)
		want, left := full[:olen[src.done]], dang[src.done]
		if len(got) > len(want) || !bytes.Equal(got[seen:], want[seen:len(got)]) {
			return differ("read so far", got, want)
		}
		seen = len(got)
		switch {
		case err == nil:
			if m == 0 && size > 0 {
				if !src.zero {
					return fmt.Sprintf("Read returned 0, nil for a buffer of %d although the source did not", size)
				}
				zeros++
				if zeros > 10000 {
					return "Read does not get ahead"
				}
			}
			if src.calls > calls+2+len(src.data) {
				return "the source is asked again and again"
			}
		case len(got) != len(want):
			return differ(fmt.Sprintf("read when %v was reported", err), got, want)
		case !src.ended:
			return fmt.Sprintf("Read reports %v before the source does", err)
		case src.err == io.EOF && left > 0:
			if err != cp949.ErrCP949UnexpectedStream {
				return differ("error at a truncated end", err, cp949.ErrCP949UnexpectedStream)
			}
		case err != src.err:
			return differ("error at the end", err, src.err)
		}
		if err != nil {
			if src.done != len(src.data) {
				return fmt.Sprintf("error %v with %d bytes of the source unread", err, len(src.data)-src.done)
			}
			b := make([]byte, 16)
			m, err2 := r.Read(b)
			if m != 0 {
				return fmt.Sprintf("Read after the error %v: %d, %v", err, m, err2)
			}
			return ""
		}
		if other != nil {
			var b [1]byte
			other.Read(b[:])
		}
	}
	return "Read never reports the end"
}

func (s *search) readers() {
	run := func(b []byte, kind, flags int64, chunks, sizes []int64) {
		ints := append([]int64{kind, flags, int64(len(chunks))}, chunks...)
		s.try(append(ints, sizes...), b)
	}
	i := 0
	one := func(b []byte) {
		if len(b) > 9000 {
			return
		}
		i++
		run(b, 0, 0, nil, []int64{64})
		run(b, int64(i%2), int64(i/2%16), nil, []int64{int64(i%9 + 1)})
		run(b, int64(i/3%2), int64(i%16), []int64{1, 0, 1, 1, 2, 0, 0, 1, 3}, []int64{int64(i%5 + 1), 0, 3, 1, 2})
		n := s.rnd.Intn(10)
		var ch, sz []int64
		for j := 0; j < n; j++ {
			ch = append(ch, int64(s.rnd.Intn(4)))
		}
		for j := 0; j < 3; j++ {
			sz = append(sz, int64(s.rnd.Intn(7)))
		}
		sz = append(sz, int64(1+s.rnd.Intn(3)))
		run(b, int64(s.rnd.Intn(4)), int64(s.rnd.Intn(16)), ch, sz)
	}
	// short sources, every way to split them
	for _, d := range []string{"", "a", "\xb0", "\xb0\xa1", "a\xb0\xa1", "\xb0\xa1\xb0", "\xb0\xa1a", "ab\xb0\xa1\xc8\xfe", "\xb0\xa1\xc8\xfe\xb0\xa1\xff", "\x80\x80\x80", "\xb0\xa1\xa1"} {
		for mask := 0; mask < 1<<uint(len(d)); mask++ {
			var ch []int64
			run1 := int64(1)
			for j := 1; j < len(d); j++ {
				if mask>>uint(j)&1 != 0 {
					ch = append(ch, run1)
					run1 = 0
					if mask&1 != 0 {
						ch = append(ch, 0)
					}
				}
				run1++
			}
			ch = append(ch, run1)
			for _, sz := range [][]int64{{1}, {2}, {3}, {4}, {100}, {0, 1}, {0, 2, 3}, {1, 5}} {
				for fl := int64(0); fl < 4; fl++ {
					for kd := int64(0); kd < 2; kd++ {
						run([]byte(d), kd, fl, ch, sz)
					}
				}
			}
		}
	}
	// long ones with large buffers
	for _, n := range []int{100, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193} {
		for _, t := range []string{"\xb0\xa1", "a\xb0\xa1", "a", "\xff\xff", "ab\xb0\xa1\x81A"} {
			for _, tail := range []string{"", "\xb0", "\xb0\xa1"} {
				b := []byte(strings.Repeat(t, n/len(t)) + tail)
				for _, sz := range [][]int64{{512}, {1024}, {4096}, {100000}, {7}, {1000, 1}} {
					run(b, 0, 0, nil, sz)
					run(b, 0, 1, []int64{511, 1, 512, 1023}, sz)
					run(b, 1, 3, []int64{1025, 1024, 3}, sz)
				}
			}
		}
	}
	s.texts(cpTokens, cpTails, one)
}

// ---- Writer: ints are fail at (0: never), flags, then lengths of writes

var errSink = errors.New("destination failed")

type sink struct {
	got    []byte
	failAt int
	short  bool
	calls  int
	failed bool
	keep   [][]byte
}

func (d *sink) Write(p []byte) (int, error) {
	d.calls++
	if d.failAt > 0 && d.calls == d.failAt {
		d.failed = true
		n := 0
		if d.short && len(p) > 0 {
			n = len(p) - 1
		}
		d.got = append(d.got, p[:n]...)
		return n, errSink
	}
	d.got = append(d.got, p...)
	return len(p), nil
}

func writerCase(k *kase) string {
	d := &sink{failAt: int(k.Ints[0]), short: k.Ints[1]&1 != 0}
	w, err := cp949.NewWriter(d)
	if err != nil || w == nil {
		return fmt.Sprintf("NewWriter: %v, %v", w, err)
	}
	var other io.Writer
	if k.Ints[1]&4 != 0 {
		other, _ = cp949.NewWriter(&sink{})
	}
	data := k.Strs[0]
	done := 0
	lens := append([]int64{}, k.Ints[2:]...)
	for i := 0; ; i++ {
		n := len(data) - done
		if i < len(lens) && int(lens[i]) < n {
			n = int(lens[i])
		}
		if i >= len(lens) && n == 0 {
			return ""
		}
		back := append(append([]byte("[[[["), data[done:done+n]...), "\xac\x00]]"...)
		p := back[4 : 4+n]
		m, err := w.Write(p)
		if !bytes.Equal(back, append(append([]byte("[[[["), data[done:done+n]...), "\xac\x00]]"...)) {
			return differ(fmt.Sprintf("Write %d changed its data", i+1), back, data[done:done+n])
		}
		for j := range back {
			back[j] = 0xCC // not to be used any more
		}
		if d.failed {
			if m != 0 || err != errSink {
				return fmt.Sprintf("Write %d, of which the destination failed, returned %d, %v", i+1, m, err)
			}
			want, _ := encode(data[:done+n], true)
			if len(d.got) > len(want) || !bytes.Equal(d.got, want[:len(d.got)]) {
				return differ("written until the destination failed", d.got, want)
			}
			w.Write([]byte("x\xea"))
			w.Write(nil)
			return ""
		}
		if m != n || err != nil {
			return fmt.Sprintf("Write %d of %d bytes returned %d, %v", i+1, n, m, err)
		}
		done += n
		want, left := encode(data[:done], true)
		if !bytes.Equal(d.got, want) {
			return differ(fmt.Sprintf("destination after write %d (%d bytes held back)", i+1, left), d.got, want)
		}
		if other != nil {
			other.Write([]byte("\xea\xb0"))
		}
	}
}

func (s *search) writers() {
	run := func(b []byte, fail, flags int64, lens ...int64) {
		s.try(append([]int64{fail, flags}, lens...), b)
	}
	for _, d := range []string{"", "a", "가", "가나", "a가", "\xea", "\xea\xb0", "a\xea", "\xff가", "😀a", "가😀", "\xf0\x9f\x98", "\xf0\x9f가", "\xea가a", "\xe0\x80\x80", "\xed\xa0\x80", "é가a"} {
		for mask := 0; mask < 1<<uint(len(d)); mask++ {
			var ch []int64
			run1 := int64(1)
			for j := 1; j < len(d); j++ {
				if mask>>uint(j)&1 != 0 {
					ch = append(ch, run1)
					run1 = 0
					if mask&1 != 0 {
						ch = append(ch, 0)
					}
				}
				run1++
			}
			ch = append(ch, run1)
			run([]byte(d), 0, 0, ch...)
			run([]byte(d), 0, 4, ch...)
			for f := int64(1); f < 5; f++ {
				run([]byte(d), f, f, ch...)
			}
		}
	}
	i := 0
	s.texts(u8tokens, []string{"", "\xea", "\xea\xb0", "\xf0\x9f\x98", "가"}, func(b []byte) {
		if len(b) > 9000 {
			return
		}
		i++
		run(b, 0, 0)
		run(b, 0, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)
		run(b, int64(i%4), int64(i%8), 2, 2, 2, 2, 2, 2, 2)
		run(b, int64(i%3), int64(i%8), 3, 1, 0, 4, 2, 3, 1)
		var ch []int64
		for j := 0; j < 12; j++ {
			ch = append(ch, int64(s.rnd.Intn(6)))
		}
		run(b, int64(s.rnd.Intn(5)), int64(s.rnd.Intn(8)), ch...)
		if len(b) > 100 {
			for _, n := range []int64{100, 511, 512, 1023, 1024, 4095, 4096} {
				run(b, 0, 0, n, n, n)
			}
		}
	})
}

// ---- memory: results and inputs are not shared

func memoryCase(k *kase) string {
	b := k.Strs[0]
	type res struct {
		what string
		got  []byte
		copy []byte
	}
	var rs []res
	conv := func(what string, f func([]byte) ([]byte, error)) string {
		back := append(append([]byte("{{{{"), b...), "\xb0}}}"...)
		in := back[4 : 4+len(b)]
		out, _ := f(in)
		if string(back) != "{{{{"+string(b)+"\xb0}}}" {
			return differ(what+" changed its input", back, b)
		}
		c := append([]byte{}, out...)
		for i := range back {
			back[i] ^= 0x55
		}
		if !bytes.Equal(out, c) {
			return what + ": the result is shared with the input"
		}
		rs = append(rs, res{what, out, c})
		return ""
	}
	for round := 0; round < 3; round++ {
		if m := conv("From", cp949.From); m != "" {
			return m
		}
		if m := conv("To", cp949.To); m != "" {
			return m
		}
		for i, r := range rs {
			if !bytes.Equal(r.got, r.copy) {
				return differ(fmt.Sprintf("%s, result %d, after later calls", r.what, i), r.got, r.copy)
			}
		}
		if round > 0 {
			for i := range rs {
				full := rs[i].got[:cap(rs[i].got)]
				for j := range full {
					full[j] ^= 0x33
				}
				rs[i].copy = append([]byte{}, rs[i].got...)
				for j, r := range rs {
					if !bytes.Equal(r.got, r.copy) {
						return fmt.Sprintf("%s: results %d and %d share memory", r.what, i, j)
					}
				}
			}
		}
	}
	want, left := decode(b)
	if out, err := cp949.From(append([]byte{}, b...)); left == 0 && (err != nil || !bytes.Equal(out, want)) {
		return differ("From after writing to earlier results", out, want)
	}
	wantE, _ := encode(b, false)
	if out, err := cp949.To(append([]byte{}, b...)); err != nil || !bytes.Equal(out, wantE) {
		return differ("To after writing to earlier results", out, wantE)
	}
	for r := rune(0x1100); r < 0x3200; r++ {
		if r == 0x1200 {
			r = 0x3130
		}
		e1, _ := hangul.SplitMultiElement(r)
		for i := range e1 {
			e1[i]++
		}
		e2, _ := hangul.SplitMultiElement(r)
		if string(e2) != string(refEl[compatJ(r)]) {
			return differ(fmt.Sprintf("SplitMultiElement(%#x) after writing to an earlier result", r), e2, refEl[compatJ(r)])
		}
	}
	return ""
}

func (s *search) memory() {
	s.try(nil, nil)
	i := 0
	f := func(b []byte) {
		i++
		if len(b) < 3000 && (len(b) < 12 || i%20 == 0) {
			s.try(nil, b)
		}
	}
	s.deadline = time.Now().Add(time.Until(s.deadline) / 2)
	end := s.deadline.Add(time.Until(s.deadline))
	s.texts(cpTokens, cpTails, f)
	s.deadline, s.stop = end, false
	s.texts(u8tokens, nil, f)
}

// togetherCase uses everything concurrently; each result is as alone.
func togetherCase(k *kase) string {
	rnd := rand.New(rand.NewSource(k.Ints[0]))
	var codes []byte
	var text, hj strings.Builder
	for i := 0; i < 300; i++ {
		c := cpKeys[rnd.Intn(len(cpKeys))]
		codes = append(codes, byte(c>>8), byte(c))
		text.WriteRune(refCP[c])
		hj.WriteRune(hjKeys[rnd.Intn(len(hjKeys))])
	}
	syl := 0xAC00 + rune(rnd.Intn(11172))
	work := func(fresh bool) string {
		var sb strings.Builder
		in := append([]byte{}, codes...)
		out, err := cp949.From(in)
		fmt.Fprintf(&sb, "%s %v|", out, err)
		out, err = cp949.To([]byte(text.String()))
		fmt.Fprintf(&sb, "%x %v|", out, err)
		r, _ := cp949.NewReader(bytes.NewReader(codes))
		out, err = io.ReadAll(r)
		fmt.Fprintf(&sb, "%s %v|", out, err)
		var b bytes.Buffer
		w, _ := cp949.NewWriter(&b)
		io.Copy(w, strings.NewReader(text.String()))
		fmt.Fprintf(&sb, "%x|", b.Bytes())
		out, err = cp949.NewCP949Encoding().NewDecoder().Bytes(codes)
		fmt.Fprintf(&sb, "%s %v|", out, err)
		out, err = cp949.NewCP949Encoding().NewEncoder().Bytes([]byte(text.String()))
		fmt.Fprintf(&sb, "%x %v|", out, err)
		fmt.Fprint(&sb, hanja.Convert(hj.String()))
		for i := rune(0); i < 60; i++ {
			c := syl + i
			l, m, t := hangul.Split(c)
			es, ok := hangul.SplitMultiElement(0x3131 + i)
			fmt.Fprint(&sb, l, m, t, hangul.Join(l, m, t), hangul.Stroke(c), hangul.CompatJamo(l), hangul.Lead(0x3131+i), hangul.Medial(0x3131+i), hangul.Tail(0x3131+i), es, ok, hangul.IsHangul(c), hanja.IsHanja(c), hangul.LastConsonant(string(c)), hangul.AppendPostposition(string(c), "으로", "로"), hangul.IsJaeum(l), hangul.IsMoeum(m))
			for j := range es {
				es[j] = 0
			}
		}
		return sb.String()
	}
	want := work(true)
	var wg sync.WaitGroup
	bad := make(chan string, 16)
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad <- fmt.Sprintf("panic when used concurrently: %v", e)
				}
			}()
			for i := 0; i < 2; i++ {
				if got := work(false); got != want {
					bad <- differ("results when used concurrently", got, want)
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case m := <-bad:
		return m
	default:
		return ""
	}
}
