package main

// The contract language: lexer, parser.  See /verif/contracts/*.spec.

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
)

type tok struct {
	k    string // id, int, str, op, eof
	s    string
	line int
}

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (isIdent(src[j])) {
				j++
			}
			out = append(out, tok{"int", src[i:j], line})
			i = j
		case isIdent(c) || c == '@':
			j := i
			for j < len(src) && (isIdent(src[j]) || src[j] == '@' || src[j] == '.' && j+1 < len(src) && isIdent(src[j+1])) {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				fatal("%s:%d: bad literal %s", file, line, src[i:j+1])
			}
			if c == '\'' {
				out = append(out, tok{"int", fmt.Sprint([]rune(s)[0]), line})
			} else {
				out = append(out, tok{"str", s, line})
			}
			i = j + 1
		default:
			m := string(c)
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					m = o
					break
				}
			}
			out = append(out, tok{"op", m, line})
			i += len(m)
		}
	}
	return append(out, tok{"eof", "", line})
}

func isIdent(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$' || c == '#'
}

// Expr is an expression of the contract language.
type Expr struct {
	op   string // id, int, str, call, index, slice, un:..., bin operators, forall, let
	s    string
	n    *big.Int
	args []*Expr
	vars []string // forall: names; sorts in sorts
	srts []Sort
	pats [][]*Expr
}

func (e *Expr) String() string {
	switch e.op {
	case "id":
		return e.s
	case "int":
		return e.n.String()
	case "str":
		return strconv.Quote(e.s)
	case "call":
		var as []string
		for _, a := range e.args {
			as = append(as, a.String())
		}
		return e.s + "(" + strings.Join(as, ", ") + ")"
	case "index":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "slice":
		a, b := "", ""
		if e.args[1] != nil {
			a = e.args[1].String()
		}
		if e.args[2] != nil {
			b = e.args[2].String()
		}
		return e.args[0].String() + "[" + a + ":" + b + "]"
	case "forall":
		return "(forall " + strings.Join(e.vars, ", ") + " :: " + e.args[0].String() + ")"
	case "un!", "un-":
		return e.op[2:] + e.args[0].String()
	}
	return "(" + e.args[0].String() + " " + e.op + " " + e.args[1].String() + ")"
}

type parser struct {
	file string
	t    []tok
	i    int
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vc: "+f+"\n", a...)
	panic(fatalErr{fmt.Sprintf(f, a...)})
}

type fatalErr struct{ msg string }

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { p.i++; return p.t[p.i-1] }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		fatal("%s:%d: expected %q, found %q", p.file, p.peek().line, s, p.peek().s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		fatal("%s:%d: expected a name, found %q", p.file, t.line, t.s)
	}
	return t.s
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 6, "<=": 6, ">": 6, ">=": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		if t.s == "?" {
			continue
		}
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		r := p.expr(nm)
		// chained comparisons: a <= b < c
		if pr == 6 {
			e := &Expr{op: t.s, args: []*Expr{l, r}}
			for {
				t2 := p.peek()
				if t2.k != "op" || binPrec[t2.s] != 6 {
					break
				}
				p.next()
				r2 := p.expr(7)
				e = &Expr{op: "&&", args: []*Expr{e, {op: t2.s, args: []*Expr{r, r2}}}}
				r = r2
			}
			l = e
			continue
		}
		l = &Expr{op: t.s, args: []*Expr{l, r}}
	}
}

func (p *parser) unary() *Expr {
	if p.peek().k == "op" {
		switch p.peek().s {
		case "!":
			p.next()
			return &Expr{op: "un!", args: []*Expr{p.unary()}}
		case "-":
			p.next()
			return &Expr{op: "un-", args: []*Expr{p.unary()}}
		}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for p.peek().k == "op" && p.is("[") {
		p.next()
		var a *Expr
		if !p.is(":") {
			a = p.expr(0)
		}
		if p.accept(":") {
			var b *Expr
			if !p.is("]") {
				b = p.expr(0)
			}
			p.expect("]")
			e = &Expr{op: "slice", args: []*Expr{e, a, b}}
			continue
		}
		p.expect("]")
		e = &Expr{op: "index", args: []*Expr{e, a}}
	}
	return e
}

func parseSort(p *parser, s string) Sort {
	switch s {
	case "int", "rune", "byte":
		return SInt
	case "bool":
		return SBool
	case "seq", "string":
		return SSeq
	}
	fatal("%s: unknown sort %q", p.file, s)
	return 0
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			fatal("%s:%d: bad number %q", p.file, t.line, t.s)
		}
		return &Expr{op: "int", n: n}
	case "str":
		return &Expr{op: "str", s: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	case "id":
		if t.s == "forall" {
			e := &Expr{op: "forall"}
			for {
				names := []string{p.ident()}
				for p.accept(",") {
					names = append(names, p.ident())
				}
				p.expect(":")
				s := parseSort(p, p.ident())
				for _, n := range names {
					e.vars = append(e.vars, n)
					e.srts = append(e.srts, s)
				}
				if !p.accept(";") {
					break
				}
			}
			p.expect("::")
			for p.accept("{") {
				var pt []*Expr
				for {
					pt = append(pt, p.expr(0))
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				e.pats = append(e.pats, pt)
			}
			e.args = []*Expr{p.expr(0)}
			return e
		}
		if t.s == "if" {
			c := p.expr(0)
			p.expect("then")
			a := p.expr(0)
			p.expect("else")
			b := p.expr(0)
			return &Expr{op: "call", s: "ite", args: []*Expr{c, a, b}}
		}
		if p.peek().k == "op" && p.is("(") {
			p.next()
			e := &Expr{op: "call", s: t.s}
			for !p.is(")") {
				e.args = append(e.args, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return e
		}
		return &Expr{op: "id", s: t.s}
	}
	fatal("%s:%d: unexpected %q", p.file, t.line, t.s)
	return nil
}

// ---- declarations

type Def struct {
	name   string
	params []string
	sorts  []Sort
	ret    Sort
	body   *Expr
	rec    bool
	cut    bool // opaque: body only if revealed
}

type Clause struct {
	props []string
	e     *Expr
	src   string
	pos   string
}

// Stmt of a unit: a call of a real function.
type Stmt struct {
	res  []string
	fn   string
	args []*Expr
	pos  string
	kind string // call, assume, assert, set
	cl   *Clause
}

// Method of an object unit: a call which a client may make at any time.
type Method struct {
	name           string
	params, ptypes []string
	writes         []string // parameters which the call may write to
	body           []*Stmt
}

// Try is a schema of candidate invariants: it is instantiated with the byte
// slices and errors of a state.
type Try struct {
	params, ptypes []string
	e              *Expr
	src            string
}

// Contract is a contract of a function, or a unit (a client of the real
// functions with an assertion), or a lemma.
type Contract struct {
	kind    string // func, unit, lemma
	name    string // func: pkg.Name or pkg.(T).Name
	params  []string
	ptypes  []string
	results []string
	req     []*Clause
	ens     []*Clause
	writes  map[string]*Clause
	trusted string
	helper  bool
	inline  bool  // callers see the body
	decr    *Expr // measure for recursive calls
	file    string
	pure    bool
	cases   []*Expr
	reveal  []string
	induct  string
	over    string
	rlo     int64
	rhi     int64
	trig    [][]*Expr
	local   bool
	body    []*Stmt
	props   []string
	pos     string
	needs   []string
	nowarn  bool
	methods []*Method // of an object
	tries   []*Try
	mem     []*MemClause // of a helper
	ok      bool         // verified in this run
	tried   bool
}

// MemClause says what a function does to memory:
//
//	given F := G    field F has the value G
//	append D Q := E the result Q is D with E appended, as by the built-in
//	grow F Q        field F, used up to its capacity, is replaced by a slice
//	                of the same array or of a new one, which is the result Q
type MemClause struct {
	kind, a, b string
	e          *Clause
}

// TemplateDecl names a function F of the rest of an input for which loop
// invariants "output so far + F(rest) = F(input)" are tried.
type TemplateDecl struct {
	fn, from, to string // from, to: bytes, runes, bool
	file         string
}

type ConstDecl struct {
	props []string
	name  string
	val   *big.Int
	pos   string
}

type SpecFile struct {
	defs      []*Def
	cons      []*Contract
	templates []*TemplateDecl
	consts    []*ConstDecl
	tables    []*TableDecl
}

// TableDecl declares a finite reference map read from a file.
type TableDecl struct {
	name string
	file string
	col  [2]int
	def  int64
	kmax int64
}

func (p *parser) clause(props []string) *Clause {
	c := &Clause{props: props, pos: fmt.Sprintf("%s:%d", p.file, p.peek().line)}
	if p.peek().k == "op" && p.is("[") {
		p.next()
		c.props = nil
		for {
			c.props = append(c.props, p.ident())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
	}
	c.e = p.expr(0)
	c.src = c.e.String()
	return c
}

func parseSpec(file, src string) *SpecFile {
	p := &parser{file: file, t: lexSpec(file, src)}
	f := &SpecFile{}
	paramList := func() (names, typs []string) {
		p.expect("(")
		for !p.is(")") {
			n := p.ident()
			ty := ""
			if p.accept(":") {
				ty = p.ident()
			}
			names = append(names, n)
			typs = append(typs, ty)
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		return
	}
	for p.peek().k != "eof" {
		t := p.next()
		pos := fmt.Sprintf("%s:%d", file, t.line)
		switch t.s {
		case "def", "rec", "fun":
			d := &Def{name: p.ident(), rec: t.s == "rec"}
			ns, ts := paramList()
			d.params = ns
			for _, ty := range ts {
				d.sorts = append(d.sorts, parseSort(p, ty))
			}
			p.expect(":")
			d.ret = parseSort(p, p.ident())
			if p.accept("opaque") {
				d.cut = true
			}
			if t.s != "fun" {
				p.expect(":=")
				d.body = p.expr(0)
			}
			f.defs = append(f.defs, d)
		case "table":
			d := &TableDecl{name: p.ident()}
			d.file = p.next().s
			d.col[0], _ = strconv.Atoi(p.next().s)
			d.col[1], _ = strconv.Atoi(p.next().s)
			neg := p.accept("-")
			d.def, _ = strconv.ParseInt(p.next().s, 0, 64)
			if neg {
				d.def = -d.def
			}
			f.tables = append(f.tables, d)
		case "const":
			var props []string
			p.expect("[")
			props = append(props, p.ident())
			p.expect("]")
			for {
				c := &ConstDecl{props: props, name: p.ident(), pos: pos}
				p.expect("==")
				e := p.primary()
				c.val = e.n
				f.consts = append(f.consts, c)
				if !p.accept(",") {
					break
				}
			}
		case "template":
			tp := &TemplateDecl{file: file}
			tp.fn = p.ident()
			tp.from = p.ident()
			tp.to = p.ident()
			f.templates = append(f.templates, tp)
		case "func", "unit", "lemma", "object":
			c := &Contract{kind: t.s, pos: pos, file: file, writes: map[string]*Clause{}}
			c.name = p.ident()
			for t.s == "func" && p.accept("/") {
				c.name += "/" + p.ident()
			}
			if t.s == "func" && p.peek().s == "(" && strings.HasSuffix(c.name, ".") {
			}
			if t.s != "object" || p.is("(") {
				c.params, c.ptypes = paramList()
			}
			if p.peek().k == "op" && p.is("(") {
				c.results, _ = paramList()
			}
			if p.peek().k == "op" && p.is("[") {
				p.next()
				for {
					c.props = append(c.props, p.ident())
					if !p.accept(",") {
						break
					}
				}
				p.expect("]")
			}
			addStmt := func(s *Stmt) {
				if n := len(c.methods); n > 0 {
					c.methods[n-1].body = append(c.methods[n-1].body, s)
					return
				}
				c.body = append(c.body, s)
			}
		loop:
			for p.peek().k == "id" {
				switch p.peek().s {
				case "method":
					p.next()
					m := &Method{name: p.ident()}
					m.params, m.ptypes = paramList()
					if p.accept("writes") {
						for {
							m.writes = append(m.writes, p.ident())
							if !p.accept(",") {
								break
							}
						}
					}
					c.methods = append(c.methods, m)
				case "try":
					p.next()
					t := &Try{}
					t.params, t.ptypes = paramList()
					t.e = p.expr(0)
					t.src = t.e.String()
					c.tries = append(c.tries, t)
				case "set":
					p.next()
					st := &Stmt{kind: "set", res: []string{p.ident()}}
					p.expect(":=")
					st.cl = p.clause(c.props)
					addStmt(st)
				case "requires":
					p.next()
					c.req = append(c.req, p.clause(c.props))
				case "ensures":
					p.next()
					c.ens = append(c.ens, p.clause(c.props))
				case "writes":
					p.next()
					n := p.ident()
					p.expect(":=")
					c.writes[n] = p.clause(c.props)
				case "trusted":
					p.next()
					c.trusted = p.next().s
				case "helper":
					p.next()
					c.helper = true
				case "given", "append", "grow":
					m := &MemClause{kind: p.next().s, a: p.ident()}
					if m.kind != "given" {
						m.b = p.ident()
					}
					if m.kind != "grow" {
						p.expect(":=")
						m.e = p.clause(c.props)
					}
					c.mem = append(c.mem, m)
				case "inline":
					p.next()
					c.inline = true
				case "decreases":
					p.next()
					c.decr = p.expr(0)
				case "pure":
					p.next()
					c.pure = true
				case "case":
					p.next()
					c.cases = append(c.cases, p.expr(0))
				case "reveal":
					p.next()
					for {
						c.reveal = append(c.reveal, p.ident())
						if !p.accept(",") {
							break
						}
					}
				case "over":
					// a lemma about the entries of a table, or a range,
					// shown by evaluation
					p.next()
					if p.peek().k == "id" {
						c.over = p.ident()
					} else {
						c.over = "range"
						c.rlo, c.rhi = p.primary().n.Int64(), p.primary().n.Int64()
					}
				case "induction":
					p.next()
					c.induct = p.ident()
				case "local":
					// only other lemmas, and what reveals it, use the lemma
					p.next()
					c.local = true
				case "trigger":
					p.next()
					var pt []*Expr
					for {
						pt = append(pt, p.expr(0))
						if !p.accept(",") {
							break
						}
					}
					c.trig = append(c.trig, pt)
				case "let":
					s := &Stmt{kind: "call", pos: fmt.Sprintf("%s:%d", file, p.peek().line)}
					p.next()
					for !p.is(":=") {
						s.res = append(s.res, p.ident())
						if !p.accept(",") {
							break
						}
					}
					p.expect(":=")
					s.fn = p.ident()
					p.expect("(")
					for !p.is(")") {
						s.args = append(s.args, p.expr(0))
						if !p.accept(",") {
							break
						}
					}
					p.expect(")")
					addStmt(s)
				case "assert":
					p.next()
					addStmt(&Stmt{kind: "assert", cl: p.clause(c.props)})
				case "assume":
					p.next()
					addStmt(&Stmt{kind: "assume", cl: p.clause(c.props)})
				default:
					break loop
				}
			}
			f.cons = append(f.cons, c)
		default:
			fatal("%s: unexpected %q", pos, t.s)
		}
	}
	return f
}
