package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------------- spec AST

type SExpr struct {
	op   string // "id","num","bin:<op>","un:<op>","call","sel","idx","slice","forall","exists","ite","seqlit","let","chain","str"
	name string
	args []*SExpr
	vars []SParam
	trig [][]*SExpr
	pos  string
}

type SParam struct {
	name string
	typ  *SType
}

type SType struct {
	kind string // "name","slice","ptr"
	name string
	elem *SType
}

type Clause struct {
	label string
	e     *SExpr
	pos   string
}

type GStmt struct {
	op   string // assert, call, set, if, reveal, var, assume
	e    *SExpr
	name string
	then []*GStmt
	els  []*GStmt
	args []*SExpr
	pos  string
}

type LoopSpec struct {
	inv    []Clause
	decr   []*SExpr
	unroll int
	mod    []*SExpr
}

type Contract struct {
	pkg      string
	key      string // pkg.Recv.Name
	recv     string
	params   []string
	props    []string
	mode     string
	flags    map[string]bool
	req, ens []Clause
	mods     []*SExpr
	modAll   bool
	reveal   []string
	use      []string
	loops    map[int]*LoopSpec
	gvars    []GVar
	ats      map[string][]*GStmt
	extern   bool
	inout    map[string]bool
	pos      string
	timeout  int
	implof   []string
	dispatch map[string]string // interface type -> type of the dynamic value
}

// Group: the representation behind a ghost field of one type.  A contract that
// modifies the ghost field of an argument of that type, seen as an interface,
// modifies the representation too and keeps the invariant.
type Group struct {
	recv, typ, field, pkg string
	mods                  []*SExpr
	keeps                 *SExpr
	pos                   string
}

// LocSet: a named set of locations
type LocSet struct {
	name, pkg string
	params    []SParam
	locs      []*SExpr
}

// Refine: the methods of a type keep the contract of the interface method
type Refine struct {
	iface, typ string
	except     []string
}

type GVar struct {
	name string
	typ  *SType
	init *SExpr
}

type SpecFn struct {
	name   string
	pkg    string
	params []SParam
	ret    *SType
	body   *SExpr
	opaque bool
	rec    bool
	decr   *SExpr
	pos    string
}

type Lemma struct {
	name    string
	pkg     string
	params  []SParam
	req     []Clause
	ens     []Clause
	trigs   [][]*SExpr
	auto    bool
	axiom   bool
	heap    bool // about the state where it is used
	decr    []*SExpr
	mode    string
	reveal  []string
	use     []string
	props   []string
	body    []*GStmt
	flags   map[string]bool
	pos     string
	timeout int
}

type GhostField struct {
	name string
	typ  *SType
	pkg  string
}

type Specs struct {
	reach     map[string][]string // units the proof of a property reached before
	hints     map[string]*Hint
	contracts map[string]*Contract
	fns       map[string]*SpecFn
	lemmas    map[string]*Lemma
	lemOrder  []string
	gfields   map[string]*GhostField
	groups    []*Group
	locsets   map[string]*LocSet
	refines   []*Refine
	ignore    map[string]bool
}

// ---------------- lexer

type tok struct {
	k, s string // k: id num op eof str
	line int
}

func lex(src string) ([]tok, error) {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "++", "::", "==", "!=", "<=", ">=", "&&", "||", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			// comment files: "//@" introduces specification text, "//" a comment
			if i+2 < len(src) && src[i+2] == '@' {
				i += 3
				continue
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '\'') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
		case c >= '0' && c <= '9':
			j := i + 1
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j])) || src[j] == '_') {
				j++
			}
			out = append(out, tok{"num", strings.ReplaceAll(src[i:j], "_", ""), line})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			out = append(out, tok{"str", src[i+1 : j], line})
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(c), line})
				i++
			}
		}
	}
	out = append(out, tok{"eof", "", line})
	return out, nil
}

type sparser struct {
	toks []tok
	p    int
	file string
	pkg  string
	sp   *Specs
}

func (p *sparser) cur() tok  { return p.toks[p.p] }
func (p *sparser) peek() tok { return p.toks[p.p+1] }
func (p *sparser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *sparser) pos() string {
	return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.cur().line)
}
func (p *sparser) fail(f string, a ...any) {
	panic(specErr(fmt.Sprintf("%s: %s (at %q)", p.pos(), fmt.Sprintf(f, a...), p.cur().s)))
}

type specErr string

func (p *sparser) is(s string) bool { t := p.cur(); return (t.k == "op" || t.k == "id") && t.s == s }
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *sparser) ident() string {
	if p.cur().k != "id" {
		p.fail("identifier expected")
	}
	return p.next().s
}

func LoadSpecs(dir string) (sp *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	sp = &Specs{contracts: map[string]*Contract{}, fns: map[string]*SpecFn{}, lemmas: map[string]*Lemma{}, gfields: map[string]*GhostField{}, locsets: map[string]*LocSet{}, ignore: map[string]bool{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ts, err := lex(string(b))
		if err != nil {
			return nil, err
		}
		p := &sparser{toks: ts, file: f, sp: sp}
		p.items()
	}
	return sp, nil
}

func (p *sparser) items() {
	for p.cur().k != "eof" {
		switch {
		case p.accept("package"):
			p.pkg = p.ident()
		case p.accept("ghost"):
			p.expect("field")
			n := p.ident()
			p.sp.gfields[n] = &GhostField{name: n, typ: p.typ(), pkg: p.pkg}
		case p.accept("group"):
			g := &Group{pkg: p.pkg, pos: p.pos()}
			p.expect("(")
			g.recv = p.ident()
			p.expect("*")
			g.typ = p.dotted()
			p.expect(")")
			g.field = p.ident()
			p.expect("modifies")
			g.mods = p.modlocs()
			p.expect("keeps")
			g.keeps = p.expr()
			p.sp.groups = append(p.sp.groups, g)
		case p.accept("locs"):
			l := &LocSet{pkg: p.pkg}
			l.name = p.ident()
			l.params = p.params()
			p.expect("=")
			l.locs = p.modlocs()
			p.sp.locsets[l.name] = l
		case p.accept("refine"):
			i := p.dotted()
			p.expect("by")
			var rs []*Refine
			for {
				rs = append(rs, &Refine{iface: i, typ: p.dotted()})
				if !p.accept(",") {
					break
				}
			}
			if p.accept("except") {
				for {
					rs[0].except = append(rs[0].except, p.dotted())
					if !p.accept(",") {
						break
					}
				}
			}
			p.sp.refines = append(p.sp.refines, rs...)
		case p.accept("ignore"):
			for {
				p.sp.ignore[p.dotted()] = true
				if !p.accept(",") {
					break
				}
			}
		case p.is("fn"):
			p.specFn()
		case p.is("lemma") || p.is("axiom"):
			p.lemma()
		case p.is("func") || p.is("extern"):
			p.contract()
		default:
			p.fail("item expected")
		}
	}
}

func (p *sparser) dotted() string {
	s := p.ident()
	for p.accept(".") {
		s += "." + p.ident()
	}
	return s
}

func (p *sparser) typ() *SType {
	if p.accept("[") {
		p.expect("]")
		return &SType{kind: "slice", elem: p.typ()}
	}
	if p.accept("*") {
		return &SType{kind: "ptr", elem: p.typ()}
	}
	return &SType{kind: "name", name: p.dotted()}
}

func (p *sparser) params() []SParam {
	var out []SParam
	p.expect("(")
	for !p.is(")") {
		n := p.ident()
		out = append(out, SParam{n, p.typ()})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

func (p *sparser) specFn() {
	pos := p.pos()
	p.expect("fn")
	f := &SpecFn{name: p.ident(), pkg: p.pkg, pos: pos}
	f.params = p.params()
	f.ret = p.typ()
	for {
		if p.accept("opaque") {
			f.opaque = true
		} else if p.accept("rec") {
			f.rec = true
			f.opaque = true
		} else if p.accept("decreases") {
			f.decr = p.postfix(p.primary())
		} else {
			break
		}
	}
	if p.accept("=") {
		f.body = p.expr()
	} else {
		f.opaque = true
	}
	if p.sp.fns[f.name] != nil {
		p.fail("duplicate fn %s", f.name)
	}
	p.sp.fns[f.name] = f
}

func (p *sparser) lemma() {
	l := &Lemma{pkg: p.pkg, pos: p.pos(), flags: map[string]bool{}}
	if p.accept("axiom") {
		l.axiom = true
		l.auto = true
	} else {
		p.expect("lemma")
	}
	l.name = p.ident()
	l.params = p.params()
	for {
		switch {
		case p.accept("property"):
			l.props = p.idlist()
		case p.accept("heap"):
			l.heap = true
		case p.accept("auto"):
			l.auto = true
		case p.accept("trigger"):
			p.expect("{")
			var tr []*SExpr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			l.trigs = append(l.trigs, tr)
			l.auto = true
		case p.accept("requires"):
			l.req = append(l.req, p.clause())
		case p.accept("ensures"):
			l.ens = append(l.ens, p.clause())
		case p.accept("decreases"):
			l.decr = append(l.decr, p.expr())
		case p.accept("mode"):
			l.mode = p.ident()
		case p.accept("timeout"):
			fmt.Sscanf(p.next().s, "%d", &l.timeout)
		case p.accept("reveal"):
			l.reveal = append(l.reveal, p.idlist()...)
		case p.accept("use"):
			l.use = append(l.use, p.idlist()...)
		case p.accept("unfoldall"):
			l.flags["unfoldall"] = true
		case p.is("{"):
			l.body = p.gblock()
		default:
			if p.sp.lemmas[l.name] != nil {
				p.fail("duplicate lemma %s", l.name)
			}
			p.sp.lemmas[l.name] = l
			p.sp.lemOrder = append(p.sp.lemOrder, l.name)
			return
		}
	}
}

func (p *sparser) idlist() []string {
	var out []string
	for {
		out = append(out, p.ident())
		if !p.accept(",") {
			return out
		}
	}
}

func (p *sparser) clause() Clause {
	c := Clause{pos: p.pos()}
	if p.cur().k == "id" && p.peek().s == ":" && p.peek().k == "op" {
		c.label = p.next().s
		p.next()
	}
	c.e = p.expr()
	return c
}

func (p *sparser) contract() {
	c := &Contract{pkg: p.pkg, flags: map[string]bool{}, loops: map[int]*LoopSpec{}, ats: map[string][]*GStmt{}, inout: map[string]bool{}, pos: p.pos()}
	if p.accept("extern") {
		c.extern = true
	}
	p.expect("func")
	if p.accept("(") {
		c.recv = p.ident()
		star := p.accept("*")
		_ = star
		tn := p.dotted()
		p.expect(")")
		name := p.ident()
		if strings.Contains(tn, ".") {
			c.key = tn + "." + name
		} else {
			c.key = p.pkg + "." + tn + "." + name
		}
	} else {
		name := p.dotted()
		if strings.Contains(name, ".") {
			c.key = name
		} else {
			c.key = p.pkg + "." + name
		}
	}
	if p.accept("@") {
		c.key += "@" + p.ident()
	}
	p.expect("(")
	for !p.is(")") {
		if p.accept("inout") {
			n := p.ident()
			c.inout[n] = true
			c.params = append(c.params, n)
		} else if p.accept("...") {
			c.params = append(c.params, "...")
		} else {
			c.params = append(c.params, p.ident())
		}
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	var loop *LoopSpec
	for {
		switch {
		case p.accept("property"):
			c.props = append(c.props, p.idlist()...)
		case p.accept("mode"):
			c.mode = p.ident()
		case p.accept("timeout"):
			fmt.Sscanf(p.next().s, "%d", &c.timeout)
		case p.accept("inline"):
			c.flags["inline"] = true
		case p.accept("trusted"):
			c.flags["trusted"] = true
		case p.accept("pure"):
			c.flags["pure"] = true
		case p.accept("byref"):
			c.flags["byref"] = true
		case p.accept("split"):
			c.flags["split"] = true
		case p.accept("nopanic"):
			c.flags["nopanic"] = true
		case p.accept("nocands"):
			c.flags["nocands"] = true
		case p.accept("requires"):
			c.req = append(c.req, p.clause())
		case p.accept("ensures"):
			c.ens = append(c.ens, p.clause())
		case p.accept("dispatch"):
			from := p.dotted()
			p.expect("as")
			if c.dispatch == nil {
				c.dispatch = map[string]string{}
			}
			c.dispatch[from] = p.dotted()
		case p.accept("modifies"):
			for {
				if p.accept("everything") {
					c.modAll = true
				} else {
					m := p.modloc()
					if p.accept("when") {
						m = &SExpr{op: "when", args: []*SExpr{m, p.expr()}, pos: m.pos}
					}
					c.mods = append(c.mods, m)
				}
				if !p.accept(",") {
					break
				}
			}
		case p.accept("reveal"):
			c.reveal = append(c.reveal, p.idlist()...)
		case p.accept("use"):
			c.use = append(c.use, p.idlist()...)
		case p.accept("loop"):
			var n int
			fmt.Sscanf(p.next().s, "%d", &n)
			loop = &LoopSpec{}
			c.loops[n] = loop
		case p.accept("invariant"):
			if loop == nil {
				p.fail("invariant outside loop")
			}
			loop.inv = append(loop.inv, p.clause())
		case p.accept("decreases"):
			if loop == nil {
				p.fail("decreases outside loop")
			}
			loop.decr = append(loop.decr, p.expr())
		case p.accept("unroll"):
			fmt.Sscanf(p.next().s, "%d", &loop.unroll)
		case p.accept("var"):
			g := GVar{name: p.ident()}
			g.typ = p.typ()
			if p.accept("=") {
				g.init = p.expr()
			}
			c.gvars = append(c.gvars, g)
		case p.accept("at"):
			w := p.ident()
			for p.cur().k == "num" || p.cur().k == "id" && !p.is("{") || p.is(".") {
				if p.is(".") {
					w += p.next().s + p.next().s
				} else {
					w += " " + p.next().s
				}
			}
			c.ats[w] = append(c.ats[w], p.gblock()...)
		default:
			if p.sp.contracts[c.key] != nil {
				p.fail("duplicate contract %s", c.key)
			}
			p.sp.contracts[c.key] = c
			return
		}
	}
}

func (p *sparser) modlocs() []*SExpr {
	var out []*SExpr
	for {
		m := p.modloc()
		if p.accept("when") {
			m = &SExpr{op: "when", args: []*SExpr{m, p.expr()}, pos: m.pos}
		}
		out = append(out, m)
		if !p.accept(",") {
			return out
		}
	}
}

func (p *sparser) modloc() *SExpr {
	// path with optional ".*"
	e := &SExpr{op: "id", pos: p.pos()}
	if p.accept("*") {
		in := p.modloc()
		return &SExpr{op: "deref", args: []*SExpr{in}, pos: in.pos}
	}
	e.name = p.ident()
	if e.name == "each" && p.is("(") { // a field of every object of a type
		p.next()
		t := p.typ()
		p.expect(")")
		p.expect(".")
		return &SExpr{op: "each", name: p.ident(), vars: []SParam{{"", t}}, pos: e.pos}
	}
	if p.is("(") {
		if _, ok := p.sp.locsets[e.name]; ok {
			p.next()
			e.op = "locscall"
			for !p.is(")") {
				e.args = append(e.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return e
		}
		if e.name != "as" { // a function of the specification
			c := &SExpr{op: "call", name: e.name, pos: e.pos}
			p.next()
			for !p.is(")") {
				c.args = append(c.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		} else {
			p.next()
			a := p.expr()
			p.expect(",")
			t := p.typ()
			p.expect(")")
			e = &SExpr{op: "call", name: "as", args: []*SExpr{a}, vars: []SParam{{"", t}}, pos: e.pos}
		}
	}
	for {
		if p.accept(".") {
			if p.accept("*") {
				e = &SExpr{op: "allfields", args: []*SExpr{e}, pos: e.pos}
			} else {
				e = &SExpr{op: "sel", name: p.ident(), args: []*SExpr{e}, pos: e.pos}
			}
		} else if p.is("[") {
			p.next()
			i := p.expr()
			p.expect("]")
			e = &SExpr{op: "idx", args: []*SExpr{e, i}, pos: e.pos}
		} else {
			return e
		}
	}
}

func (p *sparser) gblock() []*GStmt {
	p.expect("{")
	var out []*GStmt
	for !p.is("}") {
		out = append(out, p.gstmt())
	}
	p.expect("}")
	return out
}

func (p *sparser) gstmt() *GStmt {
	g := &GStmt{pos: p.pos()}
	switch {
	case p.accept("assert"):
		g.op = "assert"
		g.e = p.expr()
		if p.accept("by") {
			g.then = p.gblock()
		}
	case p.accept("assume"):
		g.op = "assume"
		g.e = p.expr()
	case p.accept("reveal"):
		g.op = "reveal"
		g.e = p.expr()
	case p.accept("var"):
		g.op = "var"
		g.name = p.ident()
		p.expect("=")
		g.e = p.expr()
	case p.accept("if"):
		g.op = "if"
		g.e = p.expr()
		g.then = p.gblock()
		if p.accept("else") {
			if p.is("if") {
				g.els = []*GStmt{p.gstmt()}
			} else {
				g.els = p.gblock()
			}
		}
	case p.accept("forall"):
		// forall x T :: lemma(args)  -- not supported; use auto lemmas
		p.fail("ghost forall not supported")
	default:
		if p.peek().s == "." {
			l := p.modloc()
			p.expect("=")
			g.op = "setfield"
			g.name = l.name
			g.args = []*SExpr{l.args[0]}
			g.e = p.expr()
			p.accept(";")
			return g
		}
		n := p.ident()
		if p.accept("=") {
			g.op = "set"
			g.name = n
			g.e = p.expr()
		} else {
			p.expect("(")
			g.op = "call"
			g.name = n
			for !p.is(")") {
				g.args = append(g.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		}
	}
	p.accept(";")
	return g
}

// ---------------- expressions

func (p *sparser) expr() *SExpr { return p.ternary() }

func (p *sparser) ternary() *SExpr {
	c := p.bin(0)
	if p.is("?") {
		pos := p.pos()
		p.next()
		a := p.ternary()
		p.expect(":")
		b := p.ternary()
		return &SExpr{op: "ite", args: []*SExpr{c, a, b}, pos: pos}
	}
	return c
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *sparser) bin(min int) *SExpr {
	l := p.unary()
	for {
		t := p.cur()
		if t.k != "op" {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr <= min && !(t.s == "==>" && pr == min+0 && false) {
			return l
		}
		pos := p.pos()
		p.next()
		var r *SExpr
		if t.s == "==>" {
			r = p.bin(pr - 1) // right associative
		} else {
			r = p.bin(pr)
		}
		n := &SExpr{op: "bin:" + t.s, args: []*SExpr{l, r}, pos: pos}
		if pr == 5 && l.op == "chain" {
			n = &SExpr{op: "chain", args: []*SExpr{l, {op: "bin:" + t.s, args: []*SExpr{l.args[len(l.args)-1].args[1], r}, pos: pos}}, pos: pos}
		} else if pr == 5 && strings.HasPrefix(l.op, "bin:") && prec[l.op[4:]] == 5 && l.name != "paren" {
			n = &SExpr{op: "chain", args: []*SExpr{l, {op: "bin:" + t.s, args: []*SExpr{l.args[1], r}, pos: pos}}, pos: pos}
		}
		l = n
	}
}

func (p *sparser) unary() *SExpr {
	pos := p.pos()
	if p.accept("!") {
		return &SExpr{op: "un:!", args: []*SExpr{p.unary()}, pos: pos}
	}
	if p.accept("-") {
		return &SExpr{op: "un:-", args: []*SExpr{p.unary()}, pos: pos}
	}
	if p.accept("*") {
		return &SExpr{op: "deref", args: []*SExpr{p.unary()}, pos: pos}
	}
	if p.is("forall") || p.is("exists") {
		op := p.next().s
		e := &SExpr{op: op, pos: pos}
		for {
			n := p.ident()
			e.vars = append(e.vars, SParam{n, p.typ()})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var tr []*SExpr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.trig = append(e.trig, tr)
		}
		p.expect("::")
		e.args = []*SExpr{p.expr()}
		return e
	}
	if p.accept("let") {
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		return &SExpr{op: "let", name: n, args: []*SExpr{v, p.expr()}, pos: pos}
	}
	return p.postfix(p.primary())
}

func (p *sparser) postfix(e *SExpr) *SExpr {
	for {
		pos := p.pos()
		switch {
		case p.accept("."):
			n := p.ident()
			e = &SExpr{op: "sel", name: n, args: []*SExpr{e}, pos: pos}
		case p.is("["):
			p.next()
			var a, b *SExpr
			if !p.is(":") {
				a = p.expr()
			}
			if p.accept(":") {
				if !p.is("]") {
					b = p.expr()
				}
				p.expect("]")
				e = &SExpr{op: "slice", args: []*SExpr{e, a, b}, pos: pos}
			} else {
				p.expect("]")
				e = &SExpr{op: "idx", args: []*SExpr{e, a}, pos: pos}
			}
		case p.is("(") && (e.op == "id" || e.op == "sel"):
			p.next()
			c := &SExpr{op: "call", pos: pos}
			if e.op == "id" {
				c.name = e.name
			} else {
				p.fail("method calls are not specification expressions")
			}
			for !p.is(")") {
				if c.name == "is" || c.name == "as" || c.name == "empty" || c.name == "zero" {
					if len(c.args) == 1 || c.name == "empty" || c.name == "zero" {
						t := p.typ()
						c.vars = append(c.vars, SParam{"", t})
						p.accept(",")
						continue
					}
				}
				c.args = append(c.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}

func (p *sparser) primary() *SExpr {
	t := p.cur()
	pos := p.pos()
	switch t.k {
	case "num":
		p.next()
		return &SExpr{op: "num", name: t.s, pos: pos}
	case "str":
		p.next()
		return &SExpr{op: "str", name: t.s, pos: pos}
	case "id":
		p.next()
		return &SExpr{op: "id", name: t.s, pos: pos}
	}
	if p.accept("(") {
		e := p.expr()
		p.expect(")")
		c := *e
		if strings.HasPrefix(c.op, "bin:") {
			c.name = "paren"
		}
		return &c
	}
	if p.accept("[") { // sequence literal
		e := &SExpr{op: "seqlit", pos: pos}
		for !p.is("]") {
			e.args = append(e.args, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
		return e
	}
	p.fail("expression expected")
	return nil
}
