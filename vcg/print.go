package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// width of the words bit vectors are printed in; wider when a term needs it
var bvW = 80

func sortSMT(s string) string {
	if s == "Int" && bvMode {
		return fmt.Sprintf("(_ BitVec %d)", bvW)
	}
	if strings.HasPrefix(s, "Arr_") {
		return "(Array " + sortSMT("Int") + " " + sortSMT(arrElem(s)) + ")"
	}
	return s
}

func numSMT(n *big.Int) string {
	if bvMode {
		m := new(big.Int).Mod(n, pow2(bvW))
		return fmt.Sprintf("(_ bv%s %d)", m.String(), bvW)
	}
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

type Printer struct {
	names  map[*Term]string
	refs   map[*Term]int
	defs   []string
	usedFn map[string]bool
	usedSo map[string]bool
	usedOp map[string]bool
	errs   []string
	nd     int
	order  []*Term
}

func NewPrinter() *Printer {
	return &Printer{names: map[*Term]string{}, refs: map[*Term]int{}, usedFn: map[string]bool{}, usedSo: map[string]bool{}, usedOp: map[string]bool{}}
}

func (p *Printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	p.useSort(t.sort)
	p.order = append(p.order, t)
	for _, a := range t.args {
		p.count(a)
	}
	for _, v := range t.vars {
		p.useSort(v.sort)
	}
	for _, tr := range t.trigs {
		for _, x := range tr {
			p.count(x)
		}
	}
}

func (p *Printer) useSort(s string) {
	if p.usedSo[s] {
		return
	}
	p.usedSo[s] = true
	if strings.HasPrefix(s, "Arr_") {
		p.useSort(arrElem(s))
	}
	if isSeq(s) {
		p.useSort(seqElem(s))
	}
	if dt, ok := P.dts[s]; ok {
		for _, c := range dt.ctors {
			for _, f := range c.fields {
				p.useSort(f.sort)
			}
		}
	}
}

func okRange(t *Term) bool {
	if t.lo == nil || t.hi == nil {
		return false
	}
	m := pow2(bvW - 1)
	return t.lo.Cmp(new(big.Int).Neg(m)) >= 0 && t.hi.Cmp(m) < 0
}

func (p *Printer) S(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.raw(t, false)
	if !t.bound && len(t.args) > 0 && p.refs[t] > 1 && t.op != "forall" && t.op != "exists" {
		p.nd++
		n := fmt.Sprintf("$d%d", p.nd)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, sortSMT(t.sort), s))
		p.names[t] = n
		return n
	}
	return s
}

func (p *Printer) list(op string, as []*Term) string {
	var sb strings.Builder
	sb.WriteString("(" + op)
	for _, a := range as {
		sb.WriteByte(' ')
		sb.WriteString(p.S(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (p *Printer) chk(t *Term) {
	if bvMode && !okRange(t) {
		p.errs = append(p.errs, "bit-vector width not provably sufficient for "+t.String())
	}
}

func (p *Printer) raw(t *Term, wrapped bool) string {
	op := t.op
	switch {
	case op == "num":
		return numSMT(t.num)
	case strings.HasPrefix(op, "const:"):
		p.usedFn[op[6:]] = true
		return op[6:]
	case strings.HasPrefix(op, "var:"):
		return op[4:]
	case strings.HasPrefix(op, "app:"):
		p.usedFn[op[4:]] = true
		if len(t.args) == 0 {
			return op[4:]
		}
		return p.list(op[4:], t.args)
	case strings.HasPrefix(op, "ctor:"):
		if len(t.args) == 0 {
			return op[5:]
		}
		return p.list(op[5:], t.args)
	case strings.HasPrefix(op, "sel:"):
		return p.list(op[4:], t.args)
	case strings.HasPrefix(op, "is:"):
		return p.list("(_ is "+op[3:]+")", t.args)
	case op == "forall" || op == "exists":
		var sb strings.Builder
		sb.WriteString("(" + op + " (")
		for _, v := range t.vars {
			sb.WriteString("(" + v.op[4:] + " " + sortSMT(v.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.trigs) > 0 {
			sb.WriteString("(! " + p.S(t.args[0]))
			for _, tr := range t.trigs {
				sb.WriteString(" :pattern (")
				for i, x := range tr {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.S(x))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(p.S(t.args[0]))
		}
		sb.WriteString(")")
		return sb.String()
	case strings.HasPrefix(op, "seq."):
		so := t.sort
		if op == "seq.len" || op == "seq.idx" || op == "seq.eq" {
			so = t.args[0].sort
		}
		n := op[4:] + "_" + so[4:]
		if len(t.args) == 0 {
			return n
		}
		return p.list(n, t.args)
	}
	if bvMode {
		switch op {
		case "+", "-", "*":
			if !wrapped {
				p.chk(t)
			} else {
				for _, a := range t.args {
					_ = a
				}
			}
			m := map[string]string{"+": "bvadd", "-": "bvsub", "*": "bvmul"}[op]
			return p.list(m, t.args)
		case "<":
			return p.list("bvslt", t.args)
		case "<=":
			return p.list("bvsle", t.args)
		case "div":
			b := t.args[1]
			if b.op == "num" && b.num.Sign() > 0 && new(big.Int).And(b.num, new(big.Int).Sub(b.num, big.NewInt(1))).Sign() == 0 {
				return fmt.Sprintf("(bvashr %s %s)", p.S(t.args[0]), numSMT(big.NewInt(int64(b.num.BitLen()-1))))
			}
			if t.args[0].lo == nil || t.args[0].lo.Sign() < 0 {
				p.errs = append(p.errs, "bv div of possibly negative "+t.String())
			}
			return p.list("bvudiv", t.args)
		case "mod":
			b := t.args[1]
			if b.op == "num" && b.num.Sign() > 0 && new(big.Int).And(b.num, new(big.Int).Sub(b.num, big.NewInt(1))).Sign() == 0 {
				return fmt.Sprintf("(bvand %s %s)", p.S(t.args[0]), numSMT(new(big.Int).Sub(b.num, big.NewInt(1))))
			}
			if t.args[0].lo == nil || t.args[0].lo.Sign() < 0 {
				p.errs = append(p.errs, "bv mod of possibly negative "+t.String())
			}
			return p.list("bvurem", t.args)
		case "bit.and":
			return p.list("bvand", t.args)
		case "bit.or":
			return p.list("bvor", t.args)
		case "bit.xor":
			return p.list("bvxor", t.args)
		case "bit.shl":
			if !wrapped {
				p.chk(t)
			}
			return p.list("bvshl", t.args)
		case "bit.shr":
			return p.list("bvashr", t.args)
		}
		if strings.HasPrefix(op, "wrap") {
			var n int
			fmt.Sscanf(op[5:], "%d", &n)
			a := t.args[0]
			var s string
			if nm, ok := p.names[a]; ok {
				s = nm
			} else if a.op == "+" || a.op == "-" || a.op == "*" || a.op == "bit.shl" {
				s = p.raw(a, true) // low bits are exact whatever the width
			} else {
				s = p.S(a)
			}
			if op[4] == 'u' {
				return fmt.Sprintf("((_ zero_extend %d) ((_ extract %d 0) %s))", bvW-n, n-1, s)
			}
			return fmt.Sprintf("((_ sign_extend %d) ((_ extract %d 0) %s))", bvW-n, n-1, s)
		}
	}
	if strings.HasPrefix(op, "bit.") || strings.HasPrefix(op, "wrap") {
		n := strings.Replace(op, ".", "_", 1)
		p.usedOp[n] = true
		return p.list(n, t.args)
	}
	if op == "select" || op == "store" || op == "not" || op == "and" || op == "or" || op == "=>" || op == "ite" || op == "=" ||
		op == "+" || op == "-" || op == "*" || op == "div" || op == "mod" || op == "<" || op == "<=" {
		return p.list(op, t.args)
	}
	if len(t.args) == 0 {
		return op
	}
	panic("print: " + op)
}

// Script builds a complete SMT script: facts |- goal.
func Script(facts []*Term, goal *Term, extraAxioms []*Term, produceModels bool) (string, []string) {
	p := NewPrinter()
	var all []*Term
	all = append(all, extraAxioms...)
	dup := map[*Term]bool{}
	for _, f := range facts {
		if !dup[f] {
			dup[f] = true
			all = append(all, f)
		}
	}
	ng := Not(goal)
	all = append(all, ng)
	for _, t := range all {
		p.count(t)
	}
	var body strings.Builder
	for _, t := range all {
		s := p.S(t)
		for _, d := range p.defs {
			body.WriteString(d + "\n")
		}
		p.defs = nil
		body.WriteString("(assert " + s + ")\n")
	}
	var out strings.Builder
	if produceModels {
		out.WriteString("(set-option :produce-models true)\n")
	}
	out.WriteString("(set-logic ALL)\n")
	// sorts
	var seqs, dts []string
	for s := range p.usedSo {
		if isSeq(s) {
			seqs = append(seqs, s)
		}
		if _, ok := P.dts[s]; ok {
			dts = append(dts, s)
		}
	}
	sort.Strings(seqs)
	sort.Strings(dts)
	for _, s := range seqs {
		out.WriteString("(declare-sort " + s + " 0)\n")
	}
	if len(dts) > 0 {
		out.WriteString("(declare-datatypes (")
		for _, s := range dts {
			out.WriteString("(" + s + " 0)")
		}
		out.WriteString(") (\n")
		for _, s := range dts {
			out.WriteString(" (")
			for _, c := range P.dts[s].ctors {
				out.WriteString("(" + c.name)
				for _, f := range c.fields {
					out.WriteString(" (" + f.name + " " + sortSMT(f.sort) + ")")
				}
				out.WriteString(")")
			}
			out.WriteString(")\n")
		}
		out.WriteString("))\n")
	}
	for _, s := range seqs {
		out.WriteString(seqPrelude(s))
	}
	if p.usedOp["bit_and"] || p.usedOp["bit_or"] || p.usedOp["bit_xor"] || p.usedOp["bit_shl"] || p.usedOp["bit_shr"] {
		for _, n := range []string{"bit_and", "bit_or", "bit_xor", "bit_shl", "bit_shr"} {
			if p.usedOp[n] {
				out.WriteString("(declare-fun " + n + " (Int Int) Int)\n")
			}
		}
		if p.usedOp["bit_and"] {
			out.WriteString("(assert (forall ((x Int)(y Int)) (! (=> (and (<= 0 x) (<= 0 y)) (and (<= 0 (bit_and x y)) (<= (bit_and x y) x) (<= (bit_and x y) y))) :pattern ((bit_and x y)))))\n")
		}
	}
	var ranges strings.Builder
	for _, t := range p.order {
		if t.bound || t.lo == nil && t.hi == nil || t.sort != "Int" {
			continue
		}
		if strings.HasPrefix(t.op, "const:") || strings.HasPrefix(t.op, "app:") || strings.HasPrefix(t.op, "sel:") || t.op == "select" || strings.HasPrefix(t.op, "bit.") && !bvMode {
			if t.lo != nil {
				ranges.WriteString("(assert " + p.raw(P.mk("<=", "Bool", Num(t.lo), t), false) + ")\n")
			}
			if t.hi != nil {
				ranges.WriteString("(assert " + p.raw(P.mk("<=", "Bool", t, Num(t.hi)), false) + ")\n")
			}
		}
	}
	for _, n := range sortedKeys(p.usedFn) {
		d := P.fns[n]
		var as []string
		for _, a := range d.args {
			as = append(as, sortSMT(a))
		}
		out.WriteString(fmt.Sprintf("(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), sortSMT(d.ret)))
	}
	out.WriteString(body.String())
	out.WriteString(ranges.String())
	return out.String(), p.errs
}

func seqPrelude(s string) string {
	k := s[4:]
	e := sortSMT(seqElem(s))
	I := sortSMT("Int")
	zero, one := numSMT(big.NewInt(0)), numSMT(big.NewInt(1))
	le, lt, add, sub := "<=", "<", "+", "-"
	if bvMode {
		le, lt, add, sub = "bvsle", "bvslt", "bvadd", "bvsub"
	}
	g1, g2, ge := "", "", ""
	if bvMode {
		m := numSMT(pow2(70))
		g1 = "(=> (bvslt (len_" + k + " s) " + m + ") "
		g2 = "(=> (and (bvslt (len_" + k + " s) " + m + ") (bvslt (len_" + k + " t) " + m + ")) "
		ge = ")"
	}
	r := strings.NewReplacer("{G1}", g1, "{G2}", g2, "{GE}", ge, "{S}", s, "{K}", k, "{E}", e, "{I}", I, "{0}", zero, "{1}", one, "{<=}", le, "{<}", lt, "{+}", add, "{-}", sub)
	ax := `(declare-fun len_{K} ({S}) {I})
(declare-fun idx_{K} ({S} {I}) {E})
(declare-fun empty_{K} () {S})
(declare-fun build_{K} ({S} {E}) {S})
(declare-fun append_{K} ({S} {S}) {S})
(declare-fun upd_{K} ({S} {I} {E}) {S})
(declare-fun take_{K} ({S} {I}) {S})
(declare-fun drop_{K} ({S} {I}) {S})
(declare-fun eq_{K} ({S} {S}) Bool)
(assert (forall ((s {S})) (! ({<=} {0} (len_{K} s)) :pattern ((len_{K} s)))))
(assert (= (len_{K} empty_{K}) {0}))
(assert (forall ((s {S})) (! (=> (= (len_{K} s) {0}) (= s empty_{K})) :pattern ((len_{K} s)))))
(assert (forall ((s {S})(v {E})) (! {G1}(= (len_{K} (build_{K} s v)) ({+} {1} (len_{K} s))){GE} :pattern ((build_{K} s v)))))
(assert (forall ((s {S})(v {E})(i {I})) (! (ite (= i (len_{K} s)) (= (idx_{K} (build_{K} s v) i) v) (= (idx_{K} (build_{K} s v) i) (idx_{K} s i))) :pattern ((idx_{K} (build_{K} s v) i)))))
(assert (forall ((s {S})(v {E})) (! (= (idx_{K} (build_{K} s v) (len_{K} s)) v) :pattern ((build_{K} s v)))))
(assert (forall ((s {S})(t {S})) (! {G2}(= (len_{K} (append_{K} s t)) ({+} (len_{K} s) (len_{K} t))){GE} :pattern ((append_{K} s t)))))
(assert (forall ((s {S})(t {S})(i {I})) (! (ite ({<} i (len_{K} s)) (= (idx_{K} (append_{K} s t) i) (idx_{K} s i)) (= (idx_{K} (append_{K} s t) i) (idx_{K} t ({-} i (len_{K} s))))) :pattern ((idx_{K} (append_{K} s t) i)))))
(assert (forall ((s {S})) (! (= (append_{K} s empty_{K}) s) :pattern ((append_{K} s empty_{K})))))
(assert (forall ((s {S})) (! (= (append_{K} empty_{K} s) s) :pattern ((append_{K} empty_{K} s)))))
(assert (forall ((s {S})(i {I})(v {E})) (! (= (len_{K} (upd_{K} s i v)) (len_{K} s)) :pattern ((upd_{K} s i v)))))
(assert (forall ((s {S})(i {I})(v {E})(j {I})) (! (=> (and ({<=} {0} i) ({<} i (len_{K} s))) (ite (= i j) (= (idx_{K} (upd_{K} s i v) j) v) (= (idx_{K} (upd_{K} s i v) j) (idx_{K} s j)))) :pattern ((idx_{K} (upd_{K} s i v) j)))))
(assert (forall ((s {S})(n {I})) (! (=> (and ({<=} {0} n) ({<=} n (len_{K} s))) (= (len_{K} (take_{K} s n)) n)) :pattern ((take_{K} s n)))))
(assert (forall ((s {S})(n {I})(j {I})) (! (=> (and ({<=} {0} j) ({<} j n) ({<} j (len_{K} s))) (= (idx_{K} (take_{K} s n) j) (idx_{K} s j))) :pattern ((idx_{K} (take_{K} s n) j)) :pattern ((idx_{K} s j) (take_{K} s n)))))
(assert (forall ((s {S})(n {I})) (! (=> (and ({<=} {0} n) ({<=} n (len_{K} s))) (= (len_{K} (drop_{K} s n)) ({-} (len_{K} s) n))) :pattern ((drop_{K} s n)))))
(assert (forall ((s {S})(n {I})(j {I})) (! (=> (and ({<=} {0} n) ({<=} {0} j) ({<} j ({-} (len_{K} s) n))) (= (idx_{K} (drop_{K} s n) j) (idx_{K} s ({+} j n)))) :pattern ((idx_{K} (drop_{K} s n) j)))))
(assert (forall ((s {S})(n {I})(j {I})) (! (=> (and ({<=} {0} n) ({<=} n j) ({<} j (len_{K} s))) (= (idx_{K} (drop_{K} s n) ({-} j n)) (idx_{K} s j))) :pattern ((idx_{K} s j) (drop_{K} s n)))))
(assert (forall ((s {S})(t {S})) (! (and (= (take_{K} (append_{K} s t) (len_{K} s)) s) (= (drop_{K} (append_{K} s t) (len_{K} s)) t)) :pattern ((append_{K} s t)))))
(assert (forall ((s {S})(m {I})(n {I})) (! (=> (and ({<=} {0} m) ({<=} {0} n) ({<=} ({+} m n) (len_{K} s))) (= (drop_{K} (drop_{K} s m) n) (drop_{K} s ({+} m n)))) :pattern ((drop_{K} (drop_{K} s m) n)))))
(assert (forall ((s {S})(m {I})(n {I})) (! (=> (and ({<=} {0} n) ({<=} n m) ({<=} m (len_{K} s))) (= (take_{K} (take_{K} s m) n) (take_{K} s n))) :pattern ((take_{K} (take_{K} s m) n)))))
(assert (forall ((a {S})(b {S})(c {S})) (! (= (append_{K} a (append_{K} b c)) (append_{K} (append_{K} a b) c)) :pattern ((append_{K} a (append_{K} b c))))))
(assert (forall ((a {S})(b {S})(v {E})) (! (= (append_{K} a (build_{K} b v)) (build_{K} (append_{K} a b) v)) :pattern ((append_{K} a (build_{K} b v))))))
(assert (forall ((s {S})(t {S})(n {I})) (! (=> (and ({<=} {0} n) ({<=} n (len_{K} s))) (= (drop_{K} (append_{K} s t) n) (append_{K} (drop_{K} s n) t))) :pattern ((drop_{K} (append_{K} s t) n)))))
(assert (forall ((s {S})(v {E})(n {I})) (! (=> (and ({<=} {0} n) ({<=} n (len_{K} s))) (= (drop_{K} (build_{K} s v) n) (build_{K} (drop_{K} s n) v))) :pattern ((drop_{K} (build_{K} s v) n)))))
(assert (forall ((s {S})(t {S})(n {I})) (! (=> (and ({<=} {0} n) ({<=} n (len_{K} s))) (= (take_{K} (append_{K} s t) n) (take_{K} s n))) :pattern ((take_{K} (append_{K} s t) n)))))
(assert (forall ((s {S})(v {E})(n {I})) (! (=> (and ({<=} {0} n) ({<=} n (len_{K} s))) (= (take_{K} (build_{K} s v) n) (take_{K} s n))) :pattern ((take_{K} (build_{K} s v) n)))))
(assert (forall ((s {S})(n {I})) (! (=> (= n {0}) (and (= (drop_{K} s n) s))) :pattern ((drop_{K} s n)))))
(assert (forall ((s {S})(n {I})) (! (=> (= n (len_{K} s)) (= (take_{K} s n) s)) :pattern ((take_{K} s n)))))
(assert (forall ((a {S})(b {S})) (! (= (eq_{K} a b) (and (= (len_{K} a) (len_{K} b)) (forall ((j {I})) (! (=> (and ({<=} {0} j) ({<} j (len_{K} a))) (= (idx_{K} a j) (idx_{K} b j))) :pattern ((idx_{K} a j)) :pattern ((idx_{K} b j)))))) :pattern ((eq_{K} a b)))))
(assert (forall ((a {S})(b {S})) (! (=> (eq_{K} a b) (= a b)) :pattern ((eq_{K} a b)))))
`
	out := r.Replace(ax)
	if lo, hi := seqElemRange(s); lo != nil {
		out += r.Replace(fmt.Sprintf("(assert (forall ((s {S})(i {I})) (! (and ({<=} %s (idx_{K} s i)) ({<=} (idx_{K} s i) %s)) :pattern ((idx_{K} s i)))))\n", numSMT(lo), numSMT(hi)))
	}
	return out
}
