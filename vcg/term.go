package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Hash-consed terms. The integer sort is called "Int"; it prints as the SMT
// sort Int, or as (_ BitVec 80) in bit-vector mode (see print.go).

type Term struct {
	id   int
	op   string
	args []*Term
	sort string
	num  *big.Int // op=="num"
	// quantifiers: op "forall"/"exists"; vars bound, args[0]=body, trig
	vars   []*Term
	trigs  [][]*Term
	bound  bool     // contains bound variables (free in this term)
	lo, hi *big.Int // known interval (Int only), nil = unbounded
}

type Pool struct {
	tab  map[string]*Term
	next int
	// declared constants / functions
	fns  map[string]*FnDecl
	cnt  int
	dts  map[string]*Datatype
	seqs map[string]string // seq sort -> elem sort
}

type FnDecl struct {
	name string
	args []string
	ret  string
}

type Datatype struct {
	name  string
	ctors []Ctor
}
type Ctor struct {
	name   string
	fields []Field
}
type Field struct {
	name string
	sort string
}

func NewPool() *Pool {
	typeTags, tagTypes = map[string]int{}, map[string]types.Type{}
	p := &Pool{tab: map[string]*Term{}, fns: map[string]*FnDecl{}, dts: map[string]*Datatype{}, seqs: map[string]string{}}
	return p
}

var P *Pool // current pool (one per verified function)

func (p *Pool) mk(op string, sort string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sort)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := p.tab[k]; ok {
		return t
	}
	p.next++
	t := &Term{id: p.next, op: op, args: append([]*Term(nil), args...), sort: sort}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	p.tab[k] = t
	return t
}

func Num(n *big.Int) *Term {
	k := "num|" + n.String()
	if t, ok := P.tab[k]; ok {
		return t
	}
	P.next++
	t := &Term{id: P.next, op: "num", sort: "Int", num: new(big.Int).Set(n), lo: n, hi: n}
	P.tab[k] = t
	return t
}
func NumI(n int64) *Term { return Num(big.NewInt(n)) }

func True() *Term  { return P.mk("true", "Bool") }
func False() *Term { return P.mk("false", "Bool") }
func BoolT(b bool) *Term {
	if b {
		return True()
	}
	return False()
}

// Const declares a fresh constant.
func Fresh(prefix, sort string) *Term {
	P.cnt++
	name := fmt.Sprintf("%s!%d", clean(prefix), P.cnt)
	return ConstT(name, sort)
}

func ConstT(name, sort string) *Term {
	P.fns[name] = &FnDecl{name: name, ret: sort}
	return P.mk("const:"+name, sort)
}

func App(name, ret string, args ...*Term) *Term {
	if _, ok := P.fns[name]; !ok {
		d := &FnDecl{name: name, ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		P.fns[name] = d
	}
	return P.mk("app:"+name, ret, args...)
}

func BVar(name, sort string) *Term {
	P.cnt++
	t := P.mk(fmt.Sprintf("var:%s?%d", clean(name), P.cnt), sort)
	t.bound = true
	return t
}

func clean(s string) string {
	r := strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' {
			return c
		}
		return '_'
	}, s)
	return r
}

func isTrue(t *Term) bool  { return t.op == "true" }
func isFalse(t *Term) bool { return t.op == "false" }

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False()
	case "false":
		return True()
	case "not":
		return a.args[0]
	}
	return P.mk("not", "Bool", a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if isTrue(t) {
			return true
		}
		if isFalse(t) {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False()
		}
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0].id] {
			return False()
		}
	}
	if len(out) == 0 {
		return True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return P.mk("and", "Bool", out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if isTrue(a) {
			return True()
		}
		if isFalse(a) {
			continue
		}
		var l []*Term
		if a.op == "or" {
			l = a.args
		} else {
			l = []*Term{a}
		}
		for _, x := range l {
			if !seen[x.id] {
				seen[x.id] = true
				out = append(out, x)
			}
		}
	}
	for _, t := range out {
		if t.op == "not" && seen[t.args[0].id] {
			return True()
		}
	}
	if len(out) == 0 {
		return False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return P.mk("or", "Bool", out...)
}

func Implies(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return True()
	}
	if isFalse(b) {
		return Not(a)
	}
	if a == b {
		return True()
	}
	return P.mk("=>", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	if isTrue(c) {
		return a
	}
	if isFalse(c) {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == "Bool" {
		if isTrue(a) && isFalse(b) {
			return c
		}
		if isFalse(a) && isTrue(b) {
			return Not(c)
		}
		if isTrue(a) {
			return Or(c, b)
		}
		if isFalse(a) {
			return And(Not(c), b)
		}
		if isTrue(b) {
			return Or(Not(c), a)
		}
		if isFalse(b) {
			return And(c, a)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s", a.sort, b.sort))
	}
	t := P.mk("ite", a.sort, c, a, b)
	if t.lo == nil && a.lo != nil && b.lo != nil {
		t.lo = minB(a.lo, b.lo)
	}
	if t.hi == nil && a.hi != nil && b.hi != nil {
		t.hi = maxB(a.hi, b.hi)
	}
	return t
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.op == "num" && b.op == "num" {
		return BoolT(a.num.Cmp(b.num) == 0)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s:%s %s:%s", a.String(), a.sort, b.String(), b.sort))
	}
	if a.sort == "Bool" {
		if isTrue(a) {
			return b
		}
		if isTrue(b) {
			return a
		}
		if isFalse(a) {
			return Not(b)
		}
		if isFalse(b) {
			return Not(a)
		}
	}
	if isCtor(a) && isCtor(b) {
		if a.op != b.op {
			return False()
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return P.mk("=", "Bool", a, b)
}

func isCtor(t *Term) bool { return strings.HasPrefix(t.op, "ctor:") }

// ----- integer arithmetic (mathematical)

func Add(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return Num(new(big.Int).Add(a.num, b.num))
	}
	if a.op == "num" && a.num.Sign() == 0 {
		return b
	}
	if b.op == "num" && b.num.Sign() == 0 {
		return a
	}
	// (x + c) + d
	if b.op == "num" && a.op == "+" && a.args[1].op == "num" {
		return Add(a.args[0], Num(new(big.Int).Add(a.args[1].num, b.num)))
	}
	if a.op == "num" {
		return Add(b, a)
	}
	// x + (y - x) etc. left to the solver
	t := P.mk("+", "Int", a, b)
	if t.lo == nil && a.lo != nil && b.lo != nil {
		t.lo = new(big.Int).Add(a.lo, b.lo)
	}
	if t.hi == nil && a.hi != nil && b.hi != nil {
		t.hi = new(big.Int).Add(a.hi, b.hi)
	}
	return t
}

func Sub(a, b *Term) *Term {
	if b.op == "num" {
		return Add(a, Num(new(big.Int).Neg(b.num)))
	}
	if a == b {
		return NumI(0)
	}
	t := P.mk("-", "Int", a, b)
	if t.lo == nil && a.lo != nil && b.hi != nil {
		t.lo = new(big.Int).Sub(a.lo, b.hi)
	}
	if t.hi == nil && a.hi != nil && b.lo != nil {
		t.hi = new(big.Int).Sub(a.hi, b.lo)
	}
	return t
}

func Neg(a *Term) *Term { return Sub(NumI(0), a) }

func Mul(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return Num(new(big.Int).Mul(a.num, b.num))
	}
	if a.op == "num" {
		a, b = b, a
	}
	if b.op == "num" {
		if b.num.Sign() == 0 {
			return NumI(0)
		}
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	t := P.mk("*", "Int", a, b)
	if t.lo == nil && a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		ps := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
		lo, hi := ps[0], ps[0]
		for _, x := range ps {
			lo = minB(lo, x)
			hi = maxB(hi, x)
		}
		t.lo, t.hi = lo, hi
	}
	return t
}

// Div, Mod: SMT-LIB (Euclidean) division; callers guarantee meaning.
func Div(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" && b.num.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.num, b.num, m)
		return Num(q)
	}
	if b.op == "num" && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	// (x*c)/c , ((x*c)+y)/c with 0<=y<c
	if b.op == "num" && b.num.Sign() > 0 {
		if a.op == "*" && a.args[1].op == "num" {
			q, r := new(big.Int), new(big.Int)
			q.DivMod(a.args[1].num, b.num, r)
			if r.Sign() == 0 {
				return Mul(a.args[0], Num(q))
			}
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.num) < 0 {
			return NumI(0)
		}
		if a.op == "div" && a.args[1].op == "num" && a.args[1].num.Sign() > 0 {
			return Div(a.args[0], Num(new(big.Int).Mul(a.args[1].num, b.num)))
		}
	}
	t := P.mk("div", "Int", a, b)
	if b.op == "num" && b.num.Sign() > 0 && a.lo != nil && a.hi != nil && t.lo == nil {
		t.lo = new(big.Int)
		t.hi = new(big.Int)
		m := new(big.Int)
		t.lo.DivMod(a.lo, b.num, m)
		t.hi.DivMod(a.hi, b.num, m)
	}
	return t
}

func Mod(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" && b.num.Sign() != 0 {
		return Num(new(big.Int).Mod(a.num, b.num))
	}
	if b.op == "num" && b.num.Sign() > 0 {
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.num) < 0 {
			return a
		}
		if a.op == "*" && a.args[1].op == "num" {
			r := new(big.Int).Mod(a.args[1].num, b.num)
			if r.Sign() == 0 {
				return NumI(0)
			}
		}
	}
	t := P.mk("mod", "Int", a, b)
	if b.op == "num" && b.num.Sign() > 0 && t.lo == nil {
		t.lo = big.NewInt(0)
		t.hi = new(big.Int).Sub(b.num, big.NewInt(1))
	}
	return t
}

func Lt(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return BoolT(a.num.Cmp(b.num) < 0)
	}
	if a == b {
		return False()
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
		return True()
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) >= 0 {
		return False()
	}
	return P.mk("<", "Bool", a, b)
}
func Le(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return BoolT(a.num.Cmp(b.num) <= 0)
	}
	if a == b {
		return True()
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
		return True()
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return False()
	}
	return P.mk("<=", "Bool", a, b)
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// Wrap a mathematical integer to a machine type. delta=true promises the
// argument is off by at most one period (sum/difference of in-range values).
func Wrap(x *Term, bits int, signed bool) *Term {
	lo, hi := typeRange(bits, signed)
	if x.lo != nil && x.hi != nil && x.lo.Cmp(lo) >= 0 && x.hi.Cmp(hi) <= 0 {
		return x
	}
	if x.op == "num" {
		m := new(big.Int).Mod(x.num, pow2(bits))
		if signed && m.Cmp(hi) > 0 {
			m.Sub(m, pow2(bits))
		}
		return Num(m)
	}
	p := Num(pow2(bits))
	if bvMode {
		s := "u"
		if signed {
			s = "s"
		}
		t := P.mk(fmt.Sprintf("wrap%s%d", s, bits), "Int", x)
		t.lo, t.hi = lo, hi
		return t
	}
	// one-period correction when the interval is known to be that tight
	one := x.lo != nil && x.hi != nil && x.lo.Cmp(new(big.Int).Sub(lo, pow2(bits))) >= 0 && x.hi.Cmp(new(big.Int).Add(hi, pow2(bits))) <= 0
	var t *Term
	if one {
		t = x
		if x.hi.Cmp(hi) > 0 {
			t = Ite(Lt(Num(hi), x), Sub(x, p), t)
		}
		if x.lo.Cmp(lo) < 0 {
			t = Ite(Lt(x, Num(lo)), Add(x, p), t)
		}
	} else if signed {
		m := Mod(x, p)
		t = Ite(And(Le(Num(lo), x), Le(x, Num(hi))), x, Ite(Lt(Num(hi), m), Sub(m, p), m))
	} else {
		t = Mod(x, p)
	}
	if t.op != "num" && t.op != "var" {
		// record the interval on a private copy-free basis: interval is a fact about the value
		t.lo, t.hi = lo, hi
	}
	return t
}

func typeRange(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		hi = new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
		lo = new(big.Int).Neg(pow2(bits - 1))
		return
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1))
}

// ----- arrays (heap maps), index Int

func ArrSort(elem string) string { return "Arr_" + elem }

// "Arr_Int#u8": array of integers that are all within the range of kind u8
func arrElem(s string) string {
	s = strings.TrimPrefix(s, "Arr_")
	if i := strings.IndexByte(s, '#'); i >= 0 {
		s = s[:i]
	}
	return s
}
func arrRange(s string) (lo, hi *big.Int) {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		return seqElemRange("Seq_" + s[i+1:])
	}
	return nil, nil
}

var dbgSel = os.Getenv("VCG_SEL") != ""

func Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctRefs(a.args[1], i) {
			a = a.args[0]
			continue
		}
		// a conditional write: nothing happens unless the condition holds
		if v := a.args[2]; pathF != nil && v.op == "ite" {
			if v.args[2] == Select(a.args[0], a.args[1]) && distinctIf(v.args[0], a.args[1], i) || v.args[1] == Select(a.args[0], a.args[1]) && distinctIf(Not(v.args[0]), a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if dbgSel && pathF != nil && !i.bound {
			println("SEL", a.args[1].String(), "  VS  ", i.String())
		}
		break
	}
	if a.op == "ite" {
		o := pathX
		pathX = append(o[:len(o):len(o)], conjuncts(a.args[0])...)
		x := Select(a.args[1], i)
		pathX = append(o[:len(o):len(o)], conjuncts(Not(a.args[0]))...)
		y := Select(a.args[2], i)
		pathX = o
		if x == y {
			return x
		}
		return Ite(a.args[0], x, y)
	}
	if a.op == "store" && i.op == "ite" && pathF != nil && iteDepth < 3 {
		iteDepth++
		var x, y *Term
		givenThat(i.args[0], func() { x = Select(a, i.args[1]) })
		givenThat(Not(i.args[0]), func() { y = Select(a, i.args[2]) })
		iteDepth--
		if x == y {
			return x
		}
		if x.op != "select" || y.op != "select" || x.args[0] != a || y.args[0] != a {
			return Ite(i.args[0], x, y)
		}
	}
	t := P.mk("select", arrElem(a.sort), a, i)
	if lo, hi := arrRange(a.sort); lo != nil && t.lo == nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.sort != arrElem(a.sort) {
		panic("store sort mismatch " + a.sort + " " + v.sort)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return P.mk("store", a.sort, a, i, v)
}

// refs allocated at different times are distinct constants "alloc + k"
var distinctFn func(a, b *Term) bool

func distinctRefs(a, b *Term) bool {
	if a.op == "num" && b.op == "num" {
		return a.num.Cmp(b.num) != 0
	}
	if distinctFn != nil && distinctFn(a, b) {
		return true
	}
	return pathDistinct(a, b)
}

// ----- quantifiers

func Forall(vars []*Term, body *Term, trigs ...[]*Term) *Term {
	return quant("forall", vars, body, trigs)
}
func Exists(vars []*Term, body *Term, trigs ...[]*Term) *Term {
	return quant("exists", vars, body, trigs)
}

func quant(op string, vars []*Term, body *Term, trigs [][]*Term) *Term {
	if isTrue(body) || isFalse(body) {
		return body
	}
	var sb strings.Builder
	sb.WriteString(op)
	for _, v := range vars {
		fmt.Fprintf(&sb, ",%d", v.id)
	}
	fmt.Fprintf(&sb, "|%d", body.id)
	for _, tr := range trigs {
		sb.WriteByte('|')
		for _, t := range tr {
			fmt.Fprintf(&sb, ",%d", t.id)
		}
	}
	if t, ok := P.tab[sb.String()]; ok {
		return t
	}
	P.next++
	t := &Term{id: P.next, op: op, args: []*Term{body}, sort: "Bool", vars: vars, trigs: trigs}
	fv := freeBound(body)
	for _, v := range vars {
		delete(fv, v)
	}
	t.bound = len(fv) > 0
	P.tab[sb.String()] = t
	return t
}

func freeBound(t *Term) map[*Term]bool {
	res := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if strings.HasPrefix(t.op, "var:") {
			res[t] = true
			return
		}
		if t.op == "forall" || t.op == "exists" {
			in := freeBound(t.args[0])
			for _, v := range t.vars {
				delete(in, v)
			}
			for v := range in {
				res[v] = true
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return res
}

// Subst replaces terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if t.op == "forall" || t.op == "exists" {
			var tr [][]*Term
			for _, x := range t.trigs {
				var y []*Term
				for _, z := range x {
					nz := f(z)
					if nz != z {
						ch = true
					}
					y = append(y, nz)
				}
				tr = append(tr, y)
			}
			if ch {
				r = quant(t.op, t.vars, na[0], tr)
			}
		} else if ch {
			r = rebuild(t, na)
		}
		cache[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	}
	if strings.HasPrefix(t.op, "sel:") {
		return selField(a[0], t.op[4:], t.sort)
	}
	if strings.HasPrefix(t.op, "seq.") {
		return seqRebuild(t.op, t.sort, a)
	}
	r := P.mk(t.op, t.sort, a...)
	if r.lo == nil {
		r.lo = t.lo
	}
	if r.hi == nil {
		r.hi = t.hi
	}
	return r
}

// ----- datatypes

func MkCtor(name, sort string, args ...*Term) *Term {
	return P.mk("ctor:"+name, sort, args...)
}

// selField applies selector name to datatype value a
func selField(a *Term, sel, sort string) *Term {
	if isCtor(a) {
		dt := P.dts[a.sort]
		for _, c := range dt.ctors {
			if "ctor:"+c.name == a.op {
				for i, f := range c.fields {
					if f.name == sel {
						return a.args[i]
					}
				}
			}
		}
	}
	if a.op == "ite" {
		x, y := selField(a.args[1], sel, sort), selField(a.args[2], sel, sort)
		if x.op != "sel:"+sel || y.op != "sel:"+sel {
			return Ite(a.args[0], x, y)
		}
	}
	return P.mk("sel:"+sel, sort, a)
}

func isCtorTest(a *Term, ctor string) *Term {
	if isCtor(a) {
		return BoolT(a.op == "ctor:"+ctor)
	}
	if a.op == "ite" {
		x, y := isCtorTest(a.args[1], ctor), isCtorTest(a.args[2], ctor)
		return Ite(a.args[0], x, y)
	}
	return P.mk("is:"+ctor, "Bool", a)
}

func (t *Term) String() string {
	return termStr(t, 0)
}

func termStr(t *Term, d int) string {
	if d > 12 {
		return "..."
	}
	switch {
	case t.op == "num":
		return t.num.String()
	case strings.HasPrefix(t.op, "const:"):
		return t.op[6:]
	case strings.HasPrefix(t.op, "var:"):
		return t.op[4:]
	case t.op == "forall" || t.op == "exists":
		var vs []string
		for _, v := range t.vars {
			vs = append(vs, v.op[4:])
		}
		return "(" + t.op + " " + strings.Join(vs, " ") + " " + termStr(t.args[0], d+1) + ")"
	}
	if len(t.args) == 0 {
		return t.op
	}
	var as []string
	for _, a := range t.args {
		as = append(as, termStr(a, d+1))
	}
	return "(" + strings.TrimPrefix(t.op, "app:") + " " + strings.Join(as, " ") + ")"
}

func containsAny(t *Term, set map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if set[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
