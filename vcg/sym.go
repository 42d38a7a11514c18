package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- state

type Fact struct {
	parent *Fact
	t      *Term
	cond   bool
	depth  int
	ix     *Lits
}

type State struct {
	vars   map[types.Object]*Term
	ghosts map[string]SV
	heap   map[string]*Term
	facts  *Fact
	alloc  *Term
	defers *Deferred
}

// Deferred: calls to be made when the function returns, last one first
type Deferred struct {
	parent *Deferred
	call   *ast.CallExpr
	vals   []*Term // receiver and arguments when deferred
}

func (s *State) clone() *State {
	n := &State{vars: make(map[types.Object]*Term, len(s.vars)), ghosts: make(map[string]SV, len(s.ghosts)), heap: make(map[string]*Term, len(s.heap)), facts: s.facts, alloc: s.alloc, defers: s.defers}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.ghosts {
		n.ghosts[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *State) add(t *Term, cond bool) {
	if isTrue(t) {
		return
	}
	d := 0
	if s.facts != nil {
		d = s.facts.depth + 1
	}
	s.facts = &Fact{parent: s.facts, t: t, cond: cond, depth: d}
}
func (s *State) assume(t *Term) { s.add(t, false) }

func (s *State) dead() bool {
	for f := s.facts; f != nil; f = f.parent {
		if isFalse(f.t) {
			return true
		}
	}
	return false
}

func (s *State) factList() []*Term {
	var out []*Term
	for f := s.facts; f != nil; f = f.parent {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------------------------------------------------------------- obligations

type Obligation struct {
	Fn        string
	Name      string // stable name
	Kind      string
	Pos       string
	facts     []*Term
	goal      *Term
	bv        bool
	pool      *Pool
	reveal    map[string]bool
	use       map[string]bool
	limit     int // lemma order limit
	timeout   int
	cand      string
	triv      bool
	unsup     string
	pkg       string
	expectSat bool
	alts      []*Obligation
}

type outKind int

const (
	oNorm outKind = iota
	oBreak
	oCont
	oRet
)

type Out struct {
	st   *State
	kind outKind
	lbl  string
	vals []*Term // return values
	pos  token.Pos
}

// ---------------------------------------------------------------- executor

type Frame struct {
	fi     *FuncInfo
	info   *types.Info
	up     *Frame
	res    []types.Object // named results (or synthetic)
	resT   []types.Type
	boxed  map[types.Object]bool
	params map[string]types.Object
	scope  map[string]types.Object // most recent declaration per name
}

type Write struct {
	mapn string
	ref  *Term
	sort string
}

type Exec struct {
	globals   map[*types.Var]constant.Value
	extra     []loc         // locations of representations that may be written
	outs      map[int]*Term // slice arguments written by the last call
	refPkg    *Pkg          // package of the interface contract, in a refinement
	prog      *Program
	sp        *Specs
	obls      []*Obligation
	fr        *Frame
	con       *Contract
	fi        *FuncInfo
	old       *State // at entry
	entryV    map[string]SV
	dry       int
	writes    []Write
	wseen     map[string]bool
	loopN     int
	loopOrd   map[loopKey]int
	loopPre   []*State
	loopCnt   []*Term
	reveal    map[string]bool
	use       map[string]bool
	bv        bool
	names     map[string]int
	unsup     []string
	used      map[string]bool // contracts relied upon
	inlined   map[string]bool
	limit     int
	cands     map[string]bool // disabled candidate invariants
	candN     map[string]int
	split     bool
	loopd     int // loops around the current statement
	retStates []Out
	timeout   int
	mapT      map[string]string // heap map -> sort
	subrefs   map[string]bool
	stack     []string
	trusted   map[string]bool
	loopInfo  []string
	curLoop   []int
	lemma     *Lemma
	noObl     int
	noCands   bool
}

type loopKey struct {
	node ast.Node
	path string
}

func (x *Exec) pos(p token.Pos) string {
	ps := x.prog.fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/orc/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) name(kind, label string) string {
	k := kind
	if label != "" {
		k += ":" + label
	}
	x.names[k]++
	if x.names[k] > 1 {
		return fmt.Sprintf("%s#%d", k, x.names[k])
	}
	return k
}

func (x *Exec) oblige(st *State, goal *Term, kind, label string, pos string) {
	if x.dry > 0 || x.noObl > 0 {
		st.assume(goal)
		return
	}
	if isTrue(goal) {
		return
	}
	if st.dead() {
		return
	}
	x.emit(st, goal, kind, label, pos, "")
	st.assume(goal)
}

func (x *Exec) emit(st *State, goal *Term, kind, label, pos, cand string) {
	if goal.op == "and" && len(goal.args) <= 400 {
		for _, g := range goal.args {
			x.emit(st, g, kind, label, pos, cand)
		}
		return
	}
	if goal.op == "=>" && goal.args[1].op == "and" && len(goal.args[1].args) <= 400 {
		for _, g := range goal.args[1].args {
			x.emit(st, Implies(goal.args[0], g), kind, label, pos, cand)
		}
		return
	}
	triv := cand == "" && os.Getenv("VCG_NOPATH") == "" && st.facts.known(goal, nil)
	o := &Obligation{Name: x.name(kind, label), Kind: kind, Pos: pos, triv: triv, facts: st.factList(), goal: goalForm(goal), bv: x.bv, pool: P, reveal: copyB(x.reveal), use: x.use, limit: x.limit, timeout: x.timeout, cand: cand}
	if x.fi != nil {
		o.Fn = x.fi.key
		o.pkg = x.fi.pkg.path
	}
	if x.lemma != nil {
		o.Fn = "lemma " + x.lemma.name
	}
	x.obls = append(x.obls, o)
}

func copyB(m map[string]bool) map[string]bool {
	n := map[string]bool{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (x *Exec) unsupported(st *State, pos token.Pos, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if x.dry == 0 && x.noObl == 0 && !st.dead() {
		x.unsup = append(x.unsup, x.pos(pos)+": "+msg)
		o := &Obligation{Name: x.name("unsupported", ""), Kind: "unsupported", Pos: x.pos(pos), facts: st.factList(), goal: False(), pool: P, bv: x.bv, unsup: msg, reveal: copyB(x.reveal), limit: x.limit}
		o.Fn = x.fi.key
		x.obls = append(x.obls, o)
	}
}

func (x *Exec) typeOf(e ast.Expr) types.Type { return x.fr.info.TypeOf(e) }

// ---------------------------------------------------------------- heap

func (x *Exec) hmap(st *State, name, sort string) *Term {
	if m, ok := st.heap[name]; ok {
		return m
	}
	x.mapT[name] = sort
	// initial content of the map: one constant per pool
	return ConstT("H0_"+clean(name), sort)
}

func (x *Exec) hget(st *State, name, sort string, ref *Term) *Term {
	return onPath(st.facts, func() *Term { return Select(x.hmap(st, name, sort), ref) })
}

func (x *Exec) hset(st *State, name, sort string, ref, v *Term) {
	m := x.hmap(st, name, sort)
	st.heap[name] = Store(m, ref, v)
	x.mapT[name] = sort
	if x.dry > 0 {
		x.writes = append(x.writes, Write{name, ref, sort})
	}
}

func fieldMap(n *types.Named, f string) string { return "H_" + clean(typeName(n)) + "." + f }

// where a location may be written: fresh objects always, others if listed
func (x *Exec) frame(st *State, name string, ref *Term, pos token.Pos) {
	x.frameIf(st, nil, name, ref, pos)
}

func (x *Exec) frameIf(st *State, cond *Term, name string, ref *Term, pos token.Pos) {
	if x.con == nil || x.con.modAll || x.dry > 0 || x.noObl > 0 {
		return
	}
	var ok []*Term
	if ref != nil {
		ok = append(ok, x.isFresh(ref))
	}
	ls := x.extra
	for _, m := range x.con.mods {
		ls = append(ls[:len(ls):len(ls)], x.modLocs(m, x.entryEnv())...)
	}
	{
		for _, l := range ls {
			if l.mapn == name || l.all != "" && strings.HasPrefix(name, l.all) {
				if l.whole {
					if l.cond == nil {
						return
					}
					ok = append(ok, l.cond)
				} else if ref == nil {
					continue
				} else if l.cond != nil {
					ok = append(ok, And(l.cond, Eq(ref, l.ref)))
				} else {
					ok = append(ok, Eq(ref, l.ref))
				}
			}
		}
	}
	g := Or(ok...)
	if cond != nil {
		g = Implies(cond, g)
	}
	x.oblige(st, g, "frame", name, x.pos(pos))
}

func (x *Exec) isFresh(ref *Term) *Term {
	return Lt(x.old.alloc, x.rootRef(ref))
}

// the object a subobject reference belongs to
func (x *Exec) rootRef(r *Term) *Term {
	for strings.HasPrefix(r.op, "app:fld_") {
		r = r.args[0]
	}
	return r
}

func (x *Exec) newRef(st *State) *Term {
	st.alloc = Add(st.alloc, NumI(1))
	return st.alloc
}

// address of an embedded struct field
func (x *Exec) subref(st *State, n *types.Named, f string, ref *Term) *Term {
	nm := "fld_" + clean(typeName(n)) + "." + f
	x.subrefs[nm] = true
	t := App(nm, "Int", ref)
	return t
}

func subrefAxioms(used map[string]bool) []*Term {
	var out []*Term
	i := 0
	for _, nm := range sortedKeys(used) {
		i++
		if !strings.HasPrefix(nm, "fld_") {
			continue
		}
		v := BVar("r", "Int")
		t := App(nm, "Int", v)
		out = append(out, Forall([]*Term{v}, And(Lt(t, NumI(0)), Eq(App("fldinv", "Int", t), v), Eq(App("fldtag", "Int", t), NumI(int64(i)))), []*Term{t}))
	}
	return out
}

// load field f of the object at ref (type n)
func (x *Exec) loadField(st *State, n *types.Named, f *types.Var, ref *Term) *Term {
	if isStructT(f.Type()) {
		return x.loadStruct(st, f.Type(), x.subref(st, n, f.Name(), ref))
	}
	notePtrField(fieldMap(n, f.Name()), f.Type())
	v := x.hget(st, fieldMap(n, f.Name()), mapSort(f.Type()), ref)
	x.refFact(st, v, f.Type())
	return v
}

func (x *Exec) refFact(st *State, v *Term, t types.Type) {
	if v.bound {
		return
	}
	if isPtr(t) && v.op != "num" {
		st.assume(P.mk("<=", "Bool", v, st.alloc))
		st.assume(P.mk("<=", "Bool", NumI(0), v))
	}
}

func (x *Exec) loadStruct(st *State, t types.Type, ref *Term) *Term {
	n, s, ok := structNamed(t)
	if !ok {
		// opaque external struct
		return x.hget(st, "V_"+clean(t.String()), "Arr_Int", ref)
	}
	sort := sortOf(t)
	var as []*Term
	for i := 0; i < s.NumFields(); i++ {
		as = append(as, x.loadField(st, n, s.Field(i), ref))
	}
	return MkCtor("mk_"+clean(typeName(n)), sort, as...)
}

func (x *Exec) storeField(st *State, n *types.Named, f *types.Var, ref, v *Term, pos token.Pos) {
	if isStructT(f.Type()) {
		x.storeStruct(st, f.Type(), x.subref(st, n, f.Name(), ref), v, pos)
		return
	}
	x.frame(st, fieldMap(n, f.Name()), ref, pos)
	x.hset(st, fieldMap(n, f.Name()), mapSort(f.Type()), ref, v)
}

func (x *Exec) storeStruct(st *State, t types.Type, ref, v *Term, pos token.Pos) {
	n, s, ok := structNamed(t)
	if !ok {
		nm := "V_" + clean(t.String())
		x.frame(st, nm, ref, pos)
		x.hset(st, nm, "Arr_Int", ref, v)
		// ghost fields of a freshly zeroed external struct
		if v.op == "num" && v.num.Sign() == 0 {
			x.zeroGhosts(st, ref)
		}
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		x.storeField(st, n, f, ref, selField(v, fieldSel(n, f.Name()), sortOf(f.Type())), pos)
	}
}

// a zero-valued external object (bytes.Buffer) has empty ghost content
func (x *Exec) zeroGhosts(st *State, ref *Term) {
	for _, g := range sortedKeys(x.sp.gfields) {
		gf := x.sp.gfields[g]
		vt := x.vtOfSpec(gf.typ, nil)
		if vt.k == "seq" {
			x.hset(st, "GF_"+g, "Arr_"+vt.sort, ref, SEmpty(vt.sort))
		}
	}
}

func (x *Exec) cellMap(t types.Type) (string, string) {
	return "P_" + kindOf(t), mapSort(t)
}

func (x *Exec) loadPtr(st *State, t types.Type, ref *Term) *Term {
	if isStructT(t) {
		return x.loadStruct(st, t, ref)
	}
	nm, so := x.cellMap(t)
	v := x.hget(st, nm, so, ref)
	x.refFact(st, v, t)
	return v
}
func (x *Exec) storePtr(st *State, t types.Type, ref, v *Term, pos token.Pos) {
	if isStructT(t) {
		x.storeStruct(st, t, ref, v, pos)
		return
	}
	nm, so := x.cellMap(t)
	x.frame(st, nm, ref, pos)
	x.hset(st, nm, so, ref, v)
}

// ---------------------------------------------------------------- merging

func commonAncestor(a, b *Fact) *Fact {
	for a != b {
		if a == nil || b == nil {
			if a == nil && b == nil {
				return nil
			}
			return nil
		}
		if a.depth > b.depth {
			a = a.parent
		} else if b.depth > a.depth {
			b = b.parent
		} else {
			a, b = a.parent, b.parent
		}
	}
	return a
}

func factDepthGuard(f *Fact) int {
	if f == nil {
		return -1
	}
	return f.depth
}

func (x *Exec) merge(sts []*State, extra [][]*Term) (*State, []*Term) {
	var live []int
	for i, s := range sts {
		if !s.dead() {
			live = append(live, i)
		}
	}
	if len(live) == 0 {
		if len(sts) == 0 {
			return nil, nil
		}
		var ex []*Term
		if extra != nil {
			ex = extra[0]
		}
		return sts[0], ex
	}
	if len(live) == 1 {
		var ex []*Term
		if extra != nil {
			ex = extra[live[0]]
		}
		return sts[live[0]], ex
	}
	var ls []*State
	var exs [][]*Term
	for _, i := range live {
		ls = append(ls, sts[i])
		if extra != nil {
			exs = append(exs, extra[i])
		}
	}
	anc := ls[0].facts
	for _, s := range ls[1:] {
		if s.defers != ls[0].defers {
			x.unsupported(s, x.fi.decl.Pos(), "defer on some paths only")
		}
		anc = commonAncestor(anc, s.facts)
	}
	base := &State{facts: anc}
	sels := make([]*Term, len(ls))
	rest := make([][]*Term, len(ls))
	for i, s := range ls {
		var cs []*Term
		for f := s.facts; f != anc; f = f.parent {
			if f.cond {
				cs = append(cs, f.t)
			} else {
				rest[i] = append(rest[i], f.t)
			}
		}
		for a, b := 0, len(cs)-1; a < b; a, b = a+1, b-1 {
			cs[a], cs[b] = cs[b], cs[a]
		}
		sels[i] = And(cs...)
	}
	res := &State{vars: map[types.Object]*Term{}, ghosts: map[string]SV{}, heap: map[string]*Term{}, facts: base.facts, defers: ls[0].defers}
	res.assume(Or(sels...))
	for i := range ls {
		for k := len(rest[i]) - 1; k >= 0; k-- {
			res.assume(Implies(sels[i], rest[i][k]))
		}
	}
	pick := func(vs []*Term) *Term {
		r := vs[len(vs)-1]
		for i := len(vs) - 2; i >= 0; i-- {
			r = Ite(sels[i], vs[i], r)
		}
		return r
	}
	// variables present in all states
	for k, v0 := range ls[0].vars {
		vs := []*Term{v0}
		ok := true
		for _, s := range ls[1:] {
			v, has := s.vars[k]
			if !has {
				ok = false
				break
			}
			vs = append(vs, v)
		}
		if ok {
			res.vars[k] = pick(vs)
		}
	}
	for k, v0 := range ls[0].ghosts {
		vs := []*Term{v0.t}
		ok := true
		for _, s := range ls[1:] {
			v, has := s.ghosts[k]
			if !has {
				ok = false
				break
			}
			vs = append(vs, v.t)
		}
		if ok {
			res.ghosts[k] = SV{pick(vs), v0.ty}
		}
	}
	maps := map[string]bool{}
	for _, s := range ls {
		for k := range s.heap {
			maps[k] = true
		}
	}
	for k := range maps {
		var vs []*Term
		for _, s := range ls {
			vs = append(vs, x.hmap(s, k, x.mapT[k]))
		}
		res.heap[k] = onPath(res.facts, func() *Term { return x.mergeMaps(sels, vs) })
	}
	var al []*Term
	for _, s := range ls {
		al = append(al, s.alloc)
	}
	same := true
	for _, a := range al {
		if a != al[0] {
			same = false
		}
	}
	if same {
		res.alloc = al[0]
	} else {
		res.alloc = Fresh("alloc", "Int")
		for _, a := range al {
			res.assume(P.mk("<=", "Bool", a, res.alloc))
		}
	}
	var outs []*Term
	if extra != nil {
		for j := range exs[0] {
			var vs []*Term
			for i := range exs {
				vs = append(vs, exs[i][j])
			}
			outs = append(outs, pick(vs))
		}
	}
	return res, outs
}

// merging heap maps: common base with stores at a few references merges
// pointwise, so that unrelated references stay visible
func (x *Exec) mergeMaps(sels, vs []*Term) *Term {
	same := true
	for _, v := range vs {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	bases := map[*Term]int{}
	for _, v := range vs {
		for b := v; ; b = b.args[0] {
			bases[b]++
			if b.op != "store" {
				break
			}
		}
	}
	var base *Term
	for b := vs[0]; ; b = b.args[0] {
		if bases[b] == len(vs) {
			base = b
			break
		}
		if b.op != "store" {
			break
		}
	}
	if base == nil {
		r := vs[len(vs)-1]
		for i := len(vs) - 2; i >= 0; i-- {
			r = Ite(sels[i], vs[i], r)
		}
		return r
	}
	var refs []*Term
	seen := map[*Term]bool{}
	for _, v := range vs {
		for b := v; b != base; b = b.args[0] {
			if !seen[b.args[1]] {
				seen[b.args[1]] = true
				refs = append(refs, b.args[1])
			}
		}
	}
	// only valid if refs are pairwise distinct or stored in one place
	if len(refs) > 1 {
		for i := range refs {
			for j := i + 1; j < len(refs); j++ {
				if !distinctRefs(refs[i], refs[j]) {
					r := vs[len(vs)-1]
					for i := len(vs) - 2; i >= 0; i-- {
						r = Ite(sels[i], vs[i], r)
					}
					return r
				}
			}
		}
	}
	m := base
	sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
	for _, r := range refs {
		v := Select(vs[len(vs)-1], r)
		for i := len(vs) - 2; i >= 0; i-- {
			v = Ite(sels[i], Select(vs[i], r), v)
		}
		m = Store(m, r, v)
	}
	return m
}

// fork on a condition
func (x *Exec) fork(st *State, c *Term) (a, b *State) {
	a = st.clone()
	a.add(c, true)
	b = st.clone()
	b.add(Not(c), true)
	return
}

// ---------------------------------------------------------------- statements

func (x *Exec) block(list []ast.Stmt, st *State) []Out {
	cur := []*State{st}
	var outs []Out
	for _, s := range list {
		var next []*State
		for _, c := range cur {
			if c.dead() {
				continue
			}
			for _, o := range x.stmt(s, c, "") {
				if o.kind == oNorm {
					next = append(next, o.st)
				} else {
					outs = append(outs, o)
				}
			}
		}
		cur = x.join(next)
		if len(cur) == 0 {
			return outs
		}
	}
	for _, c := range cur {
		outs = append(outs, Out{st: c, kind: oNorm})
	}
	return outs
}

func (x *Exec) join(sts []*State) []*State {
	var live []*State
	for _, s := range sts {
		if !s.dead() {
			live = append(live, s)
		}
	}
	if len(live) <= 1 || (x.split && len(live) <= 24) {
		return live
	}
	m, _ := x.merge(live, nil)
	return []*State{m}
}

// the values a deferred call depends on: method calls on a variable, without closures
func (x *Exec) deferVals(c *ast.CallExpr, st *State) ([]*Term, bool) {
	var vals []*Term
	se, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return nil, false
	}
	for _, e := range append([]ast.Expr{se.X}, c.Args...) {
		if id, ok := ast.Unparen(e).(*ast.Ident); !ok {
			return nil, false
		} else if _, isv := x.fr.info.Uses[id].(*types.Var); !isv {
			return nil, false
		}
		vals = append(vals, x.eval(e, st))
	}
	return vals, true
}

func (x *Exec) runDefers(st *State) {
	for st.defers != nil {
		d := st.defers
		st.defers = d.parent
		now, _ := x.deferVals(d.call, st)
		for i := range now {
			x.oblige(st, Eq(now[i], d.vals[i]), "defer-stable", "", x.pos(d.call.Pos()))
		}
		x.call(d.call, st)
	}
}

func norm(st *State) []Out { return []Out{{st: st, kind: oNorm}} }

func (x *Exec) stmt(s ast.Stmt, st *State, label string) []Out {
	switch s := s.(type) {
	case nil:
		return norm(st)
	case *ast.EmptyStmt:
		return norm(st)
	case *ast.BlockStmt:
		return x.block(s.List, st)
	case *ast.ExprStmt:
		if c, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
			x.call(c, st)
		} else {
			x.eval(s.X, st)
		}
		if st.dead() {
			return nil
		}
		return norm(st)
	case *ast.LabeledStmt:
		return x.stmt(s.Stmt, st, s.Label.Name)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			if gd.Tok == token.CONST {
				continue
			}
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				vals := x.evalMulti(vs.Values[0], st)
				for i, n := range vs.Names {
					x.declare(st, x.fr.info.Defs[n], vals[i])
				}
				continue
			}
			for i, n := range vs.Names {
				obj := x.fr.info.Defs[n]
				var v *Term
				if i < len(vs.Values) {
					v = x.evalTo(vs.Values[i], st, objType(obj, x.typeOf(vs.Values[i])))
				} else {
					v = zeroOf(obj.Type())
				}
				x.declare(st, obj, v)
			}
		}
		return norm(st)
	case *ast.AssignStmt:
		x.assignStmt(s, st)
		if st.dead() {
			return nil
		}
		return norm(st)
	case *ast.IncDecStmt:
		t := x.typeOf(s.X)
		v := x.eval(s.X, st)
		d := NumI(1)
		var nv *Term
		if bits, sg, ok := intInfo(t); ok {
			if s.Tok == token.INC {
				nv = Wrap(Add(v, d), bits, sg)
			} else {
				nv = Wrap(Sub(v, d), bits, sg)
			}
		} else {
			nv = withRange(Fresh("inc", sortOf(t)), t)
		}
		x.assign(s.X, nv, st)
		return norm(st)
	case *ast.IfStmt:
		if s.Init != nil {
			os := x.stmt(s.Init, st, "")
			if len(os) != 1 || os[0].kind != oNorm {
				return nil
			}
			st = os[0].st
		}
		c := x.eval(s.Cond, st)
		if st.dead() {
			return nil
		}
		a, b := x.fork(st, c)
		var outs []Out
		if !a.dead() {
			outs = append(outs, x.block(s.Body.List, a)...)
		}
		if !b.dead() {
			if s.Else != nil {
				outs = append(outs, x.stmt(s.Else, b, "")...)
			} else {
				outs = append(outs, Out{st: b, kind: oNorm})
			}
		}
		return x.joinOuts(outs)
	case *ast.SwitchStmt:
		return x.switchStmt(s, st, label)
	case *ast.TypeSwitchStmt:
		return x.typeSwitch(s, st, label)
	case *ast.ForStmt:
		if s.Init != nil {
			os := x.stmt(s.Init, st, "")
			if len(os) != 1 {
				return nil
			}
			st = os[0].st
		}
		return x.loop(s, st, label)
	case *ast.RangeStmt:
		return x.loop(s, st, label)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return []Out{{st: st, kind: oBreak, lbl: l}}
		case token.CONTINUE:
			return []Out{{st: st, kind: oCont, lbl: l}}
		}
		x.unsupported(st, s.Pos(), "branch %s", s.Tok)
		return nil
	case *ast.ReturnStmt:
		var vals []*Term
		if len(s.Results) == 0 {
			for i, r := range x.fr.res {
				_ = i
				if r == nil {
					continue
				}
				vals = append(vals, x.readVar(st, r))
			}
		} else if len(s.Results) == 1 && len(x.fr.resT) > 1 {
			vs := x.evalMulti(s.Results[0], st)
			tup := x.typeOf(s.Results[0]).(*types.Tuple)
			for i, v := range vs {
				vals = append(vals, x.convAssign(v, tup.At(i).Type(), x.fr.resT[i]))
			}
		} else {
			for i, e := range s.Results {
				vals = append(vals, x.evalTo(e, st, x.fr.resT[i]))
			}
		}
		if st.dead() {
			return nil
		}
		for i, r := range x.fr.res {
			if r != nil && i < len(vals) {
				x.writeVar(st, r, vals[i])
			}
		}
		x.runDefers(st)
		return []Out{{st: st, kind: oRet, vals: vals, pos: s.Pos()}}
	case *ast.DeferStmt:
		if f := x.callee(s.Call); f != nil && x.sp.ignore[funcKey(f)] {
			return norm(st)
		}
		vals, ok := x.deferVals(s.Call, st)
		if !ok || x.loopd > 0 {
			x.unsupported(st, s.Pos(), "defer")
			return norm(st)
		}
		st.defers = &Deferred{st.defers, s.Call, vals}
		return norm(st)
	}
	x.unsupported(st, s.Pos(), "statement %T", s)
	return norm(st)
}

func objType(o types.Object, t types.Type) types.Type {
	if o == nil {
		return t
	}
	return o.Type()
}

func (x *Exec) joinOuts(outs []Out) []Out {
	var norms []*State
	var rest []Out
	for _, o := range outs {
		if o.st.dead() {
			continue
		}
		if o.kind == oNorm {
			norms = append(norms, o.st)
		} else {
			rest = append(rest, o)
		}
	}
	for _, s := range x.join(norms) {
		rest = append(rest, Out{st: s, kind: oNorm})
	}
	return rest
}

func (x *Exec) switchStmt(s *ast.SwitchStmt, st *State, label string) []Out {
	if s.Init != nil {
		os := x.stmt(s.Init, st, "")
		if len(os) != 1 {
			return nil
		}
		st = os[0].st
	}
	var tag *Term
	var tagT types.Type
	if s.Tag != nil {
		tag = x.eval(s.Tag, st)
		tagT = x.typeOf(s.Tag)
	}
	var outs []Out
	cur := st
	var def *ast.CaseClause
	// the statements of a clause, those it falls through to included
	var body func(c *ast.CaseClause) []ast.Stmt
	body = func(c *ast.CaseClause) []ast.Stmt {
		k := len(c.Body) - 1
		if k >= 0 {
			if b, ok := c.Body[k].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				for i, cc := range s.Body.List {
					if cc == c && i+1 < len(s.Body.List) {
						return append(append([]ast.Stmt{}, c.Body[:k]...), body(s.Body.List[i+1].(*ast.CaseClause))...)
					}
				}
			}
		}
		return c.Body
	}
	for _, cc := range s.Body.List {
		c := cc.(*ast.CaseClause)
		if c.List == nil {
			def = c
			continue
		}
		var conds []*Term
		for _, e := range c.List {
			var v *Term
			if tag == nil {
				v = x.eval(e, cur)
			} else {
				ev := x.evalTo(e, cur, tagT)
				if isIface(tagT) || !isIface(x.typeOf(e)) {
					v = Eq(tag, ev)
				} else {
					v = Eq(boxAny(tag, tagT), ev)
				}
			}
			conds = append(conds, v)
		}
		a, b := x.fork(cur, Or(conds...))
		if !a.dead() {
			outs = append(outs, x.block(body(c), a)...)
		}
		cur = b
	}
	if !cur.dead() {
		if def != nil {
			outs = append(outs, x.block(body(def), cur)...)
		} else {
			outs = append(outs, Out{st: cur, kind: oNorm})
		}
	}
	return x.joinOuts(breakOuts(outs, label))
}

// break inside a switch leaves the switch
func breakOuts(outs []Out, label string) []Out {
	for i := range outs {
		if outs[i].kind == oBreak && (outs[i].lbl == "" || outs[i].lbl == label) {
			outs[i].kind = oNorm
			outs[i].lbl = ""
		}
	}
	return outs
}

func (x *Exec) typeSwitch(s *ast.TypeSwitchStmt, st *State, label string) []Out {
	if s.Init != nil {
		x.unsupported(st, s.Pos(), "type switch init")
	}
	var e ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		e = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		e = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	v := x.eval(e, st)
	var outs []Out
	cur := st
	var def *ast.CaseClause
	for _, cc := range s.Body.List {
		c := cc.(*ast.CaseClause)
		if c.List == nil {
			def = c
			continue
		}
		var conds []*Term
		for _, te := range c.List {
			if id, ok := te.(*ast.Ident); ok && id.Name == "nil" {
				conds = append(conds, isCtorTest(v, "any_nil"))
				continue
			}
			conds = append(conds, x.implTest(v, x.typeOf(te)))
		}
		a, b := x.fork(cur, Or(conds...))
		if !a.dead() {
			if obj := x.fr.info.Implicits[c]; obj != nil {
				if len(c.List) == 1 && !isIface(obj.Type()) {
					x.declare(a, obj, x.unboxVal(a, v, obj.Type()))
				} else {
					x.declare(a, obj, v)
				}
			}
			outs = append(outs, x.block(c.Body, a)...)
		}
		cur = b
	}
	if !cur.dead() {
		if def != nil {
			if obj := x.fr.info.Implicits[def]; obj != nil {
				x.declare(cur, obj, v)
			}
			outs = append(outs, x.block(def.Body, cur)...)
		} else {
			outs = append(outs, Out{st: cur, kind: oNorm})
		}
	}
	return x.joinOuts(breakOuts(outs, label))
}

func (x *Exec) implTest(v *Term, t types.Type) *Term {
	if isIface(t) {
		it := under(t).(*types.Interface)
		if it.Empty() {
			return Not(isCtorTest(v, "any_nil"))
		}
		// statically known dynamic type
		return And(Not(isCtorTest(v, "any_nil")), App("impl_"+clean(t.String()), "Bool", v))
	}
	return anyIs(v, t)
}

func (x *Exec) unboxVal(st *State, v *Term, t types.Type) *Term {
	r := unboxAny(v, t)
	lo, _ := rangeOf(t)
	if (lo != nil || isPtr(t)) && strings.HasPrefix(r.op, "sel:") {
		c := withRange(Fresh("unbox", r.sort), t)
		st.assume(Eq(c, r))
		x.refFact(st, c, t)
		return c
	}
	return r
}

// ---------------------------------------------------------------- variables

func (x *Exec) declare(st *State, obj types.Object, v *Term) {
	if obj == nil {
		return
	}
	x.fr.scope[obj.Name()] = obj
	if x.fr.boxed[obj] {
		r := x.newRef(st)
		st.vars[obj] = r
		sv := x.con
		x.con = nil
		x.storePtr(st, obj.Type(), r, v, obj.Pos())
		x.con = sv
		return
	}
	st.vars[obj] = v
}

func (x *Exec) readVar(st *State, obj types.Object) *Term {
	v, ok := st.vars[obj]
	if !ok {
		return nil
	}
	if x.fr.boxed[obj] {
		return x.loadPtr(st, obj.Type(), v)
	}
	return v
}

func (x *Exec) writeVar(st *State, obj types.Object, v *Term) {
	if x.fr.boxed[obj] {
		r := st.vars[obj]
		x.storePtr(st, obj.Type(), r, v, obj.Pos())
		return
	}
	st.vars[obj] = v
}

func (x *Exec) assignStmt(s *ast.AssignStmt, st *State) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		// op=
		t := x.typeOf(s.Lhs[0])
		l := x.eval(s.Lhs[0], st)
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM,
			token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		op := ops[s.Tok]
		var r *Term
		if op == token.SHL || op == token.SHR {
			r = x.eval(s.Rhs[0], st)
		} else {
			r = x.evalTo(s.Rhs[0], st, t)
		}
		v := x.binop(st, op, l, r, t, x.typeOf(s.Rhs[0]), s.Rhs[0], s.Pos())
		x.assign(s.Lhs[0], v, st)
		return
	}
	var vals []*Term
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		vs := x.evalMulti(s.Rhs[0], st)
		if st.dead() {
			return
		}
		var ts []types.Type
		if tup, ok := x.typeOf(s.Rhs[0]).(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				ts = append(ts, tup.At(i).Type())
			}
		} else {
			ts = []types.Type{x.typeOf(s.Rhs[0]), types.Typ[types.Bool]}
		}
		for i, v := range vs {
			lt := x.lhsType(s.Lhs[i])
			if lt == nil {
				vals = append(vals, v)
			} else {
				vals = append(vals, x.convAssign(v, ts[i], lt))
			}
		}
	} else {
		for i, e := range s.Rhs {
			lt := x.lhsType(s.Lhs[i])
			if lt == nil {
				vals = append(vals, x.eval(e, st))
			} else {
				vals = append(vals, x.evalTo(e, st, lt))
			}
		}
	}
	if st.dead() {
		return
	}
	for i, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if s.Tok == token.DEFINE {
				if obj := x.fr.info.Defs[id]; obj != nil {
					x.declare(st, obj, vals[i])
					continue
				}
			}
		}
		x.assign(l, vals[i], st)
	}
}

func (x *Exec) lhsType(e ast.Expr) types.Type {
	if id, ok := e.(*ast.Ident); ok {
		if id.Name == "_" {
			return nil
		}
		if o := x.fr.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return x.typeOf(e)
}

func (x *Exec) assign(l ast.Expr, v *Term, st *State) {
	switch l := ast.Unparen(l).(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return
		}
		obj := x.fr.info.ObjectOf(l)
		if pv, ok := obj.(*types.Var); ok && pv.Parent() == pv.Pkg().Scope() && !isStructT(pv.Type()) {
			x.frame(st, globalMap(pv), NumI(0), l.Pos())
			x.hset(st, globalMap(pv), mapSort(pv.Type()), NumI(0), v)
			return
		}
		if pv, ok := obj.(*types.Var); ok && pv.Parent() == pv.Pkg().Scope() {
			x.unsupported(st, l.Pos(), "assignment to package variable %s", l.Name)
			return
		}
		x.writeVar(st, obj, v)
	case *ast.SelectorExpr:
		sel := x.fr.info.Selections[l]
		if sel == nil {
			x.unsupported(st, l.Pos(), "assignment to package variable")
			return
		}
		x.assignSel(l, sel, v, st)
	case *ast.IndexExpr:
		bt := x.typeOf(l.X)
		if _, ok := under(bt).(*types.Map); ok {
			x.eval(l.X, st)
			x.eval(l.Index, st)
			x.unsupported(st, l.Pos(), "map assignment")
			return
		}
		base := x.eval(l.X, st)
		i := x.eval(l.Index, st)
		x.oblige(st, And(Le(NumI(0), i), Lt(i, SLen(base))), "index", "", x.pos(l.Pos()))
		x.assign(l.X, SUpd(base, i, v), st)
	case *ast.StarExpr:
		p := x.eval(l.X, st)
		x.nonNil(st, p, l.Pos())
		x.storePtr(st, under(x.typeOf(l.X)).(*types.Pointer).Elem(), p, v, l.Pos())
	case *ast.SliceExpr:
		base := x.eval(l.X, st)
		lo, hi := x.sliceBounds(l, base, st, false)
		x.assign(l.X, SAppend(SAppend(STake(base, lo), v), SDrop(base, hi)), st)
	case *ast.CallExpr: // write-back through a conversion: ignored
		x.unsupported(st, l.Pos(), "write through call result")
	default:
		x.unsupported(st, l.Pos(), "assignment to %T", l)
	}
}

func (x *Exec) nonNil(st *State, r *Term, pos token.Pos) {
	if strings.HasPrefix(r.op, "app:fld_") {
		return
	}
	x.oblige(st, Not(Eq(r, NumI(0))), "nil", "", x.pos(pos))
}

// path of a field selection: walks embedded fields
func (x *Exec) assignSel(l *ast.SelectorExpr, sel *types.Selection, v *Term, st *State) {
	idx := sel.Index()
	t := sel.Recv()
	if ref, n, ok := x.refPath(l.X, t, idx[:len(idx)-1], st); ok {
		f := n.Underlying().(*types.Struct).Field(idx[len(idx)-1])
		if !isModPkg(n.Obj().Pkg()) {
			x.unsupported(st, l.Pos(), "field of external struct")
			return
		}
		x.storeField(st, n, f, ref, v, l.Pos())
		return
	}
	// functional update of a struct value
	if len(idx) != 1 {
		x.unsupported(st, l.Pos(), "embedded value update")
		return
	}
	n, s, ok := structNamed(t)
	if !ok {
		x.unsupported(st, l.Pos(), "field of external struct")
		return
	}
	base := x.eval(l.X, st)
	x.assign(l.X, updField(base, n, s, idx[0], v), st)
}

func updField(base *Term, n *types.Named, s *types.Struct, k int, v *Term) *Term {
	var as []*Term
	for i := 0; i < s.NumFields(); i++ {
		if i == k {
			as = append(as, v)
		} else {
			as = append(as, selField(base, fieldSel(n, s.Field(i).Name()), sortOf(s.Field(i).Type())))
		}
	}
	return MkCtor("mk_"+clean(typeName(n)), base.sort, as...)
}

// refPath evaluates e (of type t) followed by the embedded-field path to the
// address of a struct object, if it denotes one.
func (x *Exec) refPath(e ast.Expr, t types.Type, path []int, st *State) (*Term, *types.Named, bool) {
	var ref *Term
	var n *types.Named
	if p, ok := under(t).(*types.Pointer); ok {
		ref = x.eval(e, st)
		x.nonNil(st, ref, e.Pos())
		n, _ = types.Unalias(p.Elem()).(*types.Named)
	} else {
		r, ok := x.addrOf(e, st)
		if !ok {
			// a struct value leads to an object through an embedded pointer
			ptr := -1
			ct := t
			for k, i := range path {
				s, ok := under(ct).(*types.Struct)
				if !ok {
					return nil, nil, false
				}
				ct = s.Field(i).Type()
				if isPtr(ct) {
					ptr = k
					break
				}
			}
			if ptr < 0 {
				return nil, nil, false
			}
			v := x.eval(e, st)
			ct = t
			for _, i := range path[:ptr+1] {
				vn, vs, ok := structNamed(ct)
				if !ok {
					return nil, nil, false
				}
				f := vs.Field(i)
				v = selField(v, fieldSel(vn, f.Name()), sortOf(f.Type()))
				ct = f.Type()
			}
			x.nonNil(st, v, e.Pos())
			r, t, path = v, under(ct).(*types.Pointer).Elem(), path[ptr+1:]
		}
		ref = r
		n, _ = types.Unalias(t).(*types.Named)
	}
	if n == nil {
		return nil, nil, false
	}
	for _, i := range path {
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return nil, nil, false
		}
		f := s.Field(i)
		ft := f.Type()
		if p, ok := under(ft).(*types.Pointer); ok {
			ref = x.loadField(st, n, f, ref)
			x.nonNil(st, ref, e.Pos())
			n, _ = types.Unalias(p.Elem()).(*types.Named)
		} else if isIface(ft) {
			return nil, nil, false
		} else {
			ref = x.subref(st, n, f.Name(), ref)
			n, _ = types.Unalias(ft).(*types.Named)
		}
		if n == nil {
			return nil, nil, false
		}
	}
	return ref, n, true
}

// addrOf: address of an addressable struct-typed (or boxed) expression
func (x *Exec) addrOf(e ast.Expr, st *State) (*Term, bool) {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		obj := x.fr.info.ObjectOf(e)
		if x.fr.boxed[obj] {
			return st.vars[obj], st.vars[obj] != nil
		}
		return nil, false
	case *ast.StarExpr:
		p := x.eval(e.X, st)
		x.nonNil(st, p, e.Pos())
		return p, true
	case *ast.SelectorExpr:
		sel := x.fr.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			return nil, false
		}
		idx := sel.Index()
		if !isStructT(x.typeOf(e)) {
			return nil, false
		}
		ref, n, ok := x.refPath(e.X, sel.Recv(), idx[:len(idx)-1], st)
		if !ok {
			return nil, false
		}
		f := n.Underlying().(*types.Struct).Field(idx[len(idx)-1])
		return x.subref(st, n, f.Name(), ref), true
	}
	return nil, false
}

// ---------------------------------------------------------------- expressions

func (x *Exec) evalTo(e ast.Expr, st *State, t types.Type) *Term {
	if tv, ok := x.fr.info.Types[e]; ok && tv.Value != nil && !isIface(t) {
		return x.constVal(tv.Value, t)
	}
	v := x.eval(e, st)
	return x.convAssign(v, x.typeOf(e), t)
}

func (x *Exec) convAssign(v *Term, from, to types.Type) *Term {
	if to == nil {
		return v
	}
	if isIface(to) && !isIface(from) {
		if b, ok := from.(*types.Basic); ok {
			switch b.Kind() {
			case types.UntypedNil:
				return anyNil()
			case types.UntypedBool, types.UntypedInt, types.UntypedFloat, types.UntypedString, types.UntypedRune:
				from = types.Default(from)
			}
		}
		return boxAny(v, from)
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroOf(to)
	}
	return v
}

func strTerm(s string) *Term {
	so := SeqSort("u8", "Int")
	if len(s) > 40 {
		return App(fmt.Sprintf("strlit_%x", hash(s)), so)
	}
	r := SEmpty(so)
	for i := 0; i < len(s); i++ {
		r = SBuild(r, NumI(int64(s[i])))
	}
	return r
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (x *Exec) constVal(v constant.Value, t types.Type) *Term {
	if isBoolT(t) {
		return BoolT(constant.BoolVal(v))
	}
	if isStringT(t) {
		return strTerm(constant.StringVal(v))
	}
	if w, ok := isFloat(t); ok {
		f, _ := constant.Float64Val(v)
		if w == 32 {
			f32, _ := constant.Float32Val(v)
			return NumI(int64(math.Float32bits(f32)))
		}
		return Num(new(big.Int).SetUint64(math.Float64bits(f)))
	}
	iv := constant.ToInt(v)
	if iv.Kind() == constant.Int {
		b, _ := new(big.Int).SetString(iv.ExactString(), 10)
		return Num(b)
	}
	return Fresh("const", sortOf(t))
}

func (x *Exec) eval(e ast.Expr, st *State) *Term {
	vs := x.evalMulti(e, st)
	if len(vs) == 0 {
		return NumI(0)
	}
	return vs[0]
}

func (x *Exec) evalMulti(e ast.Expr, st *State) []*Term {
	e = ast.Unparen(e)
	tv := x.fr.info.Types[e]
	if tv.Value != nil {
		return []*Term{x.constVal(tv.Value, tv.Type)}
	}
	one := func(t *Term) []*Term { return []*Term{t} }
	switch e := e.(type) {
	case *ast.Ident:
		if e.Name == "nil" && tv.IsNil() {
			if tv.Type != nil {
				if b, ok := tv.Type.(*types.Basic); ok && b.Kind() == types.UntypedNil {
					return one(NumI(0))
				}
				return one(zeroOf(tv.Type))
			}
			return one(NumI(0))
		}
		obj := x.fr.info.ObjectOf(e)
		if v := x.readVar(st, obj); v != nil {
			return one(v)
		}
		if pv, ok := obj.(*types.Var); ok {
			return one(x.globalVar(st, pv))
		}
		if f, ok := obj.(*types.Func); ok {
			return one(funcConst(f))
		}
		x.unsupported(st, e.Pos(), "identifier %s", e.Name)
		return one(withRange(Fresh(e.Name, sortOf(tv.Type)), tv.Type))
	case *ast.SelectorExpr:
		sel := x.fr.info.Selections[e]
		if sel == nil { // qualified identifier
			obj := x.fr.info.ObjectOf(e.Sel)
			if pv, ok := obj.(*types.Var); ok {
				return one(x.globalVar(st, pv))
			}
			x.unsupported(st, e.Pos(), "qualified identifier %s", e.Sel.Name)
			return one(Fresh("q", sortOf(tv.Type)))
		}
		if sel.Kind() != types.FieldVal {
			x.unsupported(st, e.Pos(), "method value")
			return one(Fresh("mv", "Int"))
		}
		return one(x.selExpr(e, sel, st))
	case *ast.StarExpr:
		p := x.eval(e.X, st)
		x.nonNil(st, p, e.Pos())
		return one(x.loadPtr(st, under(x.typeOf(e.X)).(*types.Pointer).Elem(), p))
	case *ast.UnaryExpr:
		return one(x.unary(e, st))
	case *ast.BinaryExpr:
		return one(x.binary(e, st))
	case *ast.CallExpr:
		return x.call(e, st)
	case *ast.IndexExpr:
		bt := x.typeOf(e.X)
		if m, ok := under(bt).(*types.Map); ok {
			b := x.eval(e.X, st)
			k := x.evalTo(e.Index, st, m.Key())
			_, _ = b, k
			v := withRange(Fresh("mapv", sortOf(m.Elem())), m.Elem())
			x.refFact(st, v, m.Elem())
			return []*Term{v, Fresh("mapok", "Bool")}
		}
		if p, ok := under(bt).(*types.Pointer); ok {
			_ = p
			x.unsupported(st, e.Pos(), "index through pointer")
			return one(withRange(Fresh("ix", sortOf(tv.Type)), tv.Type))
		}
		b := x.eval(e.X, st)
		i := x.eval(e.Index, st)
		x.oblige(st, And(Le(NumI(0), i), Lt(i, SLen(b))), "index", "", x.pos(e.Pos()))
		v := SIdx(b, i)
		x.refFact(st, v, tv.Type)
		return one(v)
	case *ast.SliceExpr:
		bt := x.typeOf(e.X)
		if isPtr(bt) {
			x.unsupported(st, e.Pos(), "slice of array pointer")
			return one(Fresh("sl", sortOf(tv.Type)))
		}
		b := x.eval(e.X, st)
		lo, hi := x.sliceBounds(e, b, st, true)
		if hi == SLen(b) {
			return one(SDrop(b, lo))
		}
		return one(SDrop(STake(b, hi), lo))
	case *ast.CompositeLit:
		return one(x.composite(e, st))
	case *ast.TypeAssertExpr:
		v := x.eval(e.X, st)
		t := x.typeOf(e.Type)
		ok := x.implTest(v, t)
		comma := false
		if tup, isT := tv.Type.(*types.Tuple); isT {
			_ = tup
			comma = true
		}
		if !comma {
			x.oblige(st, ok, "typeassert", "", x.pos(e.Pos()))
			if isIface(t) {
				return one(v)
			}
			return one(x.unboxVal(st, v, t))
		}
		if isIface(t) {
			return []*Term{Ite(ok, v, anyNil()), ok}
		}
		if isFalse(ok) {
			return []*Term{zeroOf(t), ok}
		}
		r := unboxAny(v, t)
		lo, _ := rangeOf(t)
		if (lo != nil || isPtr(t)) && strings.HasPrefix(r.op, "sel:") {
			c := withRange(Fresh("unbox", r.sort), t)
			st.assume(Implies(ok, Eq(c, r)))
			x.refFact(st, c, t)
			r = c
		}
		return []*Term{Ite(ok, r, zeroOf(t)), ok}
	case *ast.FuncLit:
		x.unsupported(st, e.Pos(), "function literal")
		return one(NumI(1))
	case *ast.BasicLit:
		return one(x.constVal(tv.Value, tv.Type))
	}
	x.unsupported(st, e.Pos(), "expression %T", e)
	return one(Fresh("e", sortOf(tv.Type)))
}

// constInit: the constant a package variable of basic type is initialized with, if nothing assigns to it
func (x *Exec) constInit(v *types.Var) (constant.Value, bool) {
	if _, ok := v.Type().Underlying().(*types.Basic); !ok {
		return nil, false
	}
	var val constant.Value
	for _, p := range x.prog.order {
		if p.types == nil || p.info == nil {
			continue
		}
		for _, f := range p.files {
			bad := false
			isV := func(e ast.Expr) bool {
				switch e := ast.Unparen(e).(type) {
				case *ast.Ident:
					return p.info.ObjectOf(e) == v
				case *ast.SelectorExpr:
					return p.info.ObjectOf(e.Sel) == v
				}
				return false
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ValueSpec:
					for i, id := range n.Names {
						if p.info.Defs[id] == v && len(n.Values) == len(n.Names) {
							val = p.info.Types[n.Values[i]].Value
						}
					}
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						bad = bad || isV(l)
					}
				case *ast.IncDecStmt:
					bad = bad || isV(n.X)
				}
				return !bad
			})
			if bad {
				return nil, false
			}
		}
	}
	return val, val != nil
}

// function constants: values of function type that name a declared function
var tagFuncs = map[int64]*types.Func{}

func funcConst(f *types.Func) *Term {
	h := fnv.New32a()
	h.Write([]byte(funcKey(f)))
	n := int64(h.Sum32()) + 1000
	tagFuncs[n] = f
	return NumI(n)
}

func constFunc(t *Term) *types.Func {
	if t.op != "num" || !t.num.IsInt64() {
		return nil
	}
	return tagFuncs[t.num.Int64()]
}

func globalMap(v *types.Var) string { return "GV_" + clean(pkgAlias(v.Pkg())+"."+v.Name()) }

// assignedVar: some function of the program assigns to the package variable
func (x *Exec) assignedVar(v *types.Var) bool {
	if r, ok := x.prog.assigned[v]; ok {
		return r
	}
	r := false
	for _, p := range x.prog.order {
		if p.types == nil || p.info == nil {
			continue
		}
		for _, f := range p.files {
			isV := func(e ast.Expr) bool {
				switch e := ast.Unparen(e).(type) {
				case *ast.Ident:
					return p.info.ObjectOf(e) == v
				case *ast.SelectorExpr:
					return p.info.ObjectOf(e.Sel) == v
				}
				return false
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						r = r || isV(l)
					}
				case *ast.IncDecStmt:
					r = r || isV(n.X)
				case *ast.RangeStmt:
					r = r || n.Key != nil && isV(n.Key) || n.Value != nil && isV(n.Value)
				}
				return !r
			})
		}
	}
	if x.prog.assigned == nil {
		x.prog.assigned = map[*types.Var]bool{}
	}
	x.prog.assigned[v] = r
	return r
}

func (x *Exec) globalVar(st *State, v *types.Var) *Term {
	if _, ok := x.globals[v]; !ok {
		if x.globals == nil {
			x.globals = map[*types.Var]constant.Value{}
		}
		x.globals[v], _ = x.constInit(v)
	}
	if x.assignedVar(v) && !isStructT(v.Type()) {
		t := x.hget(st, globalMap(v), mapSort(v.Type()), NumI(0))
		x.refFact(st, t, v.Type())
		return t
	}
	if c := x.globals[v]; c != nil {
		x.trusted["package variable "+pkgAlias(v.Pkg())+"."+v.Name()+" keeps its initial value"] = true
		return x.constVal(c, v.Type())
	}
	s := sortOf(v.Type())
	nm := "G_" + pkgAlias(v.Pkg()) + "." + v.Name()
	t := withRange(ConstT(clean(nm), s), v.Type())
	if types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
		// exported error variables (io.EOF, ...) are non-nil: trusted
		st.assume(Not(isCtorTest(t, "any_nil")))
	}
	if isPtr(v.Type()) {
		st.assume(P.mk("<=", "Bool", t, st.alloc))
		st.assume(P.mk("<=", "Bool", NumI(1), t))
	}
	return t
}

func (x *Exec) selExpr(e *ast.SelectorExpr, sel *types.Selection, st *State) *Term {
	idx := sel.Index()
	t := sel.Recv()
	if isPtr(t) || x.addressable(e.X) {
		if ref, n, ok := x.refPath(e.X, t, idx[:len(idx)-1], st); ok {
			f := n.Underlying().(*types.Struct).Field(idx[len(idx)-1])
			if !isModPkg(n.Obj().Pkg()) {
				x.unsupported(st, e.Pos(), "field %s of external struct", f.Name())
				return withRange(Fresh("xf", sortOf(f.Type())), f.Type())
			}
			return x.loadField(st, n, f, ref)
		}
	}
	v := x.eval(e.X, st)
	for k, i := range idx {
		if p, ok := under(t).(*types.Pointer); ok {
			x.nonNil(st, v, e.Pos())
			n, _, _ := structNamed(p.Elem())
			if n == nil || !isModPkg(n.Obj().Pkg()) {
				x.unsupported(st, e.Pos(), "field of external struct")
				return withRange(Fresh("xf", sortOf(x.typeOf(e))), x.typeOf(e))
			}
			f := n.Underlying().(*types.Struct).Field(i)
			v = x.loadField(st, n, f, v)
			t = f.Type()
			continue
		}
		n, s, ok := structNamed(t)
		if !ok {
			x.unsupported(st, e.Pos(), "field of external struct value")
			return withRange(Fresh("xf", sortOf(x.typeOf(e))), x.typeOf(e))
		}
		f := s.Field(i)
		v = selField(v, fieldSel(n, f.Name()), sortOf(f.Type()))
		if strings.HasPrefix(v.op, "sel:") {
			withRange(v, f.Type())
		}
		x.refFact(st, v, f.Type())
		t = f.Type()
		_ = k
	}
	return v
}

// addressable struct location represented in the heap?
func (x *Exec) addressable(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		return x.fr.boxed[x.fr.info.ObjectOf(e)]
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		sel := x.fr.info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		return isPtr(sel.Recv()) || x.addressable(e.X)
	}
	return false
}

func (x *Exec) sliceBounds(e *ast.SliceExpr, b *Term, st *State, check bool) (lo, hi *Term) {
	lo = NumI(0)
	hi = SLen(b)
	if e.Low != nil {
		lo = x.eval(e.Low, st)
	}
	if e.High != nil {
		hi = x.eval(e.High, st)
	}
	if e.Slice3 {
		x.unsupported(st, e.Pos(), "3-index slice")
	}
	if check {
		// capacity may exceed length; the verifier demands bounds within length
		x.oblige(st, And(Le(NumI(0), lo), Le(lo, hi), Le(hi, SLen(b))), "slice", "", x.pos(e.Pos()))
	}
	return
}

func (x *Exec) unary(e *ast.UnaryExpr, st *State) *Term {
	t := x.typeOf(e)
	switch e.Op {
	case token.NOT:
		return Not(x.eval(e.X, st))
	case token.SUB:
		v := x.eval(e.X, st)
		if b, s, ok := intInfo(t); ok {
			return Wrap(Neg(v), b, s)
		}
		return withRange(App("fneg_"+kindOf(t), "Int", v), t)
	case token.ADD:
		return x.eval(e.X, st)
	case token.XOR:
		v := x.eval(e.X, st)
		b, s, _ := intInfo(t)
		if s {
			return Wrap(Sub(NumI(-1), v), b, s)
		}
		_, hi := typeRange(b, false)
		return Sub(Num(hi), v)
	case token.AND:
		in := ast.Unparen(e.X)
		if cl, ok := in.(*ast.CompositeLit); ok {
			v := x.composite(cl, st)
			r := x.newRef(st)
			sv := x.con
			x.con = nil
			x.storePtr(st, x.typeOf(cl), r, v, e.Pos())
			x.con = sv
			return r
		}
		if r, ok := x.addrOf(in, st); ok {
			return r
		}
		if ft := x.typeOf(in); !isStructT(ft) {
			_, sel := in.(*ast.SelectorExpr)
			id, isId := in.(*ast.Ident)
			if isId {
				v, ok := x.fr.info.ObjectOf(id).(*types.Var)
				isId = ok && v.Parent() == v.Pkg().Scope()
			}
			if sel || isId {
				// a cell with the value of the field or package variable
				x.trusted["address of "+types.ExprString(in)+" in "+x.fr.fi.key+" taken as the address of a copy"] = true
				v := x.eval(in, st)
				r := x.newRef(st)
				sv := x.con
				x.con = nil
				x.storePtr(st, ft, r, v, e.Pos())
				x.con = sv
				return r
			}
		}
		x.unsupported(st, e.Pos(), "address of %T", in)
		return x.newRef(st)
	}
	x.unsupported(st, e.Pos(), "unary %s", e.Op)
	return withRange(Fresh("u", sortOf(t)), t)
}

func (x *Exec) composite(e *ast.CompositeLit, st *State) *Term {
	t := x.typeOf(e)
	switch u := under(t).(type) {
	case *types.Struct:
		n, s, ok := structNamed(t)
		if !ok {
			for _, el := range e.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					x.eval(kv.Value, st)
				}
			}
			if len(e.Elts) == 0 {
				return NumI(0)
			}
			return Fresh("xstruct", "Int")
		}
		z := zeroOf(t)
		vals := append([]*Term(nil), z.args...)
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				nm := kv.Key.(*ast.Ident).Name
				for j := 0; j < s.NumFields(); j++ {
					if s.Field(j).Name() == nm {
						vals[j] = x.evalTo(kv.Value, st, s.Field(j).Type())
					}
				}
			} else {
				vals[i] = x.evalTo(el, st, s.Field(i).Type())
			}
		}
		return MkCtor("mk_"+clean(typeName(n)), sortOf(t), vals...)
	case *types.Slice:
		r := SEmpty(sortOf(t))
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				x.unsupported(st, e.Pos(), "keyed slice literal")
				continue
			}
			r = SBuild(r, x.elemLit(el, st, u.Elem()))
		}
		return r
	case *types.Array:
		r := SEmpty(sortOf(t))
		k := int64(0)
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				x.unsupported(st, e.Pos(), "keyed array literal")
				continue
			}
			r = SBuild(r, x.elemLit(el, st, u.Elem()))
			k++
		}
		for ; k < u.Len() && k < 64; k++ {
			r = SBuild(r, zeroOf(u.Elem()))
		}
		return r
	case *types.Map:
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				x.eval(kv.Value, st)
			}
		}
		return x.newRef(st)
	}
	x.unsupported(st, e.Pos(), "composite literal")
	return Fresh("lit", sortOf(t))
}

func (x *Exec) elemLit(el ast.Expr, st *State, t types.Type) *Term {
	if cl, ok := el.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, ok := under(t).(*types.Pointer); ok {
			v := x.composite(cl, st)
			r := x.newRef(st)
			sv := x.con
			x.con = nil
			x.storePtr(st, p.Elem(), r, v, el.Pos())
			x.con = sv
			return r
		}
		return x.composite(cl, st)
	}
	return x.evalTo(el, st, t)
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (x *Exec) binary(e *ast.BinaryExpr, st *State) *Term {
	switch e.Op {
	case token.LAND, token.LOR:
		l := x.eval(e.X, st)
		if st.dead() {
			return False()
		}
		a, b := x.fork(st, l)
		run := a
		if e.Op == token.LOR {
			run = b
		}
		if run.dead() {
			return l
		}
		r := x.eval(e.Y, run)
		var m *State
		var vs []*Term
		if e.Op == token.LAND {
			m, vs = x.merge([]*State{a, b}, [][]*Term{{r}, {False()}})
		} else {
			m, vs = x.merge([]*State{a, b}, [][]*Term{{True()}, {r}})
		}
		*st = *m
		return vs[0]
	}
	xt, yt := x.typeOf(e.X), x.typeOf(e.Y)
	switch e.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if isUntypedNil(yt) || isUntypedNil(xt) {
			o, ot := e.X, xt
			if isUntypedNil(xt) {
				o, ot = e.Y, yt
			}
			v := x.eval(o, st)
			switch under(ot).(type) {
			case *types.Interface:
				r = isCtorTest(v, "any_nil")
			case *types.Slice:
				// nil and empty slices are not distinguished: the test may
				// be true only of an empty slice
				r = Fresh("isnil", "Bool")
				st.assume(Implies(r, Eq(SLen(v), NumI(0))))
			default:
				r = Eq(v, NumI(0))
			}
		} else {
			ct := xt
			if isIface(yt) || isBasicUntyped(xt) {
				ct = yt
			}
			if isIface(xt) {
				ct = xt
			}
			l := x.evalTo(e.X, st, ct)
			rr := x.evalTo(e.Y, st, ct)
			if w, ok := isFloat(ct); ok {
				r = floatEq(l, rr, w)
			} else {
				r = Eq(l, rr)
			}
		}
		if e.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	t := x.typeOf(e)
	opT := t
	if e.Op == token.LSS || e.Op == token.LEQ || e.Op == token.GTR || e.Op == token.GEQ {
		opT = xt
		if isBasicUntyped(xt) {
			opT = yt
		}
	}
	if e.Op == token.SHL || e.Op == token.SHR {
		l := x.evalTo(e.X, st, t)
		r := x.eval(e.Y, st)
		return x.binop(st, e.Op, l, r, t, yt, e.Y, e.Pos())
	}
	l := x.evalTo(e.X, st, opT)
	r := x.evalTo(e.Y, st, opT)
	return x.binop(st, e.Op, l, r, opT, yt, e.Y, e.Pos())
}

func isBasicUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

// floats are their IEEE 754 bits: sign and magnitude, magnitudes beyond that of infinity are no numbers
func floatMag(a *Term, w int) *Term {
	s := Num(pow2(w - 1))
	return Ite(Lt(a, s), a, Sub(a, s))
}

func floatNum(a *Term, w int) *Term {
	inf := new(big.Int).Lsh(big.NewInt(0x7ff), 52)
	if w == 32 {
		inf = big.NewInt(0xff << 23)
	}
	return Le(floatMag(a, w), Num(inf))
}

// numbers are in the order of their keys
func floatKey(a *Term, w int) *Term {
	s := Num(pow2(w - 1))
	return Ite(Lt(a, s), a, Sub(s, a))
}

func floatEq(a, b *Term, w int) *Term {
	return And(floatNum(a, w), floatNum(b, w), Eq(floatKey(a, w), floatKey(b, w)))
}

// order of strings, as the specification function strless says
func (x *Exec) strless(a, b *Term) *Term {
	if _, ok := x.sp.fns["strless"]; ok {
		return App("s_strless", "Bool", a, b)
	}
	return App("strlt", "Bool", a, b)
}

func (x *Exec) binop(st *State, op token.Token, l, r *Term, t, rt types.Type, re ast.Expr, pos token.Pos) *Term {
	if isStringT(t) {
		switch op {
		case token.ADD:
			return SAppend(l, r)
		case token.LSS:
			return x.strless(l, r)
		case token.GTR:
			return x.strless(r, l)
		case token.LEQ:
			return Not(x.strless(r, l))
		case token.GEQ:
			return Not(x.strless(l, r))
		}
	}
	if w, ok := isFloat(t); ok {
		k := fmt.Sprintf("%d", w)
		switch op {
		case token.LSS:
			return And(floatNum(l, w), floatNum(r, w), Lt(floatKey(l, w), floatKey(r, w)))
		case token.GTR:
			return And(floatNum(l, w), floatNum(r, w), Lt(floatKey(r, w), floatKey(l, w)))
		case token.LEQ:
			return And(floatNum(l, w), floatNum(r, w), Le(floatKey(l, w), floatKey(r, w)))
		case token.GEQ:
			return And(floatNum(l, w), floatNum(r, w), Le(floatKey(r, w), floatKey(l, w)))
		case token.ADD:
			return withRange(App("fadd_"+k, "Int", l, r), t)
		case token.SUB:
			return withRange(App("fsub_"+k, "Int", l, r), t)
		case token.MUL:
			return withRange(App("fmul_"+k, "Int", l, r), t)
		case token.QUO:
			return withRange(App("fdiv_"+k, "Int", l, r), t)
		}
	}
	bits, sg, ok := intInfo(t)
	if !ok {
		x.unsupported(st, pos, "operator %s on %s", op, t)
		return Fresh("op", sortOf(t))
	}
	switch op {
	case token.LSS:
		return Lt(l, r)
	case token.LEQ:
		return Le(l, r)
	case token.GTR:
		return Lt(r, l)
	case token.GEQ:
		return Le(r, l)
	case token.ADD:
		return Wrap(Add(l, r), bits, sg)
	case token.SUB:
		return Wrap(Sub(l, r), bits, sg)
	case token.MUL:
		return Wrap(Mul(l, r), bits, sg)
	case token.QUO:
		x.oblige(st, Not(Eq(r, NumI(0))), "divzero", "", x.pos(pos))
		return Wrap(truncDiv(l, r), bits, sg)
	case token.REM:
		x.oblige(st, Not(Eq(r, NumI(0))), "divzero", "", x.pos(pos))
		if l.lo != nil && l.lo.Sign() >= 0 && r.lo != nil && r.lo.Sign() > 0 {
			return Mod(l, r)
		}
		return Sub(l, Mul(truncDiv(l, r), r))
	case token.AND:
		return BitAnd(l, r)
	case token.OR:
		return BitOr(l, r)
	case token.XOR:
		return BitXor(l, r)
	case token.AND_NOT:
		_, hi := typeRange(bits, false)
		if r.op == "num" && r.num.Sign() >= 0 {
			return BitAnd(l, Num(new(big.Int).AndNot(hi, r.num)))
		}
		return BitAnd(l, Sub(Num(hi), r))
	case token.SHL, token.SHR:
		_, rs, _ := intInfo(rt)
		if rs && r.op != "num" {
			x.oblige(st, Le(NumI(0), r), "shift", "", x.pos(pos))
		}
		return x.shift(op, l, r, bits, sg)
	}
	x.unsupported(st, pos, "operator %s", op)
	return withRange(Fresh("op", "Int"), t)
}

func truncDiv(l, r *Term) *Term {
	if l.lo != nil && l.lo.Sign() >= 0 && r.lo != nil && r.lo.Sign() > 0 {
		return Div(l, r)
	}
	if r.op == "num" && r.num.Sign() > 0 {
		return Ite(Le(NumI(0), l), Div(l, r), Neg(Div(Neg(l), r)))
	}
	return Ite(Le(NumI(0), l), Div(l, r), Neg(Div(Neg(l), r)))
}

func (x *Exec) shift(op token.Token, l, r *Term, bits int, sg bool) *Term {
	if l.op == "num" && l.num.Sign() == 0 {
		return l
	}
	if r.op == "num" {
		if op == token.SHL {
			if r.num.Cmp(big.NewInt(int64(bits))) >= 0 {
				return NumI(0)
			}
			return Wrap(BitShl(l, r), bits, sg)
		}
		if r.num.Cmp(big.NewInt(int64(bits))) >= 0 {
			if !sg {
				return NumI(0)
			}
			return Ite(Lt(l, NumI(0)), NumI(-1), NumI(0))
		}
		return BitShr(l, r)
	}
	if bvMode {
		// shift amounts beyond the type's width give 0 (or the sign); the
		// amount is capped so that the wide word is never exceeded
		cap_ := NumI(int64(bits))
		if r.hi == nil || r.hi.Cmp(big.NewInt(int64(bits))) > 0 {
			r = Ite(Lt(cap_, r), cap_, r)
			r.lo, r.hi = big.NewInt(0), big.NewInt(int64(bits))
		}
		if op == token.SHL {
			return Wrap(BitShl(l, r), bits, sg)
		}
		return BitShr(l, r)
	}
	if op == token.SHL {
		t := BitShl(l, r)
		if l.lo != nil && l.lo.Sign() >= 0 {
			return Wrap(t, bits, sg)
		}
		return Wrap(t, bits, sg)
	}
	return BitShr(l, r)
}
