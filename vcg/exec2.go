package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"
)

// ---------------------------------------------------------------- loops

type havoc struct {
	vars  map[types.Object]bool
	gh    map[string]bool
	refs  map[string]map[*Term]bool // map -> invariant refs
	frs   map[string]bool           // map also written at fresh refs
	all   map[string]bool           // whole map
	alloc bool
}

func newHavoc() *havoc {
	return &havoc{vars: map[types.Object]bool{}, gh: map[string]bool{}, refs: map[string]map[*Term]bool{}, frs: map[string]bool{}, all: map[string]bool{}}
}

func (x *Exec) path() string {
	return strings.Join(x.stack, ">")
}

type loopCtx struct {
	ord  int
	spec *LoopSpec
	n    *Term // iteration counter
	pre  *State
	preN *Term
	seq  *Term // range operand
	node ast.Stmt
}

func (x *Exec) loopEnv(st *State, lc *loopCtx) *Env {
	e := x.bodyEnv(st)
	e.pre = x.bodyEnv(lc.pre)
	e.vars["$n"] = SV{st.ghosts["$n"].t, vtInt}
	if lc.seq != nil {
		e.vars["$s"] = SV{lc.seq, &VT{k: "seq", sort: lc.seq.sort, elem: &VT{k: "int", sort: seqElem(lc.seq.sort)}}}
	}
	return e
}

func (x *Exec) bodyEnv(st *State) *Env {
	e := &Env{x: x, st: st, vars: map[string]SV{}, pkg: x.fi.pkg, local: true}
	e.old = x.entryEnv()
	return e
}

func (x *Exec) entryEnv() *Env {
	e := &Env{x: x, st: x.old, vars: map[string]SV{}, pkg: x.fi.pkg}
	if x.refPkg != nil {
		e.pkg = x.refPkg
	}
	for k, v := range x.entryV {
		e.vars[k] = v
	}
	return e
}

func (x *Exec) loop(s ast.Stmt, st *State, label string) []Out {
	if st.dead() {
		return nil
	}
	x.loopd++
	defer func() { x.loopd-- }()
	key := loopKey{s, x.path()}
	ord, ok := x.loopOrd[key]
	if !ok {
		x.loopN++
		ord = x.loopN
		x.loopOrd[key] = ord
		if x.fi != nil {
			x.loopInfo = append(x.loopInfo, fmt.Sprintf("loop %d at %s", ord, x.pos(s.Pos())))
		}
	}
	lc := &loopCtx{ord: ord, node: s}
	if x.con != nil {
		lc.spec = x.con.loops[ord]
	}
	if lc.spec == nil {
		lc.spec = &LoopSpec{}
	}
	savedN, hadN := st.ghosts["$n"]
	outer := fmt.Sprintf("$n%d", ord)
	restore := func(s *State) {
		s.ghosts[outer] = s.ghosts["$n"]
		if hadN {
			s.ghosts["$n"] = savedN
		} else {
			delete(s.ghosts, "$n")
		}
	}
	// range operand
	var rs *ast.RangeStmt
	var fs *ast.ForStmt
	var L *Term
	switch v := s.(type) {
	case *ast.RangeStmt:
		rs = v
		t := x.typeOf(rs.X)
		switch u := under(t).(type) {
		case *types.Slice, *types.Array:
			lc.seq = x.eval(rs.X, st)
			L = SLen(lc.seq)
			x.lenFact(st, lc.seq)
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				L = x.eval(rs.X, st)
				L = Ite(Lt(L, NumI(0)), NumI(0), L)
			} else {
				lc.seq = x.eval(rs.X, st)
				x.unsupported(st, s.Pos(), "range over string")
				L = SLen(lc.seq)
			}
		case *types.Map:
			x.eval(rs.X, st)
			L = Fresh("maplen", "Int")
			st.assume(Le(NumI(0), L))
			st.assume(Le(L, Num(maxLen)))
		default:
			x.unsupported(st, s.Pos(), "range over %s", t)
			L = Fresh("rangelen", "Int")
			st.assume(Le(NumI(0), L))
			st.assume(Le(L, Num(maxLen)))
		}
	case *ast.ForStmt:
		fs = v
	}
	st.ghosts["$n"] = SV{NumI(0), vtInt}
	if rs != nil && rs.Tok == token.DEFINE && rs.Key != nil {
		if id, ok := rs.Key.(*ast.Ident); ok && id.Name != "_" {
			if o := x.fr.info.Defs[id]; o != nil && sortOf(o.Type()) == "Int" {
				x.declare(st, o, NumI(0))
			}
		}
	}
	x.runAt(st, fmt.Sprintf("beforeloop %d", ord), lc)
	lc.pre = st.clone()

	bind := func(b *State) { // range variables at the start of an iteration
		n := b.ghosts["$n"].t
		if rs == nil {
			return
		}
		var kt, vt *Term
		if lc.seq != nil {
			kt, vt = n, SIdx(lc.seq, n)
		} else if _, ok := under(x.typeOf(rs.X)).(*types.Basic); ok {
			kt = n
		} else if m, ok := under(x.typeOf(rs.X)).(*types.Map); ok {
			kt = withRange(Fresh("mk", sortOf(m.Key())), m.Key())
			vt = withRange(Fresh("mv", sortOf(m.Elem())), m.Elem())
			x.refFact(b, vt, m.Elem())
		}
		set := func(e ast.Expr, v *Term) {
			if e == nil || v == nil {
				return
			}
			if id, ok := e.(*ast.Ident); ok {
				if id.Name == "_" {
					return
				}
				if rs.Tok == token.DEFINE {
					o := x.fr.info.Defs[id]
					x.refFact(b, v, o.Type())
					x.declare(b, o, v)
					return
				}
			}
			x.assign(e, v, b)
		}
		set(rs.Key, kt)
		set(rs.Value, vt)
	}
	keySync := func(b *State) { // key variable visible at the loop head
		if rs != nil && rs.Tok == token.DEFINE && rs.Key != nil {
			if id, ok := rs.Key.(*ast.Ident); ok && id.Name != "_" {
				if o := x.fr.info.Defs[id]; o != nil && b.vars[o] != nil && !x.fr.boxed[o] && lc.seq != nil {
					b.vars[o] = b.ghosts["$n"].t
				}
			}
		}
	}
	cond := func(b *State) *Term {
		if rs != nil {
			return Lt(b.ghosts["$n"].t, L)
		}
		if fs.Cond == nil {
			return True()
		}
		return x.eval(fs.Cond, b)
	}
	body := func(b *State) []Out {
		bind(b)
		if !b.dead() {
			x.runAt(b, fmt.Sprintf("loopbegin %d", ord), lc)
		}
		var list []ast.Stmt
		if rs != nil {
			list = rs.Body.List
		} else {
			list = fs.Body.List
		}
		outs := x.block(list, b)
		var res []Out
		var nx []*State
		for _, o := range outs {
			if o.kind == oNorm || o.kind == oCont && (o.lbl == "" || o.lbl == label) {
				nx = append(nx, o.st)
			} else {
				if o.kind == oBreak && (o.lbl == "" || o.lbl == label) {
					x.runAt(o.st, fmt.Sprintf("step %d", ord), lc)
				}
				res = append(res, o)
			}
		}
		for _, n := range x.join(nx) {
			x.runAt(n, fmt.Sprintf("step %d", ord), lc)
			x.runAt(n, fmt.Sprintf("loopend %d", ord), lc)
			if fs != nil && fs.Post != nil {
				po := x.stmt(fs.Post, n, "")
				if len(po) != 1 {
					continue
				}
				n = po[0].st
			}
			n.ghosts["$n"] = SV{Add(n.ghosts["$n"].t, NumI(1)), vtInt}
			keySync(n)
			res = append(res, Out{st: n, kind: oNorm})
		}
		return res
	}
	finish := func(exits []*State, rest []Out) []Out {
		var outs []Out
		for _, e := range x.join(exits) {
			x.runAt(e, fmt.Sprintf("afterloop %d", ord), lc)
			restore(e)
			outs = append(outs, Out{st: e, kind: oNorm})
		}
		for _, o := range rest {
			restore(o.st)
			outs = append(outs, o)
		}
		return outs
	}
	isBrk := func(o Out) bool { return o.kind == oBreak && (o.lbl == "" || o.lbl == label) }

	// constant trip counts and explicit unrolling
	unroll := lc.spec.unroll
	if unroll == 0 && rs != nil && L.op == "num" && L.num.IsInt64() && L.num.Int64() <= 16 && len(lc.spec.inv) == 0 {
		unroll = int(L.num.Int64())
		if unroll == 0 {
			unroll = 1
		}
	}
	if unroll > 0 {
		cur := []*State{st}
		var exits []*State
		var rest []Out
		for k := 0; k <= unroll && len(cur) > 0; k++ {
			var next []*State
			for _, c := range cur {
				cc := cond(c)
				if c.dead() {
					continue
				}
				a, b := x.fork(c, cc)
				if !b.dead() {
					exits = append(exits, b)
				}
				if a.dead() {
					continue
				}
				if k == unroll {
					x.oblige(a, False(), "unwind", fmt.Sprintf("loop%d", ord), x.pos(s.Pos()))
					continue
				}
				for _, o := range body(a) {
					if o.kind == oNorm {
						next = append(next, o.st)
					} else if isBrk(o) {
						exits = append(exits, o.st)
					} else {
						rest = append(rest, o)
					}
				}
			}
			cur = x.join(next)
		}
		return finish(exits, rest)
	}

	lname := fmt.Sprintf("loop%d", ord)
	cands := x.candidates(st, lc)
	x.checkInv(st, lc, lname+" entry", s.Pos(), cands)

	// which locations change?
	h := newHavoc()
	for iter := 0; iter < 8; iter++ {
		mark := P.next
		s0 := st.clone()
		x.applyHavoc(s0, h, st)
		svw := x.writes
		x.writes = nil
		x.dry++
		keySync(s0)
		// invariants may be needed to see that code is reachable or not
		x.assumeInv(s0, lc, nil, mark)
		var ends []*State
		cc := cond(s0)
		if !s0.dead() {
			a, _ := x.fork(s0, cc)
			if !a.dead() {
				for _, o := range body(a) {
					if o.kind == oNorm {
						ends = append(ends, o.st)
					}
				}
			}
		}
		x.dry--
		ch := false
		for _, en := range ends {
			for o, v := range en.vars {
				if ov, ok := s0.vars[o]; ok && ov != v && !h.vars[o] {
					if _, inSt := st.vars[o]; inSt {
						h.vars[o] = true
						ch = true
					}
				}
			}
			for g, v := range en.ghosts {
				if ov, ok := s0.ghosts[g]; ok && ov.t != v.t && !h.gh[g] {
					h.gh[g] = true
					ch = true
				}
			}
			if en.alloc != s0.alloc && !h.alloc {
				h.alloc = true
				ch = true
			}
		}
		for _, w := range x.writes {
			x.mapT[w.mapn] = w.sort
			if h.all[w.mapn] {
				continue
			}
			if w.ref == nil {
				h.all[w.mapn] = true
				ch = true
				continue
			}
			if newConsts(w.ref, mark) || strings.Contains(w.ref.String(), "alloc!") && isAllocated(w.ref, s0.alloc) {
				if isAllocated(w.ref, s0.alloc) {
					if !h.frs[w.mapn] {
						h.frs[w.mapn] = true
						ch = true
					}
				} else {
					h.all[w.mapn] = true
					ch = true
				}
				continue
			}
			if h.refs[w.mapn] == nil {
				h.refs[w.mapn] = map[*Term]bool{}
			}
			if !h.refs[w.mapn][w.ref] {
				h.refs[w.mapn][w.ref] = true
				ch = true
			}
		}
		inner := x.writes
		x.writes = svw
		if x.dry > 0 {
			x.writes = append(x.writes, inner...)
		}
		if !ch {
			break
		}
		if iter == 7 {
			x.unsupported(st, s.Pos(), "loop havoc did not stabilise")
		}
	}
	hmark := P.next
	hs := st.clone()
	h.gh["$n"] = true
	x.applyHavoc(hs, h, st)
	n := hs.ghosts["$n"].t
	hs.assume(Le(NumI(0), n))
	if L != nil {
		hs.assume(Le(n, L))
	} else {
		hs.assume(Le(n, Num(pow2(62)))) // no loop runs 2^62 times
	}
	n.lo = big.NewInt(0)
	n.hi = pow2(62)
	keySync(hs)
	x.assumeInv(hs, lc, cands, hmark)
	head := hs.clone()
	cc := cond(hs)
	if hs.dead() {
		return nil
	}
	a, b := x.fork(hs, cc)
	var exits []*State
	var rest []Out
	if !b.dead() && !(fs != nil && fs.Cond == nil) {
		exits = append(exits, b)
	}
	if !a.dead() {
		for _, o := range body(a) {
			switch {
			case o.kind == oNorm:
				x.checkInv(o.st, lc, lname+" preserved", s.Pos(), cands)
				x.checkDecr(o.st, head, lc, s.Pos())
			case isBrk(o):
				exits = append(exits, o.st)
			default:
				rest = append(rest, o)
			}
		}
	}
	return finish(exits, rest)
}

// references produced by allocation after the given allocation mark
func isAllocated(ref, base *Term) bool {
	r := ref
	for strings.HasPrefix(r.op, "app:fld_") {
		r = r.args[0]
	}
	if r.op == "+" && r.args[1].op == "num" && r.args[1].num.Sign() > 0 {
		r = r.args[0]
		return r == base || strings.HasPrefix(r.op, "const:alloc!")
	}
	return strings.HasPrefix(r.op, "const:alloc!") && r != base
}

func newConsts(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if strings.HasPrefix(t.op, "const:") && t.id > mark {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (x *Exec) applyHavoc(st *State, h *havoc, entry *State) {
	for o := range h.vars {
		if x.anyBoxed(o) {
			continue
		}
		v := withRange(Fresh(o.Name(), sortOf(o.Type())), o.Type())
		x.seqFacts(st, v)
		st.vars[o] = v
		x.refFactAlloc(st, v, o.Type())
	}
	for g := range h.gh {
		sv := st.ghosts[g]
		if sv.ty == nil {
			continue
		}
		st.ghosts[g] = SV{Fresh("g_"+g, sv.ty.sort), sv.ty}
	}
	if h.alloc {
		al := Fresh("alloc", "Int")
		st.assume(Le(entry.alloc, al))
		st.alloc = al
	}
	for m, refs := range h.refs {
		if h.all[m] || h.frs[m] {
			continue
		}
		for _, r := range sortTerms(refs) {
			mp := x.hmap(st, m, x.mapT[m])
			v := Fresh("h_"+m, arrElem(mp.sort))
			if lo, hi := arrRange(mp.sort); lo != nil {
				v.lo, v.hi = lo, hi
			}
			x.seqFacts(st, v)
			st.heap[m] = Store(mp, r, v)
		}
	}
	for m := range h.frs {
		if h.all[m] {
			continue
		}
		mp := x.hmap(st, m, x.mapT[m])
		nm := Fresh("hm_"+m, mp.sort)
		rv := BVar("r", "Int")
		var conds []*Term
		conds = append(conds, Or(And(Le(NumI(0), rv), Le(rv, entry.alloc)), And(Lt(rv, NumI(0)), Le(NumI(0), App("fldinv", "Int", rv)), Le(App("fldinv", "Int", rv), entry.alloc))))
		for _, r := range sortTerms(h.refs[m]) {
			conds = append(conds, Not(Eq(rv, r)))
		}
		sel := P.mk("select", arrElem(nm.sort), nm, rv)
		st.assume(Forall([]*Term{rv}, Implies(And(conds...), Eq(sel, P.mk("select", arrElem(mp.sort), mp, rv))), []*Term{sel}))
		st.heap[m] = nm
	}
	for m := range h.all {
		st.heap[m] = Fresh("hm_"+m, x.mapT[m])
	}
}

func (x *Exec) anyBoxed(o types.Object) bool {
	for f := x.fr; f != nil; f = f.up {
		if f.boxed[o] {
			return true
		}
	}
	return false
}

func sortTerms(m map[*Term]bool) []*Term {
	var l []*Term
	for t := range m {
		l = append(l, t)
	}
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j-1].id > l[j].id; j-- {
			l[j-1], l[j] = l[j], l[j-1]
		}
	}
	return l
}

func (x *Exec) seqFacts(st *State, v *Term) {
	if isSeq(v.sort) {
		x.lenFact(st, v)
	}
}

// Go slices have at most 2^48 elements (address space)
func (x *Exec) lenFact(st *State, v *Term) {
	l := SLen(v)
	if l.op == "num" {
		return
	}
	if l.op == "seq.len" {
		if l.hi == nil {
			l.hi = maxLen
		}
	}
	st.assume(P.mk("<=", "Bool", l, Num(maxLen)))
}

func (x *Exec) refFactAlloc(st *State, v *Term, t types.Type) { x.refFact(st, v, t) }

func (x *Exec) checkInv(st *State, lc *loopCtx, what string, pos token.Pos, cands []cand) {
	if st.dead() {
		return
	}
	env := x.loopEnv(st, lc)
	for i, inv := range lc.spec.inv {
		lb := inv.label
		if lb == "" {
			lb = fmt.Sprintf("inv%d", i+1)
		}
		x.oblige(st, env.b(inv.e), "invariant", what+" "+lb, x.pos(pos))
	}
	if x.dry > 0 {
		return
	}
	for _, c := range cands {
		g := c.f(st)
		if g != nil && !isTrue(g) {
			x.emit(st, g, "candidate", what, x.pos(pos), c.id)
		}
	}
}

func (x *Exec) assumeInv(st *State, lc *loopCtx, cands []cand, mark int) {
	env := x.loopEnv(st, lc)
	for _, inv := range lc.spec.inv {
		t := env.b(inv.e)
		tighten(t, mark)
		st.assume(t)
	}
	for _, c := range cands {
		if g := c.f(st); g != nil {
			st.assume(g)
		}
	}
}

func (x *Exec) checkDecr(st, head *State, lc *loopCtx, pos token.Pos) {
	for _, d := range lc.spec.decr {
		h := x.loopEnv(head, lc)
		e := x.loopEnv(st, lc)
		a, b := h.i(d), e.i(d)
		x.oblige(st, And(Le(NumI(0), a), Lt(b, a)), "decreases", fmt.Sprintf("loop%d", lc.ord), x.pos(pos))
	}
}

type cand struct {
	id string
	f  func(st *State) *Term
}

// candidate invariants (kept only if the verifier proves them inductive)
func (x *Exec) candidates(st *State, lc *loopCtx) []cand {
	if x.noCands || x.bv {
		return nil
	}
	var out []cand
	addc := func(id string, f func(st *State) *Term) {
		id = fmt.Sprintf("%s/%d/%s", x.path(), lc.ord, id)
		if x.cands[id] {
			return
		}
		out = append(out, cand{id, f})
	}
	ent := lc.pre
	for o, v := range ent.vars {
		o, v := o, v
		if x.anyBoxed(o) {
			continue
		}
		if !x.assignedIn(lc.node, o) {
			continue
		}
		if _, _, ok := intInfo(o.Type()); ok {
			get := func(s *State) *Term { return s.vars[o] }
			addc(o.Name()+">=pre", func(s *State) *Term {
				if get(s) == nil {
					return nil
				}
				return Le(v, get(s))
			})
			addc(o.Name()+"<=pre", func(s *State) *Term {
				if get(s) == nil {
					return nil
				}
				return Le(get(s), v)
			})
			addc(o.Name()+"==pre+n", func(s *State) *Term {
				if get(s) == nil {
					return nil
				}
				return Eq(get(s), Add(v, s.ghosts["$n"].t))
			})
			addc(o.Name()+"==pre-n", func(s *State) *Term {
				if get(s) == nil {
					return nil
				}
				return Eq(get(s), Sub(v, s.ghosts["$n"].t))
			})
		}
	}
	// loop bound: i < e keeps i <= e
	if fs, ok := lc.node.(*ast.ForStmt); ok && fs.Cond != nil {
		if be, ok := fs.Cond.(*ast.BinaryExpr); ok && (be.Op == token.LSS || be.Op == token.GTR || be.Op == token.GEQ || be.Op == token.LEQ || be.Op == token.NEQ) {
			if _, _, isI := intInfo(x.typeOf(be.X)); isI && simpleExpr(be.X) && simpleExpr(be.Y) {
				fr := x.fr
				addc("bound", func(s *State) *Term {
					sv := x.fr
					x.fr = fr
					x.noObl++
					c := s.clone()
					l, r := x.eval(be.X, c), x.evalTo(be.Y, c, x.typeOf(be.X))
					x.noObl--
					x.fr = sv
					switch be.Op {
					case token.LSS, token.NEQ:
						return Le(l, r)
					case token.GTR:
						return Le(r, l)
					case token.GEQ:
						return Le(Sub(r, NumI(1)), l)
					default:
						return Le(l, Add(r, NumI(1)))
					}
				})
			}
		}
	}
	return out
}

func simpleExpr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, is := n.Fun.(*ast.Ident); !is || (id.Name != "len" && id.Name != "int" && id.Name != "uint") {
				ok = false
			}
		case *ast.IndexExpr, *ast.SliceExpr, *ast.TypeAssertExpr, *ast.StarExpr, *ast.FuncLit:
			ok = false
		}
		return ok
	})
	return ok
}

func (x *Exec) assignedIn(n ast.Node, o types.Object) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.AssignStmt:
			for _, l := range m.Lhs {
				if id, ok := l.(*ast.Ident); ok && x.fr.info.ObjectOf(id) == o {
					found = true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := m.X.(*ast.Ident); ok && x.fr.info.ObjectOf(id) == o {
				found = true
			}
		}
		return !found
	})
	return found
}

// ---------------------------------------------------------------- ghost code

func (x *Exec) runAt(st *State, where string, lc *loopCtx) {
	if x.con == nil {
		return
	}
	gs := x.con.ats[where]
	if len(gs) == 0 {
		return
	}
	env := x.bodyEnv(st)
	if lc != nil {
		env = x.loopEnv(st, lc)
	}
	x.ghost(gs, st, env)
}

// ghost code around a call; its arguments and results have names of their own
func (x *Exec) runAtVars(st *State, where string, vars map[string]SV) {
	gs := x.con.ats[where]
	if len(gs) == 0 || st.dead() {
		return
	}
	env := x.bodyEnv(st)
	for n, v := range vars {
		env.vars[n] = v
	}
	x.ghost(gs, st, env)
}

func (x *Exec) ghost(gs []*GStmt, st *State, env *Env) {
	for _, g := range gs {
		env.st = st
		switch g.op {
		case "assert":
			t := env.b(g.e)
			if len(g.then) > 0 {
				s2 := st.clone()
				e2 := *env
				e2.st = s2
				if g.e.op == "forall" {
					// for any values of the bound variables: the block, under what the body assumes
					n := &e2
					for _, v := range g.e.vars {
						ty := x.vtOfSpec(v.typ, env.pkg)
						c := Fresh("any."+v.name, ty.sort)
						if ty.gt != nil {
							s2.assume(rangeFact(c, ty.gt))
						}
						n = n.with(v.name, SV{c, ty})
					}
					body := g.e.args[0]
					if body.op == "bin:==>" {
						s2.assume(n.b(body.args[0]))
						body = body.args[1]
					}
					x.ghost(g.then, s2, n)
					x.oblige(s2, n.b(body), "assert", "", g.pos)
					st.assume(t)
					break
				}
				x.ghost(g.then, s2, &e2)
				x.oblige(s2, t, "assert", "", g.pos)
				st.assume(t)
			} else {
				x.oblige(st, t, "assert", "", g.pos)
			}
		case "assume":
			x.trusted["assume at "+g.pos] = true
			st.assume(env.b(g.e))
		case "reveal":
			// unfold one application
			st.assume(x.unfold(g.e, env))
		case "var":
			v := env.eval(g.e)
			if v.ty.k == "nil" {
				env.fail(g.e, "ghost var nil")
			}
			st.ghosts[g.name] = v
		case "set":
			v := env.eval(g.e)
			o, ok := st.ghosts[g.name]
			if !ok {
				env.fail(g.e, "unknown ghost %s", g.name)
			}
			if o.t.sort != v.t.sort {
				env.fail(g.e, "ghost %s sort", g.name)
			}
			st.ghosts[g.name] = SV{v.t, o.ty}
		case "if":
			c := env.b(g.e)
			a, b := x.fork(st, c)
			ea, eb := *env, *env
			ea.st, eb.st = a, b
			x.ghost(g.then, a, &ea)
			x.ghost(g.els, b, &eb)
			m, _ := x.merge([]*State{a, b}, nil)
			*st = *m
		case "call":
			x.lemmaCall(g, st, env)
		case "setfield":
			x.setGhostField(g, st, env)
		}
	}
}

func (x *Exec) setGhostField(g *GStmt, st *State, env *Env) {
	v := env.eval(g.args[0])
	gf := x.sp.gfields[g.name]
	if gf == nil {
		panic(specErr(g.pos + ": unknown ghost field " + g.name))
	}
	ref := v.t
	if v.ty.k == "any" {
		ref = anyRef(v.t)
	}
	val := env.eval(g.e)
	ty := x.vtOfSpec(gf.typ, x.pkgNamed(gf.pkg))
	x.frame(st, "GF_"+g.name, ref, token.NoPos)
	x.hset(st, "GF_"+g.name, ghostSort(ty), ref, val.t)
}

func (x *Exec) unfold(e *SExpr, env *Env) *Term {
	if e.op != "call" {
		env.fail(e, "reveal expects an application")
	}
	f := x.sp.fns[e.name]
	if f == nil || f.body == nil {
		env.fail(e, "reveal of %s", e.name)
	}
	fp := x.pkgNamed(f.pkg)
	n := &Env{x: x, vars: map[string]SV{}, pkg: fp, bound: env.bound}
	for i, p := range f.params {
		n.vars[p.name] = SV{env.eval(e.args[i]).t, x.vtOfSpec(p.typ, fp)}
	}
	return Eq(env.eval(e).t, n.eval(f.body).t)
}

func (x *Exec) lemmaCall(g *GStmt, st *State, env *Env) {
	l := x.sp.lemmas[g.name]
	if l == nil {
		panic(specErr(g.pos + ": unknown lemma " + g.name))
	}
	if len(g.args) != len(l.params) {
		panic(specErr(g.pos + ": lemma " + g.name + " arguments"))
	}
	fp := x.pkgNamed(l.pkg)
	n := &Env{x: x, vars: map[string]SV{}, pkg: fp}
	if l.heap {
		n.st = st
	}
	for i, p := range l.params {
		v := env.eval(g.args[i])
		ty := x.vtOfSpec(p.typ, fp)
		if v.t.sort != ty.sort {
			panic(specErr(g.pos + ": lemma " + g.name + " argument sort " + v.t.sort + " want " + ty.sort))
		}
		if ty.gt != nil && !isTrue(rangeFact(v.t, ty.gt)) {
			if v.t.lo == nil || v.t.hi == nil {
				x.oblige(st, rangeFact(v.t, ty.gt), "lemma-pre", l.name+" range", g.pos)
			} else {
				lo, hi := rangeOf(ty.gt)
				if v.t.lo.Cmp(lo) < 0 || v.t.hi.Cmp(hi) > 0 {
					x.oblige(st, rangeFact(v.t, ty.gt), "lemma-pre", l.name+" range", g.pos)
				}
			}
		}
		n.vars[p.name] = SV{v.t, ty}
	}
	if x.lemma != nil {
		if x.sp.order(l.name) > x.sp.order(x.lemma.name) {
			panic(specErr(g.pos + ": lemma " + g.name + " is declared later"))
		}
		if l == x.lemma {
			if len(l.decr) == 0 {
				panic(specErr(g.pos + ": recursive lemma without decreases"))
			}
			// the measure must decrease and stay non-negative
			me := &Env{x: x, st: n.st, vars: x.entryV, pkg: fp}
			m0 := me.i(l.decr[0])
			m1 := n.i(l.decr[0])
			x.oblige(st, And(Le(NumI(0), m0), Lt(m1, m0)), "decreases", l.name, g.pos)
		}
	}
	for _, r := range l.req {
		x.oblige(st, n.b(r.e), "lemma-pre", l.name, g.pos)
	}
	for _, r := range l.ens {
		st.assume(n.b(r.e))
	}
	x.used["lemma "+l.name] = true
}

func (sp *Specs) order(n string) int {
	for i, l := range sp.lemOrder {
		if l == n {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- calls

func (x *Exec) callee(c *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		if fn, ok := x.fr.info.ObjectOf(f).(*types.Func); ok {
			return fn
		}
	case *ast.SelectorExpr:
		if sel := x.fr.info.Selections[f]; sel != nil {
			if fn, ok := sel.Obj().(*types.Func); ok {
				return fn
			}
			return nil
		}
		if fn, ok := x.fr.info.ObjectOf(f.Sel).(*types.Func); ok {
			return fn
		}
	}
	return nil
}

func (x *Exec) call(c *ast.CallExpr, st *State) (rs []*Term) {
	ftv := x.fr.info.Types[c.Fun]
	if ftv.IsType() {
		return []*Term{x.conversion(c, st)}
	}
	if ftv.IsBuiltin() {
		return x.builtin(c, st)
	}
	fn := x.callee(c)
	if fn == nil {
		if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
			if f := constFunc(x.eval(id, st)); f != nil && f.Type().(*types.Signature).Recv() == nil {
				fn = f
			}
		}
	}
	rt := x.typeOf(c)
	var resT []types.Type
	switch t := rt.(type) {
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			resT = append(resT, t.At(i).Type())
		}
	default:
		if rt != nil {
			resT = []types.Type{rt}
		}
	}
	if fn == nil {
		for _, a := range c.Args {
			x.eval(a, st)
		}
		x.unsupported(st, c.Pos(), "call of function value")
		return x.freshResults(st, resT)
	}
	sig := fn.Type().(*types.Signature)
	key := funcKey(fn)
	var recv *Term
	var recvT types.Type
	if sig.Recv() != nil {
		se := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		sel := x.fr.info.Selections[se]
		recvT = sig.Recv().Type()
		var r *Term
		var ok bool
		if cn := x.sp.contracts[key]; cn != nil && cn.flags["byref"] && !isPtr(recvT) && isStructT(recvT) {
			// the contract speaks of the object the receiver is a copy of
			idx := sel.Index()
			if isPtr(sel.Recv()) && len(idx) == 1 {
				r, ok = x.eval(se.X, st), true
				x.nonNil(st, r, c.Pos())
			} else {
				r, _, ok = x.refPath(se.X, sel.Recv(), idx[:len(idx)-1], st)
			}
			recvT = types.NewPointer(recvT)
		} else {
			r, ok = x.recvVal(se, sel, sig, st)
		}
		if !ok {
			x.unsupported(st, c.Pos(), "receiver of %s", key)
			r = Fresh("recv", sortOf(recvT))
		}
		recv = r
		if isIface(recvT) {
			key = ifaceKey(sel, fn)
		}
	}
	if x.sp.ignore[key] {
		for _, a := range c.Args {
			x.eval(a, st)
		}
		return x.freshResults(st, resT)
	}
	// arguments
	var args []*Term
	var argT []types.Type
	var argE []ast.Expr
	np := sig.Params().Len()
	if len(c.Args) == 1 && np > 1 {
		vs := x.evalMulti(c.Args[0], st)
		tup := x.typeOf(c.Args[0]).(*types.Tuple)
		for i, v := range vs {
			args = append(args, x.convAssign(v, tup.At(i).Type(), sig.Params().At(i).Type()))
			argE = append(argE, nil)
			argT = append(argT, sig.Params().At(i).Type())
		}
	} else {
		for i := 0; i < np; i++ {
			pt := sig.Params().At(i).Type()
			if sig.Variadic() && i == np-1 && !c.Ellipsis.IsValid() {
				r := SEmpty(sortOf(pt))
				et := pt.(*types.Slice).Elem()
				for _, a := range c.Args[min(i, len(c.Args)):] {
					r = SBuild(r, x.evalTo(a, st, et))
				}
				args = append(args, r)
				argE = append(argE, nil)
				argT = append(argT, pt)
				continue
			}
			args = append(args, x.evalTo(c.Args[i], st, pt))
			argE = append(argE, c.Args[i])
			argT = append(argT, pt)
		}
	}
	if st.dead() {
		return x.freshResults(st, resT)
	}
	// dynamic dispatch with a statically known dynamic type
	if recv != nil && isIface(recvT) {
		if tgt, r := x.devirt(recv, fn.Name()); tgt != nil {
			fn, key, recv = tgt, funcKey(tgt), r
			sig = fn.Type().(*types.Signature)
			recvT = sig.Recv().Type()
			if !isPtr(recvT) && isStructT(recvT) {
				recv = x.loadPtr(st, recvT, recv)
			}
		}
	}
	if recv != nil && isIface(recvT) && x.con != nil && x.con.dispatch != nil {
		if n, ok := recvT.(*types.Named); ok {
			if tn, ok := x.con.dispatch[n.Obj().Pkg().Name()+"."+n.Obj().Name()]; ok {
				t := x.namedType(tn)
				x.oblige(st, anyIs(recv, t), "dispatch", tn, x.pos(c.Pos()))
				if tgt, r := x.devirt(boxAny(anyRef(recv), t), fn.Name()); tgt != nil {
					fn, key, recv = tgt, funcKey(tgt), r
					sig = fn.Type().(*types.Signature)
					recvT = sig.Recv().Type()
					if !isPtr(recvT) && isStructT(recvT) {
						recv = x.loadPtr(st, recvT, recv)
					}
				}
			}
		}
	}
	// the instance of a contract for a function argument
	for i, a := range args {
		if _, ok := under(argT[i]).(*types.Signature); ok {
			if f := constFunc(a); f != nil && x.sp.contracts[key+"@"+f.Name()] != nil {
				key += "@" + f.Name()
			}
		}
	}
	con := x.sp.contracts[key]
	if key == "math.Ceil" && con == nil {
		return []*Term{withRange(App("fceil_64", "Int", args[0]), resT[0])}
	}
	if x.con != nil && len(x.con.ats["before call "+fn.Name()])+len(x.con.ats["after call "+fn.Name()]) > 0 {
		vars := map[string]SV{}
		for i, a := range args {
			vars[fmt.Sprintf("arg%d", i)] = SV{a, vtOf(argT[i])}
		}
		if recv != nil {
			vars["argr"] = SV{recv, vtOf(recvT)}
		}
		x.runAtVars(st, "before call "+fn.Name(), vars)
		defer func() {
			for i, r := range rs {
				if i < len(resT) {
					vars[fmt.Sprintf("res%d", i)] = SV{r, vtOf(resT[i])}
				}
			}
			x.runAtVars(st, "after call "+fn.Name(), vars)
		}()
	}
	if con != nil && !con.flags["inline"] {
		return x.applyContract(con, fn, recv, recvT, args, argT, argE, resT, st, c.Pos())
	}
	fi := x.prog.funcs[key]
	if fi != nil {
		for _, s := range x.stack {
			if strings.HasPrefix(s, key+"@") {
				x.unsupported(st, c.Pos(), "recursive call of %s without contract", key)
				return x.freshResults(st, resT)
			}
		}
		if len(x.stack) > 12 {
			x.unsupported(st, c.Pos(), "inlining too deep at %s", key)
			return x.freshResults(st, resT)
		}
		return x.inline(fi, recv, args, resT, st, c, argE)
	}
	x.unsupported(st, c.Pos(), "no contract for %s", key)
	for m := range st.heap {
		st.heap[m] = Fresh("hm", st.heap[m].sort)
		if x.dry > 0 {
			x.writes = append(x.writes, Write{m, nil, st.heap[m].sort})
		}
	}
	return x.freshResults(st, resT)
}

// interface method key: the named interface through which it is called, or
// the one that declares it
func ifaceKey(sel *types.Selection, fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	if n, ok := types.Unalias(sig.Recv().Type()).(*types.Named); ok {
		pk := pkgAlias(n.Obj().Pkg())
		if pk == "" {
			return n.Obj().Name() + "." + fn.Name()
		}
		return pk + "." + n.Obj().Name() + "." + fn.Name()
	}
	return "?." + fn.Name()
}

// namedType: pointer to the type pkg.Name
func (x *Exec) namedType(n string) types.Type {
	i := strings.IndexByte(n, '.')
	if p := x.pkgNamed(n[:i]); p != nil {
		if o := p.types.Scope().Lookup(n[i+1:]); o != nil {
			return types.NewPointer(o.Type())
		}
	}
	panic(specErr("unknown type " + n))
}

func (x *Exec) devirt(recv *Term, name string) (*types.Func, *Term) {
	if !strings.HasPrefix(recv.op, "ctor:any_i") || recv.args[0].op != "num" {
		return nil, nil
	}
	tag := recv.args[0].num.Int64()
	t := x.tagType(int(tag))
	if t == nil {
		return nil, nil
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, x.fi.pkg.types, name)
	if obj == nil {
		// unexported method of another package
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				obj, _, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
			}
		}
	}
	if f, ok := obj.(*types.Func); ok {
		return f, recv.args[1]
	}
	return nil, nil
}

var tagTypes = map[string]types.Type{}

func (x *Exec) tagType(n int) types.Type {
	for s, k := range typeTags {
		if k == n {
			return tagTypes[s]
		}
	}
	return nil
}

func (x *Exec) recvVal(se *ast.SelectorExpr, sel *types.Selection, sig *types.Signature, st *State) (*Term, bool) {
	rt := sig.Recv().Type()
	idx := sel.Index()
	path := idx[:len(idx)-1]
	if isIface(rt) {
		// walk embedded fields
		if len(path) == 0 {
			v := x.eval(se.X, st)
			x.oblige(st, Not(isCtorTest(v, "any_nil")), "nil", "", x.pos(se.Pos()))
			return v, true
		}
		ref, n, ok := x.refPath(se.X, sel.Recv(), path[:len(path)-1], st)
		if !ok {
			return nil, false
		}
		f := n.Underlying().(*types.Struct).Field(path[len(path)-1])
		v := x.loadField(st, n, f, ref)
		x.oblige(st, Not(isCtorTest(v, "any_nil")), "nil", "", x.pos(se.Pos()))
		return v, true
	}
	if isPtr(rt) {
		ref, _, ok := x.refPath(se.X, sel.Recv(), path, st)
		if !ok && isPtr(sel.Recv()) && len(path) == 0 {
			r := x.eval(se.X, st)
			x.nonNil(st, r, se.Pos())
			return r, true
		}
		return ref, ok
	}
	// value receiver
	if isPtr(sel.Recv()) || len(path) > 0 || x.addressable(se.X) {
		if isStructT(rt) {
			if ref, _, ok := x.refPath(se.X, sel.Recv(), path, st); ok {
				return x.loadStruct(st, rt, ref), true
			}
		}
	}
	if len(path) == 0 {
		v := x.eval(se.X, st)
		if isPtr(sel.Recv()) {
			x.nonNil(st, v, se.Pos())
			v = x.loadPtr(st, rt, v)
		}
		return v, true
	}
	return nil, false
}

func (x *Exec) freshResults(st *State, ts []types.Type) []*Term {
	var out []*Term
	for _, t := range ts {
		v := withRange(Fresh("r", sortOf(t)), t)
		x.seqFacts(st, v)
		x.refFact(st, v, t)
		out = append(out, v)
	}
	return out
}

// ---- contracts at call sites

type loc struct {
	mapn, sort string
	ref        *Term
	all        string // prefix: all fields of a type
	cond       *Term  // nil: always
	whole      bool   // the field of every object
}

func (x *Exec) modLocs(m *SExpr, env *Env) []loc {
	switch m.op {
	case "when":
		c := env.b(m.args[1])
		if c.op == "false" {
			return nil
		}
		ls := x.modLocs(m.args[0], env)
		for i := range ls {
			if ls[i].cond != nil {
				ls[i].cond = And(c, ls[i].cond)
			} else {
				ls[i].cond = c
			}
		}
		return ls
	case "each":
		t := x.vtOfSpec(m.vars[0].typ, env.pkg)
		if t.gt != nil {
			gt := t.gt
			if p, ok := under(gt).(*types.Pointer); ok {
				gt = p.Elem()
			}
			if n, s, ok := structNamed(gt); ok {
				for i := 0; i < s.NumFields(); i++ {
					if f := s.Field(i); f.Name() == m.name && !isStructT(f.Type()) {
						return []loc{{mapn: fieldMap(n, f.Name()), sort: mapSort(f.Type()), whole: true}}
					}
				}
			}
		}
		if g, ok := x.sp.gfields[m.name]; ok {
			return []loc{{mapn: "GF_" + m.name, sort: ghostSort(x.vtOfSpec(g.typ, x.pkgNamed(g.pkg))), whole: true}}
		}
		env.fail(m, "modifies: no field %s", m.name)
	case "id":
		if p := env.pkg; p != nil {
			if v, ok := p.types.Scope().Lookup(m.name).(*types.Var); ok {
				return []loc{{mapn: globalMap(v), sort: mapSort(v.Type()), ref: NumI(0)}}
			}
		}
	case "locscall":
		s := x.sp.locsets[m.name]
		if len(s.params) != len(m.args) {
			env.fail(m, "wrong number of arguments of %s", m.name)
		}
		in := &Env{x: x, st: env.st, old: env.old, vars: map[string]SV{}, pkg: x.pkgNamed(s.pkg)}
		for i, a := range m.args {
			in.vars[s.params[i].name] = env.eval(a)
		}
		var out []loc
		for _, l := range s.locs {
			out = append(out, x.modLocs(l, in)...)
		}
		return out
	case "deref":
		v := env.eval(m.args[0])
		p, ok := under(v.ty.gt).(*types.Pointer)
		if !ok {
			env.fail(m, "modifies *p of non-pointer")
		}
		if n, s, ok := structNamed(p.Elem()); ok {
			return x.allFields(n, s, v.t)
		}
		if isStructT(p.Elem()) {
			return []loc{{mapn: "V_" + clean(p.Elem().String()), sort: "Arr_Int", ref: v.t}}
		}
		nm, so := x.cellMap(p.Elem())
		return []loc{{mapn: nm, sort: so, ref: v.t}}
	case "allfields":
		v := env.eval(m.args[0])
		t := v.ty.gt
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		n, s, ok := structNamed(t)
		if !ok {
			env.fail(m, "modifies .* of external type")
		}
		return x.allFields(n, s, v.t)
	case "sel":
		if id := m.args[0]; id.op == "id" {
			if _, isVar := env.vars[id.name]; !isVar {
				if p := x.pkgNamed(id.name); p != nil {
					if v, ok := p.types.Scope().Lookup(m.name).(*types.Var); ok {
						return []loc{{mapn: globalMap(v), sort: mapSort(v.Type()), ref: NumI(0)}}
					}
				}
			}
		}
		base := env.eval(m.args[0])
		if base.ty.gt != nil && (base.ty.k == "ref") {
			t := base.ty.gt
			if p, ok := under(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, s, ok := structNamed(t); ok {
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					if f.Name() == m.name {
						if isStructT(f.Type()) {
							sub := x.subref(env.st, n, f.Name(), base.t)
							if n2, s2, ok := structNamed(f.Type()); ok {
								return x.allFields(n2, s2, sub)
							}
							return []loc{{mapn: "V_" + clean(f.Type().String()), sort: "Arr_Int", ref: sub}}
						}
						return []loc{{mapn: fieldMap(n, f.Name()), sort: mapSort(f.Type()), ref: base.t}}
					}
				}
			}
		}
		if g, ok := x.sp.gfields[m.name]; ok {
			ref := base.t
			if base.ty.k == "any" {
				ref = anyRef(base.t)
			}
			return []loc{{mapn: "GF_" + m.name, sort: ghostSort(x.vtOfSpec(g.typ, x.pkgNamed(g.pkg))), ref: ref}}
		}
		env.fail(m, "modifies: no field %s", m.name)
	}
	env.fail(m, "modifies location %s", m.op)
	return nil
}

func (x *Exec) allFields(n *types.Named, s *types.Struct, ref *Term) []loc {
	var out []loc
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isStructT(f.Type()) {
			sub := x.subref(nil, n, f.Name(), ref)
			if n2, s2, ok := structNamed(f.Type()); ok {
				out = append(out, x.allFields(n2, s2, sub)...)
			} else {
				out = append(out, loc{mapn: "V_" + clean(f.Type().String()), sort: "Arr_Int", ref: sub})
			}
			continue
		}
		out = append(out, loc{mapn: fieldMap(n, f.Name()), sort: mapSort(f.Type()), ref: ref})
	}
	return out
}

func (x *Exec) applyContract(con *Contract, fn *types.Func, recv *Term, recvT types.Type, args []*Term, argT []types.Type, argE []ast.Expr, resT []types.Type, st *State, pos token.Pos) []*Term {
	x.used[con.key] = true
	pk := x.pkgNamed(con.pkg)
	vars := map[string]SV{}
	if recv != nil && con.recv != "" {
		vars[con.recv] = SV{recv, vtOf(recvT)}
	}
	for i, n := range con.params {
		if i < len(args) && n != "_" {
			vars[n] = SV{args[i], vtOf(argT[i])}
		}
	}
	if len(con.params) != len(args) {
		panic(specErr(fmt.Sprintf("%s: contract %s has %d parameters, function has %d", con.pos, con.key, len(con.params), len(args))))
	}
	pre := &Env{x: x, st: st, vars: vars, pkg: pk}
	for i, r := range con.req {
		lb := r.label
		if lb == "" {
			lb = fmt.Sprintf("%d", i+1)
		}
		x.oblige(st, pre.b(r.e), "pre", con.key+" "+lb, x.pos(pos))
		if st.dead() {
			return x.freshResults(st, resT)
		}
	}
	// representations behind ghost fields
	type grp struct {
		g   *Group
		env *Env
	}
	var grps []grp
	for _, m := range con.mods {
		if m.op != "sel" {
			continue
		}
		for _, g := range x.sp.groups {
			if g.field != m.name {
				continue
			}
			v := pre.eval(m.args[0])
			if v.ty.k != "any" || !strings.HasPrefix(v.t.op, "ctor:any_i") || v.t.args[0].op != "num" {
				continue
			}
			t := x.tagType(int(v.t.args[0].num.Int64()))
			if t == nil || !types.Identical(t, x.namedType(g.typ)) {
				continue
			}
			e := &Env{x: x, st: st, vars: map[string]SV{g.recv: {v.t.args[1], vtOf(t)}}, pkg: x.pkgNamed(g.pkg)}
			x.oblige(st, e.b(g.keeps), "rep", con.key+" "+g.typ, x.pos(pos))
			grps = append(grps, grp{g, e})
		}
	}
	old := st.clone()
	oldEnv := &Env{x: x, st: old, vars: vars, pkg: pk}
	// havoc the frame
	if con.modAll {
		for m := range x.mapT {
			if x.con != nil && !x.con.modAll && x.dry == 0 {
				x.oblige(st, False(), "frame", "everything", x.pos(pos))
			}
			st.heap[m] = Fresh("hm", x.mapT[m])
			if x.dry > 0 {
				x.writes = append(x.writes, Write{m, nil, x.mapT[m]})
			}
		}
	}
	if !con.flags["pure"] {
		al := Fresh("alloc", "Int")
		st.assume(Le(st.alloc, al))
		st.alloc = al
	}
	seen := map[string]bool{}
	var locs []loc
	for _, m := range con.mods {
		locs = append(locs, x.modLocs(m, oldEnv)...)
	}
	for _, g := range grps {
		e := *g.env
		e.st = old
		for _, m := range g.g.mods {
			locs = append(locs, x.modLocs(m, &e)...)
		}
	}
	{
		for _, l := range locs {
			if l.whole {
				x.mapT[l.mapn] = l.sort
				x.frameIf(st, l.cond, l.mapn, nil, pos)
				o := x.hmap(st, l.mapn, l.sort)
				st.heap[l.mapn] = Fresh("w_"+l.mapn, l.sort)
				if l.cond != nil {
					st.heap[l.mapn] = Ite(l.cond, st.heap[l.mapn], o)
				}
				if x.dry > 0 {
					x.writes = append(x.writes, Write{l.mapn, nil, l.sort})
				}
				continue
			}
			k := fmt.Sprintf("%s/%d", l.mapn, l.ref.id)
			if l.cond != nil {
				k += fmt.Sprintf("/%d", l.cond.id)
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			x.mapT[l.mapn] = l.sort
			x.frameIf(st, l.cond, l.mapn, l.ref, pos)
			v := Fresh("m_"+l.mapn, arrElem(l.sort))
			if lo, hi := arrRange(l.sort); lo != nil {
				v.lo, v.hi = lo, hi
			}
			x.seqFacts(st, v)
			if l.cond != nil {
				v = Ite(l.cond, v, x.hget(st, l.mapn, l.sort, l.ref))
			}
			x.hset(st, l.mapn, l.sort, l.ref, v)
		}
	}
	post := map[string]SV{}
	for k, v := range vars {
		post[k] = v
	}
	emark := P.next
	res := x.freshResults(st, resT)
	for i, r := range res {
		post[fmt.Sprintf("ret%d", i)] = SV{r, vtOf(resT[i])}
	}
	if len(res) > 0 {
		last := len(res) - 1
		if types.Identical(resT[last], types.Universe.Lookup("error").Type()) {
			post["err"] = SV{res[last], vtOf(resT[last])}
		}
	}
	type wb struct {
		e ast.Expr
		v *Term
	}
	var wbs []wb
	for i, n := range con.params {
		if con.inout[n] {
			v := Fresh(n, args[i].sort)
			x.seqFacts(st, v)
			st.assume(Eq(SLen(v), SLen(args[i])))
			post[n] = SV{v, vtOf(argT[i])}
			wbs = append(wbs, wb{argE[i], v})
			if x.outs == nil {
				x.outs = map[int]*Term{}
			}
			x.outs[i] = v
		}
	}
	pe := &Env{x: x, st: st, old: oldEnv, vars: post, pkg: pk}
	for _, r := range con.ens {
		t := pe.b(r.e)
		tighten(t, emark)
		st.assume(t)
	}
	for _, g := range grps {
		st.assume(g.env.b(g.g.keeps))
	}
	for _, w := range wbs {
		if w.e != nil {
			x.assign(w.e, w.v, st)
		}
	}
	return res
}

// ---- inlining

func (x *Exec) newFrame(fi *FuncInfo) *Frame {
	fr := &Frame{fi: fi, info: fi.pkg.info, up: x.fr, boxed: map[types.Object]bool{}, params: map[string]types.Object{}, scope: map[string]types.Object{}}
	x.findBoxed(fr, fi.decl.Body)
	sig := fi.obj.Type().(*types.Signature)
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		fr.resT = append(fr.resT, r.Type())
		if r.Name() != "" && r.Name() != "_" {
			fr.res = append(fr.res, r)
		} else {
			fr.res = append(fr.res, nil)
		}
	}
	return fr
}

func (x *Exec) findBoxed(fr *Frame, body ast.Node) {
	mark := func(e ast.Expr) {
		// only the root of a path of struct values
		for {
			switch v := ast.Unparen(e).(type) {
			case *ast.Ident:
				if o, ok := fr.info.ObjectOf(v).(*types.Var); ok && !o.IsField() {
					if !isPtr(o.Type()) {
						fr.boxed[o] = true
					}
				}
				return
			case *ast.SelectorExpr:
				if s := fr.info.Selections[v]; s == nil || isPtr(s.Recv()) {
					return
				}
				e = v.X
			default:
				return
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				mark(n.X)
			}
		case *ast.CallExpr:
			if se, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
				if sel := fr.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
					if f, ok := sel.Obj().(*types.Func); ok {
						rt := f.Type().(*types.Signature).Recv().Type()
						if isPtr(rt) && !isPtr(sel.Recv()) {
							mark(se.X)
						}
					}
				}
			}
		}
		return true
	})
}

func (x *Exec) inline(fi *FuncInfo, recv *Term, args []*Term, resT []types.Type, st *State, c *ast.CallExpr, argE []ast.Expr) []*Term {
	x.inlined[fi.key] = true
	fr := x.newFrame(fi)
	sv := x.fr
	x.fr = fr
	x.stack = append(x.stack, fmt.Sprintf("%s@%d", fi.key, c.Pos()))
	sig := fi.obj.Type().(*types.Signature)
	if sig.Recv() != nil && recv != nil {
		x.declare(st, sig.Recv(), recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		x.declare(st, p, args[i])
	}
	for _, r := range fr.res {
		if r != nil {
			x.declare(st, r, zeroOf(r.Type()))
		}
	}
	saveSplit, saveDefers, saveLoopd := x.split, st.defers, x.loopd
	st.defers, x.loopd = nil, 0
	outs := x.block(fi.decl.Body.List, st)
	x.split, x.loopd = saveSplit, saveLoopd
	var rets []*State
	var vals [][]*Term
	for _, o := range outs {
		if o.st.dead() {
			continue
		}
		switch o.kind {
		case oRet, oNorm:
			v := o.vals
			if o.kind == oNorm {
				x.runDefers(o.st)
				v = nil
				for _, r := range fr.res {
					if r != nil {
						v = append(v, x.readVar(o.st, r))
					}
				}
			}
			// slices passed by the caller and written by index in the callee
			o.st.defers = saveDefers
			rets = append(rets, o.st)
			vals = append(vals, v)
		}
	}
	x.fr = sv
	x.stack = x.stack[:len(x.stack)-1]
	st.defers = saveDefers
	if len(rets) == 0 {
		st.assume(False())
		return x.freshResults(st, resT)
	}
	// index writes to slice parameters are visible to the caller
	wr := writtenSliceParams(fi)
	nres := len(vals[0])
	for _, pi := range wr {
		p := sig.Params().At(pi)
		for k := range vals {
			vals[k] = append(vals[k], rets[k].vars[p])
		}
	}
	m, vs := x.merge(rets, vals)
	*st = *m
	for k, pi := range wr {
		if argE[pi] != nil && vs[nres+k] != args[pi] {
			x.assign(argE[pi], vs[nres+k], st)
		}
	}
	return vs[:nres]
}

// slice parameters that a function writes by index without re-slicing them
func writtenSliceParams(fi *FuncInfo) []int {
	sig := fi.obj.Type().(*types.Signature)
	info := fi.pkg.info
	var out []int
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if _, ok := under(p.Type()).(*types.Slice); !ok {
			continue
		}
		w := false
		ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
			if a, ok := n.(*ast.AssignStmt); ok {
				for _, l := range a.Lhs {
					if ix, ok := l.(*ast.IndexExpr); ok {
						if id, ok := ast.Unparen(ix.X).(*ast.Ident); ok && info.ObjectOf(id) == p {
							w = true
						}
					}
				}
			}
			return true
		})
		if w {
			out = append(out, i)
		}
	}
	return out
}

// ---- builtins and conversions

func (x *Exec) builtin(c *ast.CallExpr, st *State) []*Term {
	name := ""
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = f.Sel.Name
	}
	one := func(t *Term) []*Term { return []*Term{t} }
	switch name {
	case "len", "cap":
		t := x.typeOf(c.Args[0])
		if _, ok := under(t).(*types.Map); ok {
			x.eval(c.Args[0], st)
			v := withRange(Fresh("maplen", "Int"), types.Typ[types.Int])
			st.assume(Le(NumI(0), v))
			return one(v)
		}
		v := x.eval(c.Args[0], st)
		if isPtr(t) {
			x.unsupported(st, c.Pos(), "len of array pointer")
			return one(NumI(0))
		}
		x.lenFact(st, v)
		if name == "cap" {
			k := Fresh("cap", "Int")
			k.lo, k.hi = big.NewInt(0), maxLen
			st.assume(Le(SLen(v), k))
			return one(k)
		}
		return one(SLen(v))
	case "append":
		t := x.typeOf(c)
		base := x.evalTo(c.Args[0], st, t)
		et := under(t).(*types.Slice).Elem()
		if c.Ellipsis.IsValid() {
			return one(SAppend(base, x.eval(c.Args[1], st)))
		}
		for _, a := range c.Args[1:] {
			base = SBuild(base, x.evalTo(a, st, et))
		}
		return one(base)
	case "make":
		t := x.typeOf(c)
		switch u := under(t).(type) {
		case *types.Slice:
			n := x.eval(c.Args[1], st)
			x.oblige(st, Le(NumI(0), n), "make", "", x.pos(c.Pos()))
			if len(c.Args) > 2 {
				k := x.eval(c.Args[2], st)
				x.oblige(st, Le(n, k), "make", "", x.pos(c.Pos()))
			}
			return one(x.zeros(st, sortOf(t), n, u.Elem()))
		}
		for _, a := range c.Args[1:] {
			x.eval(a, st)
		}
		return one(x.newRef(st))
	case "new":
		t := x.typeOf(c).(*types.Pointer).Elem()
		r := x.newRef(st)
		sv := x.con
		x.con = nil
		x.storePtr(st, t, r, zeroOf(t), c.Pos())
		x.con = sv
		return one(r)
	case "copy":
		d := x.eval(c.Args[0], st)
		s := x.eval(c.Args[1], st)
		n := Ite(Le(SLen(d), SLen(s)), SLen(d), SLen(s))
		nv := SAppend(STake(s, n), SDrop(d, n))
		x.assign(c.Args[0], nv, st)
		return one(n)
	case "panic":
		x.eval(c.Args[0], st)
		x.oblige(st, False(), "panic", "", x.pos(c.Pos()))
		st.assume(False())
		return nil
	case "delete", "print", "println", "close":
		for _, a := range c.Args {
			x.eval(a, st)
		}
		return nil
	case "min", "max":
		t := x.typeOf(c)
		r := x.evalTo(c.Args[0], st, t)
		for _, a := range c.Args[1:] {
			v := x.evalTo(a, st, t)
			if name == "min" {
				r = Ite(Le(r, v), r, v)
			} else {
				r = Ite(Le(r, v), v, r)
			}
		}
		return one(r)
	}
	x.unsupported(st, c.Pos(), "builtin %s", name)
	return x.freshResults(st, []types.Type{x.typeOf(c)})
}

// zeros(n): sequence of n zero values
func (x *Exec) zeros(st *State, sort string, n *Term, et types.Type) *Term {
	z := zeroOf(et)
	if n.op == "num" && n.num.IsInt64() && n.num.Int64() <= 16 {
		r := SEmpty(sort)
		for i := int64(0); i < n.num.Int64(); i++ {
			r = SBuild(r, z)
		}
		return r
	}
	return zerosTerm(st, sort, n, z)
}

func zerosTerm(st *State, sort string, n, z *Term) *Term {
	t := App("zeros_"+sort[4:], sort, n)
	st.assume(Implies(Le(NumI(0), n), Eq(SLen(t), n)))
	i := BVar("i", "Int")
	ix := SIdx(t, i)
	st.assume(Forall([]*Term{i}, Implies(And(Le(NumI(0), i), Lt(i, n)), Eq(ix, z)), []*Term{ix}))
	return t
}

func (x *Exec) conversion(c *ast.CallExpr, st *State) *Term {
	to := x.typeOf(c)
	tv := x.fr.info.Types[c]
	if tv.Value != nil {
		return x.constVal(tv.Value, to)
	}
	from := x.typeOf(c.Args[0])
	v := x.eval(c.Args[0], st)
	if isUntypedNil(from) {
		return zeroOf(to)
	}
	if isIface(to) {
		return x.convAssign(v, from, to)
	}
	tb, ts, tok := intInfo(to)
	_, _, fok := intInfo(from)
	if tok && fok {
		return Wrap(v, tb, ts)
	}
	fw, ff := isFloat(from)
	tw, tf := isFloat(to)
	if fok && tf {
		return withRange(App(fmt.Sprintf("i2f_%d", tw), "Int", v), to)
	}
	if ff && tok {
		if r := ceilDiv(v, tb, ts); r != nil {
			return r
		}
		r := withRange(App(fmt.Sprintf("f2i_%d_%s", fw, kindOf(to)), "Int", v), to)
		return r
	}
	if ff && tf {
		if fw == tw {
			return v
		}
		return withRange(App(fmt.Sprintf("f2f_%d_%d", fw, tw), "Int", v), to)
	}
	if sortOf(to) == v.sort {
		return v
	}
	if isStringT(to) && fok {
		return App("runestr", "Seq_u8", v)
	}
	x.unsupported(st, c.Pos(), "conversion %s to %s", from, to)
	return withRange(Fresh("conv", sortOf(to)), to)
}

// ceilDiv: the integer part of Ceil(float64(n)/c) is exact when c is a power of
// two and n is small, because every step is exact in IEEE 754
func ceilDiv(v *Term, bits int, signed bool) *Term {
	if v.op != "app:fceil_64" || v.args[0].op != "app:fdiv_64" || v.args[0].args[0].op != "app:i2f_64" || v.args[0].args[1].op != "num" {
		return nil
	}
	n := v.args[0].args[0].args[0]
	c := math.Float64frombits(v.args[0].args[1].num.Uint64())
	if c < 1 || c > 1024 || c != math.Trunc(c) || int64(c)&(int64(c)-1) != 0 {
		return nil
	}
	if n.lo == nil || n.hi == nil || n.lo.Sign() < 0 || n.hi.BitLen() > 40 {
		return nil
	}
	k := int64(c)
	return Wrap(Div(Add(n, NumI(k-1)), NumI(k)), bits, signed)
}

// tighten records bounds of values that did not exist before mark; the bounds
// are facts wherever such a value occurs
func tighten(f *Term, mark int) {
	switch f.op {
	case "and":
		for _, a := range f.args {
			tighten(a, mark)
		}
	case "<=", "<", "=":
		a, b := f.args[0], f.args[1]
		if a.sort != "Int" {
			return
		}
		atom := func(t *Term) bool {
			if t.bound || t.id <= mark {
				return false
			}
			return strings.HasPrefix(t.op, "const:") || mark == 0 && (t.op == "select" || t.op == "seq.len" || strings.HasPrefix(t.op, "sel:"))
		}
		one := big.NewInt(0)
		if f.op == "<" {
			one = big.NewInt(1)
		}
		if (f.op != "=" || true) && b.op == "num" && atom(a) {
			v := new(big.Int).Sub(b.num, one)
			if a.hi == nil || a.hi.Cmp(v) > 0 {
				a.hi = v
			}
			if f.op == "=" && (a.lo == nil || a.lo.Cmp(v) < 0) {
				a.lo = v
			}
		}
		if a.op == "num" && atom(b) {
			v := new(big.Int).Add(a.num, one)
			if b.lo == nil || b.lo.Cmp(v) < 0 {
				b.lo = v
			}
			if f.op == "=" && (b.hi == nil || b.hi.Cmp(v) > 0) {
				b.hi = v
			}
		}
	}
}
