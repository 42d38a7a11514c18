package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- roots

// Unit is one thing to verify: a function against its contract, or a lemma.
type Unit struct {
	Name    string
	Kind    string // func, lemma, recfn
	Con     *Contract
	Fi      *FuncInfo
	Lem     *Lemma
	Fn      *SpecFn
	Obls    []*Obligation
	Used    []string
	Inlined []string
	Unsup   []string
	Assumed []string
	Loops   []string
	Err     string
	Pool    *Pool
	subrefs map[string]bool
	x       *Exec
}

func newExec(prog *Program, sp *Specs) *Exec {
	return &Exec{prog: prog, sp: sp, loopOrd: map[loopKey]int{}, reveal: map[string]bool{}, use: map[string]bool{}, names: map[string]int{}, used: map[string]bool{}, inlined: map[string]bool{}, cands: map[string]bool{}, candN: map[string]int{}, mapT: map[string]string{}, subrefs: map[string]bool{}, trusted: map[string]bool{}, limit: 1 << 30}
}

// a reference that existed when the function was entered
func entryRef(t *Term) bool {
	switch {
	case strings.HasPrefix(t.op, "const:p_"):
		return true
	case t.op == "select" && strings.HasPrefix(t.args[0].op, "const:H0_"):
		return true
	case strings.HasPrefix(t.op, "sel:"):
		return entryRef(t.args[0])
	case t.op == "seq.idx":
		return entryRef(t.args[0])
	}
	return false
}

func allocSplit(t *Term) (*Term, *big.Int) {
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "num" {
		return t.args[0], t.args[1].num
	}
	return t, big.NewInt(0)
}
func isAllocConst(t *Term) bool { return strings.HasPrefix(t.op, "const:alloc") }

func init() {
	distinctFn = func(a, b *Term) bool {
		if a == b {
			return false
		}
		fa, fb := strings.HasPrefix(a.op, "app:fld_"), strings.HasPrefix(b.op, "app:fld_")
		if fa && fb {
			if a.op != b.op {
				return true
			}
			return distinctRefs(a.args[0], b.args[0])
		}
		ba, ka := allocSplit(a)
		bb, kb := allocSplit(b)
		fresh := func(b *Term, k *big.Int) bool { return isAllocConst(b) && k.Sign() > 0 }
		if fa && (fresh(bb, kb) || entryRef(b)) || fb && (fresh(ba, ka) || entryRef(a)) {
			return true
		}
		if isAllocConst(ba) && isAllocConst(bb) {
			if ba == bb {
				return ka.Cmp(kb) != 0
			}
			return false
		}
		if fresh(ba, ka) && entryRef(b) || fresh(bb, kb) && entryRef(a) {
			return true
		}
		return false
	}
}

func (x *Exec) paramConst(st *State, name string, t types.Type) *Term {
	v := withRange(ConstT("p_"+clean(name), sortOf(t)), t)
	x.seqFacts(st, v)
	if isPtr(t) {
		st.assume(P.mk("<=", "Bool", NumI(0), v))
		st.assume(P.mk("<=", "Bool", v, st.alloc))
	}
	if isIface(t) {
		r := anyRef(v)
		st.assume(Implies(isCtorTest(v, "any_i"), P.mk("<=", "Bool", r, Num(pow2(64)))))
	}
	return v
}

func (x *Exec) run(f func()) (err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = string(e)
				return
			}
			if os.Getenv("VCG_PANIC") != "" {
				panic(r)
			}
			err = fmt.Sprint("outside the verifier's reach: ", r)
		}
	}()
	f()
	return
}

// generate the obligations of a function against its contract
func verifyFunc(prog *Program, sp *Specs, con *Contract, fi *FuncInfo, disabled map[string]bool) *Unit {
	P = NewPool()
	u := &Unit{Name: con.key, Kind: "func", Con: con, Fi: fi, Pool: P}
	x := newExec(prog, sp)
	u.x = x
	x.con, x.fi = con, fi
	x.cands = disabled
	x.bv = con.mode == "bv"
	bvMode = x.bv
	x.timeout = con.timeout
	x.split = con.flags["split"]
	x.noCands = con.flags["nocands"]
	for _, r := range con.reveal {
		x.reveal[r] = true
	}
	for _, r := range con.use {
		x.use[r] = true
	}
	u.Err = x.run(func() { x.rootFunc(u) })
	u.Obls = x.obls
	u.Used = sortedKeys(x.used)
	u.Inlined = sortedKeys(x.inlined)
	u.Unsup = x.unsup
	u.Assumed = sortedKeys(x.trusted)
	u.Loops = x.loopInfo
	u.subrefs = x.subrefs
	return u
}

func (x *Exec) rootFunc(u *Unit) {
	con, fi := x.con, x.fi
	fr := x.newFrame(fi)
	x.fr = fr
	x.stack = []string{fi.key + "@0"}
	alloc0 := ConstT("alloc0", "Int")
	alloc0.lo = big.NewInt(0)
	st := &State{vars: map[types.Object]*Term{}, ghosts: map[string]SV{}, heap: map[string]*Term{}, alloc: alloc0}
	st.assume(P.mk("<=", "Bool", NumI(0), alloc0))
	sig := fi.obj.Type().(*types.Signature)
	x.entryV = map[string]SV{}
	x.old = st
	if sig.Params().Len() != len(con.params) {
		panic(specErr(fmt.Sprintf("%s: contract %s has %d parameters, function has %d", con.pos, con.key, len(con.params), sig.Params().Len())))
	}
	type pv struct {
		o *types.Var
		v *Term
	}
	var pvs []pv
	if r := sig.Recv(); r != nil {
		v := x.paramConst(st, "recv", r.Type())
		if isPtr(r.Type()) {
			st.assume(P.mk("<", "Bool", NumI(0), v))
		}
		pvs = append(pvs, pv{r, v})
		if con.recv != "" {
			x.entryV[con.recv] = SV{v, vtOf(r.Type())}
			fr.params[con.recv] = r
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		v := x.paramConst(st, con.params[i], p.Type())
		if j := strings.IndexByte(con.key, '@'); j >= 0 {
			if _, ok := under(p.Type()).(*types.Signature); ok {
				f, ok := fi.pkg.types.Scope().Lookup(con.key[j+1:]).(*types.Func)
				if !ok {
					panic(specErr("no function " + con.key[j+1:]))
				}
				v = funcConst(f)
			}
		}
		pvs = append(pvs, pv{p, v})
		if con.params[i] != "_" {
			x.entryV[con.params[i]] = SV{v, vtOf(p.Type())}
			fr.params[con.params[i]] = p
		}
	}
	env := x.entryEnv()
	env.st = st
	for _, r := range con.req {
		t := env.b(r.e)
		tighten(t, 0)
		st.assume(t)
	}
	x.old = st.clone()
	x.vacuity(st, "requires")
	for _, p := range pvs {
		x.declare(st, p.o, p.v)
	}
	for _, r := range fr.res {
		if r != nil {
			x.declare(st, r, zeroOf(r.Type()))
		}
	}
	for _, g := range con.gvars {
		ty := x.vtOfSpec(g.typ, fi.pkg)
		var v *Term
		if g.init != nil {
			v = x.bodyEnv(st).eval(g.init).t
		} else {
			v = Fresh("g_"+g.name, ty.sort)
		}
		st.ghosts[g.name] = SV{v, ty}
	}
	x.runAt(st, "entry", nil)
	outs := x.block(fi.decl.Body.List, st)
	var rets []*State
	for _, o := range outs {
		if o.st.dead() {
			continue
		}
		vals := o.vals
		if o.kind == oNorm {
			x.runDefers(o.st)
			vals = nil
			for _, r := range fr.res {
				if r != nil {
					vals = append(vals, x.readVar(o.st, r))
				}
			}
		} else if o.kind != oRet {
			x.unsupported(o.st, fi.decl.Pos(), "break or continue outside a loop")
			continue
		}
		pos := x.pos(fi.decl.End())
		if o.pos.IsValid() {
			pos = x.pos(o.pos)
		}
		post := map[string]SV{}
		for k, v := range x.entryV {
			post[k] = v
		}
		for i, v := range vals {
			t := fr.resT[i]
			post[fmt.Sprintf("ret%d", i)] = SV{v, vtOf(t)}
			if i == len(vals)-1 && types.Identical(t, types.Universe.Lookup("error").Type()) {
				post["err"] = SV{v, vtOf(t)}
			}
		}
		if gs := con.ats["exit"]; len(gs) > 0 {
			e := x.bodyEnv(o.st)
			for k, v := range post {
				if _, isParam := x.entryV[k]; !isParam {
					e.vars[k] = v
				}
			}
			x.ghost(gs, o.st, e)
		}
		rets = append(rets, o.st.clone())
		pe := &Env{x: x, st: o.st, old: x.entryEnv(), vars: post, pkg: fi.pkg}
		for n := range con.inout {
			if ob, ok := fr.params[n]; ok {
				pe.vars[n] = SV{x.readVar(o.st, ob), post[n].ty}
			}
		}
		for i, r := range con.ens {
			lb := r.label
			if lb == "" {
				lb = fmt.Sprintf("%d", i+1)
			}
			x.oblige(o.st, pe.b(r.e), "ensures", lb, pos)
		}
	}
	if len(rets) > 0 && !x.bv {
		// some return must be reachable
		var ob *Obligation
		for _, r := range rets {
			o := &Obligation{Fn: fi.key, Name: "reachable", Kind: "vacuity", facts: r.factList(), goal: False(), pool: P, bv: x.bv, reveal: copyB(x.reveal), use: x.use, limit: x.limit, expectSat: true, pkg: fi.pkg.path}
			if ob == nil {
				ob = o
				x.obls = append(x.obls, o)
			} else {
				ob.alts = append(ob.alts, o)
			}
		}
	}
}

func (x *Exec) vacuity(st *State, what string) {
	o := &Obligation{Name: x.name("vacuity", what), Kind: "vacuity", facts: st.factList(), goal: False(), pool: P, bv: x.bv, reveal: copyB(x.reveal), use: x.use, limit: x.limit, expectSat: true}
	if x.fi != nil {
		o.Fn = x.fi.key
	}
	if x.lemma != nil {
		o.Fn = "lemma " + x.lemma.name
	}
	x.obls = append(x.obls, o)
}

func verifyLemma(prog *Program, sp *Specs, l *Lemma) *Unit {
	P = NewPool()
	u := &Unit{Name: "lemma " + l.name, Kind: "lemma", Lem: l, Pool: P}
	x := newExec(prog, sp)
	u.x = x
	x.lemma = l
	x.bv = l.mode == "bv"
	bvMode = x.bv
	x.timeout = l.timeout
	x.limit = sp.order(l.name)
	for _, r := range l.reveal {
		x.reveal[r] = true
	}
	for _, r := range l.use {
		x.use[r] = true
	}
	u.Err = x.run(func() {
		fp := x.pkgNamed(l.pkg)
		st := &State{vars: map[types.Object]*Term{}, ghosts: map[string]SV{}, heap: map[string]*Term{}, alloc: NumI(0)}
		x.old = st
		x.entryV = map[string]SV{}
		if l.heap {
			st.alloc = ConstT("alloc0", "Int")
			st.alloc.lo = big.NewInt(0)
			st.assume(P.mk("<=", "Bool", NumI(0), st.alloc))
		}
		for _, p := range l.params {
			ty := x.vtOfSpec(p.typ, fp)
			if l.heap && ty.gt != nil {
				x.entryV[p.name] = SV{x.paramConst(st, p.name, ty.gt), ty}
				continue
			}
			v := ConstT("p_"+clean(p.name), ty.sort)
			if ty.gt != nil {
				withRange(v, ty.gt)
			}
			x.seqFacts(st, v)
			x.entryV[p.name] = SV{v, ty}
		}
		env := &Env{x: x, st: st, vars: map[string]SV{}, pkg: fp}
		for k, v := range x.entryV {
			env.vars[k] = v
		}
		if !l.heap {
			env.st = nil
		}
		for _, r := range l.req {
			t := env.b(r.e)
			tighten(t, 0)
			st.assume(t)
		}
		if !x.bv {
			x.vacuity(st, "requires")
		}
		if len(l.body) > 0 {
			x.ghost(l.body, st, env)
		}
		env.st = st
		for i, e := range l.ens {
			lb := e.label
			if lb == "" {
				lb = fmt.Sprintf("%d", i+1)
			}
			x.oblige(st, env.b(e.e), "lemma", lb, e.pos)
		}
	})
	u.Obls = x.obls
	u.Used = sortedKeys(x.used)
	u.subrefs = x.subrefs
	u.Assumed = sortedKeys(x.trusted)
	return u
}

// verifyRefine: a method of a type keeps the contract of the interface method,
// given its own contract
func verifyRefine(prog *Program, sp *Specs, r *Refine, ic *Contract, method string) *Unit {
	P = NewPool()
	bvMode = false
	u := &Unit{Name: "refine " + r.typ + "." + method, Kind: "refine", Con: ic, Pool: P}
	x := newExec(prog, sp)
	u.x = x
	x.con = ic
	x.timeout = ic.timeout
	for _, v := range ic.reveal {
		x.reveal[v] = true
	}
	u.Err = x.run(func() {
		t := x.namedType(r.typ)
		n := t.(*types.Pointer).Elem().(*types.Named)
		obj, _, _ := types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), method)
		fn, ok := obj.(*types.Func)
		if !ok {
			panic(specErr("no method " + method + " of " + r.typ))
		}
		key := funcKey(fn)
		con := sp.contracts[key]
		fi := prog.funcs[key]
		if con == nil || fi == nil {
			panic(specErr("no contract of " + key))
		}
		x.fi = fi
		x.fr = x.newFrame(fi)
		u.Fi = fi
		sig := fn.Type().(*types.Signature)
		alloc0 := ConstT("alloc0", "Int")
		alloc0.lo = big.NewInt(0)
		st := &State{vars: map[types.Object]*Term{}, ghosts: map[string]SV{}, heap: map[string]*Term{}, alloc: alloc0}
		st.assume(P.mk("<=", "Bool", NumI(0), alloc0))
		x.entryV = map[string]SV{}
		x.old = st
		ref := x.paramConst(st, "recv", t)
		box := boxAny(ref, t)
		x.entryV[ic.recv] = SV{box, vtAny()}
		var args []*Term
		var argT []types.Type
		if sig.Params().Len() != len(ic.params) {
			panic(specErr(ic.pos + ": wrong number of parameters"))
		}
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			v := x.paramConst(st, ic.params[i], p.Type())
			args = append(args, v)
			argT = append(argT, p.Type())
			x.entryV[ic.params[i]] = SV{v, vtOf(p.Type())}
		}
		env := x.entryEnv()
		env.st = st
		env.pkg = x.pkgNamed(ic.pkg)
		x.refPkg = env.pkg
		for _, q := range ic.req {
			f := env.b(q.e)
			tighten(f, 0)
			st.assume(f)
		}
		// the representation behind a ghost field of the receiver
		var keeps []*SExpr
		genv := &Env{x: x, st: st, vars: map[string]SV{}, pkg: env.pkg}
		for _, m := range ic.mods {
			for _, g := range sp.groups {
				if m.op == "sel" && g.field == m.name && types.Identical(t, x.namedType(g.typ)) && m.args[0].op == "id" && m.args[0].name == ic.recv {
					genv.vars[g.recv] = SV{ref, vtOf(t)}
					genv.pkg = x.pkgNamed(g.pkg)
					st.assume(genv.b(g.keeps))
					keeps = append(keeps, g.keeps)
					for _, q := range g.mods {
						x.extra = append(x.extra, x.modLocs(q, genv)...)
					}
				}
			}
		}
		x.old = st.clone()
		x.vacuity(st, "requires")
		pos := fi.decl.Pos()
		x.oblige(st, P.mk("<", "Bool", NumI(0), ref), "nil", "receiver", x.pos(pos))
		recv, recvT := ref, sig.Recv().Type()
		if !isPtr(recvT) {
			recv = x.loadPtr(st, recvT, ref)
		}
		var resT []types.Type
		for i := 0; i < sig.Results().Len(); i++ {
			resT = append(resT, sig.Results().At(i).Type())
		}
		x.runAt(st, "entry", nil)
		x.outs = nil
		res := x.applyContract(con, fn, recv, recvT, args, argT, make([]ast.Expr, len(args)), resT, st, pos)
		post := map[string]SV{}
		for k, v := range x.entryV {
			post[k] = v
		}
		for i, v := range x.outs {
			if !ic.inout[ic.params[i]] {
				panic(specErr(ic.pos + ": " + ic.params[i] + " is written"))
			}
			post[ic.params[i]] = SV{v, vtOf(argT[i])}
		}
		for i, v := range res {
			post[fmt.Sprintf("ret%d", i)] = SV{v, vtOf(resT[i])}
			if i == len(res)-1 && types.Identical(resT[i], types.Universe.Lookup("error").Type()) {
				post["err"] = SV{v, vtOf(resT[i])}
			}
		}
		if gs := ic.ats["exit"]; len(gs) > 0 {
			e := x.entryEnv()
			e.st, e.old = st, x.entryEnv()
			for k, v := range post {
				e.vars[k] = v
			}
			x.ghost(gs, st, e)
		}
		oe := x.entryEnv()
		oe.pkg = x.refPkg
		pe := &Env{x: x, st: st, old: oe, vars: post, pkg: x.refPkg}
		for i, q := range ic.ens {
			lb := q.label
			if lb == "" {
				lb = fmt.Sprintf("%d", i+1)
			}
			x.oblige(st, pe.b(q.e), "ensures", lb, x.pos(pos))
		}
		for _, k := range keeps {
			x.oblige(st, genv.b(k), "rep", r.typ, x.pos(pos))
		}
	})
	u.Obls = x.obls
	u.Used = sortedKeys(x.used)
	u.Unsup = x.unsup
	u.subrefs = x.subrefs
	u.Assumed = sortedKeys(x.trusted)
	return u
}

// the units that justify the contract of an interface method, and whether
// every implementation in the repository is among them
func (sp *Specs) refinements(prog *Program, key string) (units []string, missing []string) {
	i := strings.LastIndexByte(key, '.')
	iface, m := key[:i], key[i+1:]
	listed := map[string]bool{}
	for _, r := range sp.refines {
		if r.iface == iface {
			units = append(units, "refine "+r.typ+"."+m)
			listed[r.typ] = true
			for _, e := range r.except {
				listed[e] = true
			}
		}
	}
	if len(units) == 0 {
		return
	}
	j := strings.IndexByte(iface, '.')
	var cands []*types.Package
	for _, p := range prog.order {
		cands = append(cands, p.types)
	}
	for _, p := range prog.all {
		cands = append(cands, p)
	}
	for _, p := range cands {
		if pkgAlias(p) != iface[:j] {
			continue
		}
		o := p.Scope().Lookup(iface[j+1:])
		if o == nil {
			continue
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for _, q := range prog.order {
			for _, n := range q.types.Scope().Names() {
				tn, ok := q.types.Scope().Lookup(n).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				if k := pkgAlias(q.types) + "." + n; types.Implements(types.NewPointer(tn.Type()), it) && !listed[k] {
					missing = append(missing, k)
				}
			}
		}
	}
	return
}

// well-foundedness of a recursive specification function
func verifyRec(prog *Program, sp *Specs, f *SpecFn) *Unit {
	P = NewPool()
	bvMode = false
	u := &Unit{Name: "fn " + f.name, Kind: "recfn", Fn: f, Pool: P}
	x := newExec(prog, sp)
	u.x = x
	x.lemma = &Lemma{name: f.name, pkg: f.pkg}
	x.limit = -1
	u.Err = x.run(func() {
		if f.decr == nil {
			panic(specErr(f.pos + ": recursive function " + f.name + " needs a decreases clause"))
		}
		fp := x.pkgNamed(f.pkg)
		st := &State{vars: map[types.Object]*Term{}, ghosts: map[string]SV{}, heap: map[string]*Term{}, alloc: NumI(0)}
		x.old = st
		env := &Env{x: x, st: st, vars: map[string]SV{}, pkg: fp}
		for _, p := range f.params {
			ty := x.vtOfSpec(p.typ, fp)
			v := ConstT("p_"+clean(p.name), ty.sort)
			if ty.gt != nil {
				withRange(v, ty.gt)
			}
			x.seqFacts(st, v)
			env.vars[p.name] = SV{v, ty}
		}
		m0 := env.i(f.decr)
		var walk func(s *SExpr, e *Env, cond *Term)
		walk = func(s *SExpr, e *Env, cond *Term) {
			if s == nil {
				return
			}
			switch {
			case s.op == "ite":
				walk(s.args[0], e, cond)
				c := e.b(s.args[0])
				walk(s.args[1], e, And(cond, c))
				walk(s.args[2], e, And(cond, Not(c)))
				return
			case s.op == "bin:&&" || s.op == "bin:==>":
				walk(s.args[0], e, cond)
				walk(s.args[1], e, And(cond, e.b(s.args[0])))
				return
			case s.op == "bin:||":
				walk(s.args[0], e, cond)
				walk(s.args[1], e, And(cond, Not(e.b(s.args[0]))))
				return
			case s.op == "let":
				walk(s.args[0], e, cond)
				walk(s.args[1], e.with(s.name, e.eval(s.args[0])), cond)
				return
			case s.op == "forall" || s.op == "exists":
				n := e
				for _, v := range s.vars {
					ty := x.vtOfSpec(v.typ, fp)
					n = n.with(v.name, SV{Fresh("q_"+v.name, ty.sort), ty})
				}
				walk(s.args[0], n, cond)
				return
			case s.op == "call" && s.name == f.name:
				for _, a := range s.args {
					walk(a, e, cond)
				}
				n := &Env{x: x, st: st, vars: map[string]SV{}, pkg: fp}
				for i, p := range f.params {
					n.vars[p.name] = SV{e.eval(s.args[i]).t, x.vtOfSpec(p.typ, fp)}
				}
				s2 := st.clone()
				s2.assume(cond)
				x.oblige(s2, And(Le(NumI(0), m0), Lt(n.i(f.decr), m0)), "decreases", f.name, s.pos)
				return
			}
			for _, a := range s.args {
				walk(a, e, cond)
			}
		}
		walk(f.body, env, True())
	})
	u.Obls = x.obls
	return u
}

// ---------------------------------------------------------------- background theory of one obligation

func apps(t *Term, seen map[*Term]bool, out map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if strings.HasPrefix(t.op, "app:") {
		out[t.op[4:]] = true
	}
	if strings.HasPrefix(t.op, "bit.") {
		out[t.op] = true
	}
	for _, a := range t.args {
		apps(a, seen, out)
	}
	for _, tr := range t.trigs {
		for _, y := range tr {
			apps(y, seen, out)
		}
	}
}

func specFnsIn(s *SExpr, sp *Specs, out map[string]bool, seen map[string]bool) {
	if s == nil {
		return
	}
	if s.op == "call" {
		if f := sp.fns[s.name]; f != nil {
			if f.opaque {
				out[s.name] = true
			} else if !seen[s.name] {
				seen[s.name] = true
				specFnsIn(f.body, sp, out, seen)
			}
		}
	}
	for _, a := range s.args {
		specFnsIn(a, sp, out, seen)
	}
	for _, tr := range s.trig {
		for _, t := range tr {
			specFnsIn(t, sp, out, seen)
		}
	}
}

func (u *Unit) background(o *Obligation) []*Term {
	x := u.x
	P = o.pool
	bvMode = o.bv
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	for _, f := range o.facts {
		apps(f, seen, syms)
	}
	apps(o.goal, seen, syms)
	var out []*Term
	addT := func(ts ...*Term) {
		for _, t := range ts {
			apps(t, seen, syms)
			out = append(out, t)
		}
	}
	doneF := map[string]bool{}
	doneL := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, n := range sortedKeys(x.sp.fns) {
			f := x.sp.fns[n]
			if doneF[n] || !f.opaque || f.body == nil || !o.reveal[n] {
				continue
			}
			if syms["s_"+n] {
				doneF[n] = true
				addT(x.fnAxiom(f)...)
				ch = true
			}
		}
		if o.bv {
			continue
		}
		for i, n := range x.sp.lemOrder {
			l := x.sp.lemmas[n]
			if doneL[n] || i >= o.limit {
				continue
			}
			if !l.auto && !o.use[n] {
				continue
			}
			if o.use["no_"+n] {
				continue
			}
			// relevance: the symbols of some trigger occur
			rel := false
			if len(l.trigs) == 0 {
				fs := map[string]bool{}
				for _, e := range append(append([]Clause{}, l.req...), l.ens...) {
					specFnsIn(e.e, x.sp, fs, map[string]bool{})
				}
				rel = len(fs) == 0 || o.use[n]
				for f := range fs {
					if syms["s_"+f] {
						rel = true
					}
				}
			}
			for _, tr := range l.trigs {
				fs := map[string]bool{}
				for _, e := range tr {
					specFnsIn(e, x.sp, fs, map[string]bool{})
				}
				all := true
				for f := range fs {
					if !syms["s_"+f] {
						all = false
					}
				}
				if all {
					rel = true
				}
			}
			if !rel {
				continue
			}
			doneL[n] = true
			addT(x.lemmaAxiom(l))
			if u.x.used != nil {
				u.x.used["lemma "+n] = true
			}
			ch = true
		}
	}
	out = append(out, subrefAxioms(u.subrefs)...)
	return out
}

// number of terms printed is bounded by relevance of facts
func (u *Unit) script(o *Obligation) (string, []string) {
	bg := u.background(o)
	P = o.pool
	bvMode = o.bv
	bvW = 80
	s, errs := Script(o.facts, o.goal, bg, false)
	if o.bv && len(errs) > 0 {
		bvW = 144
		s, errs = Script(o.facts, o.goal, bg, false)
		bvW = 80
	}
	return s, errs
}

// the same obligation with fewer hypotheses
func (u *Unit) sliced(o *Obligation, tol float64, rounds int) string {
	bg := u.background(o)
	P = o.pool
	bvMode = o.bv
	fs := sliceFacts(o.facts, o.goal, tol, rounds)
	if os.Getenv("VCG_SLICE") != "" {
		println(o.Name, len(o.facts), len(fs))
	}
	s, _ := Script(fs, o.goal, bg, false)
	return s
}

func (sp *Specs) unitsFor(prog *Program, prop string) []string {
	var out []string
	has := func(l []string) bool {
		for _, p := range l {
			if p == prop {
				return true
			}
		}
		return false
	}
	for k, c := range sp.contracts {
		if !c.extern && has(c.props) {
			out = append(out, k)
		}
		if c.extern && has(c.props) {
			us, _ := sp.refinements(prog, k)
			out = append(out, us...)
		}
	}
	for k, l := range sp.lemmas {
		if !l.axiom && has(l.props) {
			out = append(out, "lemma "+k)
		}
	}
	sort.Strings(out)
	return out
}
