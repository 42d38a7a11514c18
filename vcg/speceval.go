package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

// ---- specification values

type VT struct {
	k    string // int bool seq any ref struct opq
	elem *VT
	gt   types.Type
	sort string
	kind string // machine kind for ints (u8..), "" mathematical
}

type SV struct {
	t  *Term
	ty *VT
}

var (
	vtInt  = &VT{k: "int", sort: "Int"}
	vtBool = &VT{k: "bool", sort: "Bool"}
)

func vtAny() *VT { return &VT{k: "any", sort: anySort()} }
func vtRef() *VT { return &VT{k: "ref", sort: "Int"} }

func vtOf(t types.Type) *VT {
	s := sortOf(t)
	switch {
	case s == "Bool":
		return vtBool
	case s == "Any":
		return &VT{k: "any", sort: s, gt: t}
	case isSeq(s):
		var e types.Type
		switch u := under(t).(type) {
		case *types.Slice:
			e = u.Elem()
		case *types.Array:
			e = u.Elem()
		default:
			e = types.Typ[types.Uint8]
		}
		return &VT{k: "seq", sort: s, elem: vtOf(e), gt: t}
	case strings.HasPrefix(s, "St_"):
		return &VT{k: "struct", sort: s, gt: t}
	}
	if _, _, ok := intInfo(t); ok {
		return &VT{k: "int", sort: "Int", kind: kindOf(t), gt: t}
	}
	if _, ok := isFloat(t); ok {
		return &VT{k: "int", sort: "Int", kind: kindOf(t), gt: t}
	}
	if isPtr(t) {
		return &VT{k: "ref", sort: "Int", gt: t}
	}
	return &VT{k: "opq", sort: "Int", gt: t}
}

var basicSpecTypes = map[string]types.Type{
	"bool": types.Typ[types.Bool], "byte": types.Typ[types.Uint8], "u8": types.Typ[types.Uint8], "u16": types.Typ[types.Uint16], "u32": types.Typ[types.Uint32], "u64": types.Typ[types.Uint64],
	"i8": types.Typ[types.Int8], "i16": types.Typ[types.Int16], "i32": types.Typ[types.Int32], "i64": types.Typ[types.Int64], "f32": types.Typ[types.Float32], "f64": types.Typ[types.Float64],
	"uint8": types.Typ[types.Uint8], "uint16": types.Typ[types.Uint16], "uint32": types.Typ[types.Uint32], "uint64": types.Typ[types.Uint64], "int64": types.Typ[types.Int64], "int32": types.Typ[types.Int32], "int16": types.Typ[types.Int16], "int8": types.Typ[types.Int8],
	"float32": types.Typ[types.Float32], "float64": types.Typ[types.Float64], "string": types.Typ[types.String], "goint": types.Typ[types.Int],
}

func (x *Exec) vtOfSpec(t *SType, pkg *Pkg) *VT {
	switch t.kind {
	case "slice":
		if t.elem.kind == "name" && t.elem.name == "int" {
			return vtOf(types.NewSlice(types.Typ[types.Int]))
		}
		e := x.vtOfSpec(t.elem, pkg)
		if e.gt != nil {
			return vtOf(types.NewSlice(e.gt))
		}
		k := e.kind
		if k == "" {
			k = e.k
		}
		return &VT{k: "seq", sort: SeqSort(k, e.sort), elem: e}
	case "ptr":
		gt := x.goType(t.elem, pkg)
		return vtOf(types.NewPointer(gt))
	}
	switch t.name {
	case "int":
		return vtInt
	case "any", "error":
		return vtAny()
	case "ref":
		return vtRef()
	}
	return vtOf(x.goType(t, pkg))
}

func (x *Exec) goType(t *SType, pkg *Pkg) types.Type {
	switch t.kind {
	case "slice":
		return types.NewSlice(x.goType(t.elem, pkg))
	case "ptr":
		return types.NewPointer(x.goType(t.elem, pkg))
	}
	if b, ok := basicSpecTypes[t.name]; ok {
		return b
	}
	if t.name == "int" {
		return types.Typ[types.Int]
	}
	if t.name == "error" {
		return types.Universe.Lookup("error").Type()
	}
	if t.name == "any" {
		return types.NewInterfaceType(nil, nil)
	}
	if i := strings.IndexByte(t.name, '.'); i >= 0 {
		pn, tn := t.name[:i], t.name[i+1:]
		for _, p := range x.prog.order {
			if p.name == pn {
				if o := p.types.Scope().Lookup(tn); o != nil {
					return o.Type()
				}
			}
			for _, im := range p.types.Imports() {
				if pkgAlias(im) == pn {
					if o := im.Scope().Lookup(tn); o != nil {
						return o.Type()
					}
				}
			}
		}
	} else if pkg != nil {
		if o := pkg.types.Scope().Lookup(t.name); o != nil {
			return o.Type()
		}
	}
	panic(specErr("unknown type " + t.name))
}

// ---- environments

type Env struct {
	x     *Exec
	st    *State
	old   *Env
	pre   *Env
	vars  map[string]SV
	pkg   *Pkg
	bound bool
	local bool // resolve names of Go locals
}

func (e *Env) with(name string, v SV) *Env {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+1)
	for k, w := range e.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

func (e *Env) fail(s *SExpr, f string, a ...any) {
	panic(specErr(fmt.Sprintf("%s: %s", s.pos, fmt.Sprintf(f, a...))))
}

func (e *Env) lookup(s *SExpr) SV {
	n := s.name
	if v, ok := e.vars[n]; ok {
		return v
	}
	if e.st != nil {
		if v, ok := e.st.ghosts[n]; ok {
			return v
		}
	}
	if e.local && e.st != nil {
		for f := e.x.fr; f != nil; f = f.up {
			if o, ok := f.params[n]; ok {
				if v := e.readVar(f, o); v != nil {
					return SV{v, vtOf(o.Type())}
				}
			}
			if o, ok := f.scope[n]; ok {
				if v := e.readVar(f, o); v != nil {
					return SV{v, vtOf(o.Type())}
				}
			}
		}
		// a renamed local: the only live local of the contract's wanted name
	}
	switch n {
	case "true":
		return SV{True(), vtBool}
	case "false":
		return SV{False(), vtBool}
	case "nil":
		return SV{NumI(0), &VT{k: "nil", sort: "Int"}}
	}
	if e.pkg != nil {
		if o := e.pkg.types.Scope().Lookup(n); o != nil {
			switch o := o.(type) {
			case *types.Const:
				return SV{constTerm(o.Val()), vtInt}
			case *types.Var:
				return SV{e.x.globalVar(e.stOrDummy(), o), vtOf(o.Type())}
			}
		}
	}
	e.fail(s, "unknown name %s", n)
	return SV{}
}

func (e *Env) stOrDummy() *State {
	if e.st != nil {
		return e.st
	}
	return &State{alloc: NumI(0)}
}

func (e *Env) readVar(f *Frame, o types.Object) *Term {
	v, ok := e.st.vars[o]
	if !ok {
		return nil
	}
	if f.boxed[o] {
		return e.loadPtr(o.Type(), v)
	}
	return v
}

func (e *Env) loadPtr(t types.Type, ref *Term) *Term {
	st := e.st
	if e.bound {
		st = st.clone()
	}
	return e.x.loadPtr(st, t, ref)
}

func constTerm(v constant.Value) *Term {
	switch v.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(v))
	case constant.String:
		return strTerm(constant.StringVal(v))
	}
	iv := constant.ToInt(v)
	b, ok := new(big.Int).SetString(iv.ExactString(), 10)
	if !ok {
		panic(specErr("constant " + v.String()))
	}
	return Num(b)
}

func (e *Env) b(s *SExpr) *Term {
	v := e.eval(s)
	if v.ty.k != "bool" {
		e.fail(s, "boolean expected, got %s", v.ty.k)
	}
	return v.t
}
func (e *Env) i(s *SExpr) *Term {
	v := e.eval(s)
	if v.t.sort != "Int" {
		e.fail(s, "integer expected, got %s", v.t.sort)
	}
	return v.t
}

func (e *Env) eval(s *SExpr) SV {
	switch s.op {
	case "id":
		return e.lookup(s)
	case "num":
		n, ok := new(big.Int).SetString(s.name, 0)
		if !ok {
			e.fail(s, "number %s", s.name)
		}
		return SV{Num(n), vtInt}
	case "str":
		return SV{strTerm(s.name), vtOf(types.Typ[types.String])}
	case "un:!":
		return SV{Not(e.b(s.args[0])), vtBool}
	case "un:-":
		return SV{Neg(e.i(s.args[0])), vtInt}
	case "ite":
		c := e.b(s.args[0])
		var a, b SV
		givenThat(c, func() { a = e.eval(s.args[1]) })
		givenThat(Not(c), func() { b = e.eval(s.args[2]) })
		a, b = e.unify(s, a, b)
		return SV{Ite(c, a.t, b.t), joinVT(a.ty, b.ty)}
	case "let":
		v := e.eval(s.args[0])
		return e.with(s.name, v).eval(s.args[1])
	case "chain":
		var cs []*Term
		for _, a := range s.args {
			cs = append(cs, e.b(a))
		}
		return SV{And(cs...), vtBool}
	case "seqlit":
		var vs []SV
		for _, a := range s.args {
			vs = append(vs, e.eval(a))
		}
		if len(vs) == 0 {
			e.fail(s, "empty sequence literal: use empty([]T)")
		}
		et := vs[0].ty
		var so *VT
		if et.k == "int" && (et.kind == "" || et.kind == "u8") {
			so = vtOf(types.NewSlice(types.Typ[types.Uint8]))
		} else if et.gt != nil {
			so = vtOf(types.NewSlice(et.gt))
		} else {
			e.fail(s, "sequence literal of %s", et.k)
		}
		r := SEmpty(so.sort)
		for _, v := range vs {
			r = SBuild(r, v.t)
		}
		return SV{r, so}
	case "forall", "exists":
		return e.quant(s)
	case "sel":
		return e.field(s)
	case "deref":
		v := e.eval(s.args[0])
		p, ok := under(v.ty.gt).(*types.Pointer)
		if !ok {
			e.fail(s, "dereference of non-pointer")
		}
		return SV{e.loadPtr(p.Elem(), v.t), vtOf(p.Elem())}
	case "idx":
		v := e.eval(s.args[0])
		if v.ty.k != "seq" {
			e.fail(s, "index of %s", v.ty.k)
		}
		return SV{SIdx(v.t, e.i(s.args[1])), v.ty.elem}
	case "slice":
		v := e.eval(s.args[0])
		if v.ty.k != "seq" {
			e.fail(s, "slice of %s", v.ty.k)
		}
		t := v.t
		if s.args[2] != nil {
			t = STake(t, e.i(s.args[2]))
		}
		if s.args[1] != nil {
			t = SDrop(t, e.i(s.args[1]))
		}
		return SV{t, v.ty}
	case "call":
		return e.call(s)
	}
	if strings.HasPrefix(s.op, "bin:") {
		return e.bin(s)
	}
	e.fail(s, "expression %s", s.op)
	return SV{}
}

func joinVT(a, b *VT) *VT {
	if a.k == "int" && b.k == "int" && a.kind != b.kind {
		return vtInt
	}
	return a
}

// nil adapts to the other operand
func (e *Env) unify(s *SExpr, a, b SV) (SV, SV) {
	if a.ty.k == "nil" && b.ty.k == "any" {
		a = SV{anyNil(), b.ty}
	}
	if b.ty.k == "nil" && a.ty.k == "any" {
		b = SV{anyNil(), a.ty}
	}
	if a.ty.k == "nil" && b.ty.k == "seq" {
		a = SV{SEmpty(b.ty.sort), b.ty}
	}
	if b.ty.k == "nil" && a.ty.k == "seq" {
		b = SV{SEmpty(a.ty.sort), a.ty}
	}
	if a.ty.k == "any" && b.ty.k == "ref" {
		b = SV{boxAny(b.t, b.ty.gt), a.ty}
	}
	if b.ty.k == "any" && a.ty.k == "ref" {
		a = SV{boxAny(a.t, a.ty.gt), b.ty}
	}
	if a.t.sort != b.t.sort {
		e.fail(s, "operands of different sorts %s %s", a.t.sort, b.t.sort)
	}
	return a, b
}

func (e *Env) bin(s *SExpr) SV {
	op := s.op[4:]
	switch op {
	case "&&":
		return SV{And(e.b(s.args[0]), e.b(s.args[1])), vtBool}
	case "||":
		return SV{Or(e.b(s.args[0]), e.b(s.args[1])), vtBool}
	case "==>":
		a := e.b(s.args[0])
		var b *Term
		givenThat(a, func() { b = e.b(s.args[1]) })
		return SV{Implies(a, b), vtBool}
	case "<==>":
		return SV{Eq(e.b(s.args[0]), e.b(s.args[1])), vtBool}
	case "==", "!=":
		a, b := e.unify2(s)
		r := Eq(a.t, b.t)
		if op == "!=" {
			r = Not(r)
		}
		return SV{r, vtBool}
	case "++":
		a, b := e.unify2(s)
		if a.ty.k != "seq" {
			e.fail(s, "++ of %s", a.ty.k)
		}
		return SV{SAppend(a.t, b.t), a.ty}
	}
	a, b := e.i(s.args[0]), e.i(s.args[1])
	switch op {
	case "+":
		return SV{Add(a, b), vtInt}
	case "-":
		return SV{Sub(a, b), vtInt}
	case "*":
		return SV{Mul(a, b), vtInt}
	case "/":
		return SV{Div(a, b), vtInt}
	case "%":
		return SV{Mod(a, b), vtInt}
	case "<":
		return SV{Lt(a, b), vtBool}
	case "<=":
		return SV{Le(a, b), vtBool}
	case ">":
		return SV{Lt(b, a), vtBool}
	case ">=":
		return SV{Le(b, a), vtBool}
	}
	e.fail(s, "operator %s", op)
	return SV{}
}

func (e *Env) unify2(s *SExpr) (SV, SV) {
	a := e.eval(s.args[0])
	b := e.eval(s.args[1])
	return e.unify(s, a, b)
}

func (e *Env) quant(s *SExpr) SV {
	n := e
	var vs []*Term
	var guards []*Term
	for _, v := range s.vars {
		ty := e.x.vtOfSpec(v.typ, e.pkg)
		bv := typedVar(v.name, ty)
		vs = append(vs, bv)
		if ty.gt != nil {
			guards = append(guards, rangeFact(bv, ty.gt))
		}
		n = n.with(v.name, SV{bv, ty})
	}
	n2 := *n
	n2.bound = true
	body := n2.b(s.args[0])
	var trs [][]*Term
	for _, tr := range s.trig {
		var l []*Term
		for _, t := range tr {
			l = append(l, n2.eval(t).t)
		}
		trs = append(trs, l)
	}
	if s.op == "forall" {
		return SV{Forall(vs, Implies(And(guards...), body), trs...), vtBool}
	}
	return SV{Exists(vs, And(And(guards...), body), trs...), vtBool}
}

func (e *Env) field(s *SExpr) SV {
	// package-qualified constant or variable
	if s.args[0].op == "id" {
		if _, isVar := e.vars[s.args[0].name]; !isVar && e.isPkg(s.args[0].name) {
			for _, p := range e.x.prog.order {
				if p.name == s.args[0].name {
					if o := p.types.Scope().Lookup(s.name); o != nil {
						return e.pkgObj(s, o)
					}
				}
			}
			for _, p := range e.x.prog.order {
				for _, im := range p.types.Imports() {
					if pkgAlias(im) == s.args[0].name {
						if o := im.Scope().Lookup(s.name); o != nil {
							return e.pkgObj(s, o)
						}
					}
				}
			}
			e.fail(s, "unknown %s.%s", s.args[0].name, s.name)
		}
	}
	v := e.eval(s.args[0])
	return e.fieldOf(s, v, s.name)
}

func (e *Env) pkgObj(s *SExpr, o types.Object) SV {
	switch o := o.(type) {
	case *types.Const:
		return SV{constTerm(o.Val()), vtInt}
	case *types.Var:
		return SV{e.x.globalVar(e.stOrDummy(), o), vtOf(o.Type())}
	}
	e.fail(s, "not a value: %s", o.Name())
	return SV{}
}

func (e *Env) isPkg(n string) bool {
	if e.local && e.st != nil {
		for f := e.x.fr; f != nil; f = f.up {
			if _, ok := f.scope[n]; ok {
				return false
			}
			if _, ok := f.params[n]; ok {
				return false
			}
		}
	}
	if e.st != nil {
		if _, ok := e.st.ghosts[n]; ok {
			return false
		}
	}
	for _, p := range e.x.prog.order {
		if p.name == n {
			return true
		}
		for _, im := range p.types.Imports() {
			if pkgAlias(im) == n {
				return true
			}
		}
	}
	return false
}

func (e *Env) fieldOf(s *SExpr, v SV, name string) SV {
	// Go fields (through embedding)
	if v.ty.gt != nil && (v.ty.k == "ref" || v.ty.k == "struct") {
		t := v.ty.gt
		ptr := false
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
			ptr = true
		}
		if n, st, ok := structNamed(t); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Name() == name {
					return e.goField(s, v, n, f, ptr)
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Embedded() && hasField(f.Type(), name) {
					return e.fieldOf(s, e.goField(s, v, n, f, ptr), name)
				}
			}
		}
	}
	if g, ok := e.x.sp.gfields[name]; ok {
		if e.st == nil {
			e.fail(s, "ghost field in a pure function")
		}
		var ref *Term
		switch v.ty.k {
		case "any":
			ref = anyRef(v.t)
		case "ref", "opq", "int":
			ref = v.t
		default:
			e.fail(s, "ghost field of %s", v.ty.k)
		}
		gt := e.x.vtOfSpec(g.typ, e.x.pkgNamed(g.pkg))
		return SV{e.x.hget(e.st, "GF_"+name, ghostSort(gt), ref), gt}
	}
	e.fail(s, "no field %s in %v", name, v.ty.gt)
	return SV{}
}

func ghostSort(gt *VT) string {
	if gt.gt != nil {
		return mapSort(gt.gt)
	}
	return "Arr_" + gt.sort
}

func hasField(t types.Type, name string) bool {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := under(t).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name || s.Field(i).Embedded() && hasField(s.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

func (e *Env) goField(s *SExpr, v SV, n *types.Named, f *types.Var, ptr bool) SV {
	if ptr {
		if e.st == nil {
			e.fail(s, "heap access in a pure function")
		}
		if isStructT(f.Type()) {
			// the sub-object's address behaves as a reference
			return SV{e.x.subref(e.st, n, f.Name(), v.t), vtOf(types.NewPointer(f.Type()))}
		}
		st := e.st
		if e.bound || v.t.bound {
			st = st.clone()
		}
		return SV{e.x.loadField(st, n, f, v.t), vtOf(f.Type())}
	}
	return SV{selField(v.t, fieldSel(n, f.Name()), sortOf(f.Type())), vtOf(f.Type())}
}

func (x *Exec) pkgNamed(n string) *Pkg {
	for _, p := range x.prog.order {
		if p.name == n {
			return p
		}
	}
	return nil
}

func (e *Env) call(s *SExpr) SV {
	switch s.name {
	case "len":
		v := e.eval(s.args[0])
		if v.ty.k != "seq" {
			e.fail(s, "len of %s", v.ty.k)
		}
		return SV{SLen(v.t), vtInt}
	case "old":
		if e.old == nil {
			e.fail(s, "old not available here")
		}
		n := e.sub(e.old)
		return n.eval(s.args[0])
	case "pre":
		if e.pre == nil {
			e.fail(s, "pre not available here")
		}
		return e.sub(e.pre).eval(s.args[0])
	case "min", "max":
		a, b := e.i(s.args[0]), e.i(s.args[1])
		if s.name == "min" {
			return SV{Ite(Le(a, b), a, b), vtInt}
		}
		return SV{Ite(Le(a, b), b, a), vtInt}
	case "abs":
		a := e.i(s.args[0])
		return SV{Ite(Le(NumI(0), a), a, Neg(a)), vtInt}
	case "pow2":
		a := e.i(s.args[0])
		if a.op == "num" && a.num.Sign() >= 0 && a.num.Cmp(big.NewInt(4096)) < 0 {
			return SV{Num(pow2(int(a.num.Int64()))), vtInt}
		}
		return SV{BitShl(NumI(1), a), vtInt}
	case "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "byte":
		t := basicSpecTypes[s.name]
		b, sg, _ := intInfo(t)
		return SV{Wrap(e.i(s.args[0]), b, sg), vtOf(t)}
	case "band":
		return SV{BitAnd(e.i(s.args[0]), e.i(s.args[1])), vtInt}
	case "bor":
		return SV{BitOr(e.i(s.args[0]), e.i(s.args[1])), vtInt}
	case "bxor":
		return SV{BitXor(e.i(s.args[0]), e.i(s.args[1])), vtInt}
	case "shl":
		return SV{BitShl(e.i(s.args[0]), e.i(s.args[1])), vtInt}
	case "shr":
		return SV{BitShr(e.i(s.args[0]), e.i(s.args[1])), vtInt}
	case "upd":
		v := e.eval(s.args[0])
		return SV{SUpd(v.t, e.i(s.args[1]), e.eval(s.args[2]).t), v.ty}
	case "snoc":
		v := e.eval(s.args[0])
		w := e.eval(s.args[1])
		return SV{SBuild(v.t, w.t), v.ty}
	case "is":
		v := e.eval(s.args[0])
		t := e.x.goType(s.vars[0].typ, e.pkg)
		if isIface(t) {
			return SV{e.x.implTest(v.t, t), vtBool}
		}
		return SV{anyIs(v.t, t), vtBool}
	case "as":
		v := e.eval(s.args[0])
		t := e.x.goType(s.vars[0].typ, e.pkg)
		return SV{unboxAny(v.t, t), vtOf(t)}
	case "box":
		v := e.eval(s.args[0])
		if v.ty.gt == nil {
			e.fail(s, "box of untyped value")
		}
		return SV{boxAny(v.t, v.ty.gt), vtAny()}
	case "empty":
		ty := e.x.vtOfSpec(s.vars[0].typ, e.pkg)
		return SV{SEmpty(ty.sort), ty}
	case "zero":
		t := e.x.goType(s.vars[0].typ, e.pkg)
		return SV{zeroOf(t), vtOf(t)}
	case "fresh":
		v := e.eval(s.args[0])
		if e.old == nil {
			e.fail(s, "fresh outside a postcondition")
		}
		r := v.t
		if v.ty.k == "any" {
			r = anyRef(r)
		}
		return SV{And(Lt(e.old.st.alloc, r), Le(r, e.st.alloc)), vtBool}
	case "alloced": // allocated before the call
		v := e.eval(s.args[0])
		r := v.t
		if v.ty.k == "any" {
			r = anyRef(r)
		}
		return SV{And(Le(NumI(0), r), Le(r, e.st.alloc)), vtBool}
	case "ref":
		v := e.eval(s.args[0])
		if v.ty.k == "any" {
			return SV{anyRef(v.t), vtRef()}
		}
		return SV{v.t, vtRef()}
	case "bits":
		v := e.eval(s.args[0])
		if v.ty.gt == nil || v.t.sort != "Int" {
			e.fail(s, "bits of %s", v.ty.k)
		}
		return SV{v.t, vtInt}
	case "widen": // bits of float64(f) for the bits of a float32
		return SV{withRange(App("f2f_32_64", "Int", e.eval(s.args[0]).t), types.Typ[types.Float64]), vtInt}
	case "eqseq":
		a, b := e.unify2(s)
		return SV{P.mk("seq.eq", "Bool", a.t, b.t), vtBool}
	case "unchanged":
		var cs []*Term
		for _, a := range s.args {
			cs = append(cs, Eq(e.eval(a).t, e.sub(e.old).eval(a).t))
		}
		return SV{And(cs...), vtBool}
	}
	f, ok := e.x.sp.fns[s.name]
	if !ok {
		e.fail(s, "unknown function %s", s.name)
	}
	if len(f.params) != len(s.args) {
		e.fail(s, "%s expects %d arguments", s.name, len(f.params))
	}
	fp := e.x.pkgNamed(f.pkg)
	var args []SV
	for i, a := range s.args {
		v := e.eval(a)
		pt := e.x.vtOfSpec(f.params[i].typ, fp)
		if v.ty.k == "nil" {
			if pt.k == "any" {
				v = SV{anyNil(), pt}
			} else if pt.k == "seq" {
				v = SV{SEmpty(pt.sort), pt}
			}
		}
		if v.t.sort != pt.sort {
			e.fail(s, "argument %d of %s: sort %s, want %s", i, s.name, v.t.sort, pt.sort)
		}
		if pt.gt == nil && v.ty.gt != nil && pt.k != "int" {
			pt = v.ty
		}
		args = append(args, SV{v.t, pt})
	}
	rt := e.x.vtOfSpec(f.ret, fp)
	if !f.opaque {
		n := &Env{x: e.x, st: e.st, old: e.old, pre: e.pre, vars: map[string]SV{}, pkg: fp, bound: e.bound}
		for i, p := range f.params {
			n.vars[p.name] = args[i]
		}
		r := n.eval(f.body)
		r, _ = n.unify(s, r, SV{r.t, r.ty})
		return SV{r.t, rt}
	}
	return SV{e.x.fnApp(f, args, rt), rt}
}

func (e *Env) sub(o *Env) *Env {
	n := *o
	// keep bound variables and lets of the current environment
	n.vars = make(map[string]SV)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range o.vars {
		n.vars[k] = v
	}
	n.bound = e.bound
	if n.old == nil {
		n.old = o
	}
	if n.pre == nil {
		n.pre = e.pre
	}
	return &n
}

func (x *Exec) fnApp(f *SpecFn, args []SV, rt *VT) *Term {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, a.t)
	}
	return App("s_"+f.name, rt.sort, ts...)
}

// definitional axiom of an opaque function
func (x *Exec) fnAxiom(f *SpecFn) []*Term {
	if f.body == nil {
		return nil
	}
	fp := x.pkgNamed(f.pkg)
	env := &Env{x: x, vars: map[string]SV{}, pkg: fp, bound: true}
	var vs, ts []*Term
	var guards []*Term
	for _, p := range f.params {
		ty := x.vtOfSpec(p.typ, fp)
		v := typedVar(p.name, ty)
		vs = append(vs, v)
		ts = append(ts, v)
		if ty.gt != nil {
			guards = append(guards, rangeFact(v, ty.gt))
		}
		env.vars[p.name] = SV{v, ty}
	}
	rt := x.vtOfSpec(f.ret, fp)
	app := App("s_"+f.name, rt.sort, ts...)
	body := env.eval(f.body)
	if body.t.sort != rt.sort {
		panic(specErr(f.pos + ": body of " + f.name + " has sort " + body.t.sort))
	}
	if len(vs) == 0 {
		return []*Term{Eq(app, body.t)}
	}
	if !f.rec {
		return []*Term{Forall(vs, Implies(And(guards...), Eq(app, body.t)), []*Term{app})}
	}
	// one unfolding per term: recursive calls are through a synonym
	app0 := App("s0_"+f.name, rt.sort, ts...)
	b0 := renameApp(body.t, "app:s_"+f.name, "s0_"+f.name)
	return []*Term{
		Forall(vs, Implies(And(guards...), Eq(app, b0)), []*Term{app}),
		Forall(vs, Eq(app, app0), []*Term{app}),
	}
}

func renameApp(t *Term, from, to string) *Term {
	cache := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		var r *Term
		switch {
		case t.op == from:
			r = App(to, t.sort, na...)
		case t.op == "forall" || t.op == "exists":
			var trs [][]*Term
			for _, tr := range t.trigs {
				var l []*Term
				for _, z := range tr {
					nz := f(z)
					if nz != z {
						ch = true
					}
					l = append(l, nz)
				}
				trs = append(trs, l)
			}
			r = t
			if ch {
				r = quant(t.op, t.vars, na[0], trs)
			}
		case ch:
			r = rebuild(t, na)
		default:
			r = t
		}
		cache[t] = r
		return r
	}
	return f(t)
}

// lemma statement as a quantified formula (for broadcast use)
func (x *Exec) lemmaAxiom(l *Lemma) *Term {
	fp := x.pkgNamed(l.pkg)
	env := &Env{x: x, vars: map[string]SV{}, pkg: fp, bound: true}
	var vs, guards []*Term
	for _, p := range l.params {
		ty := x.vtOfSpec(p.typ, fp)
		v := typedVar(p.name, ty)
		vs = append(vs, v)
		if ty.gt != nil {
			guards = append(guards, rangeFact(v, ty.gt))
		}
		env.vars[p.name] = SV{v, ty}
	}
	for _, r := range l.req {
		guards = append(guards, env.b(r.e))
	}
	var ens []*Term
	for _, r := range l.ens {
		ens = append(ens, env.b(r.e))
	}
	body := Implies(And(guards...), And(ens...))
	if len(vs) == 0 {
		return body
	}
	var trs [][]*Term
	for _, tr := range l.trigs {
		var ts []*Term
		for _, t := range tr {
			ts = append(ts, env.eval(t).t)
		}
		trs = append(trs, ts)
	}
	return Forall(vs, body, trs...)
}

// bound variable of a machine type: carries its interval, which every use of
// it guards with the range fact
func typedVar(name string, ty *VT) *Term {
	if ty.gt == nil {
		return BVar(name, ty.sort)
	}
	lo, hi := rangeOf(ty.gt)
	if lo == nil {
		return BVar(name, ty.sort)
	}
	v := BVar(name+"."+kindOf(ty.gt), ty.sort)
	v.lo, v.hi = lo, hi
	return v
}
