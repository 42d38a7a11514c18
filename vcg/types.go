package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

// ---- mapping of Go types to logical sorts

func isModPkg(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modPath)
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

// intInfo returns bit width and signedness of an integer type.
func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return
}

func isFloat(t types.Type) (int, bool) {
	if b, ok := under(t).(*types.Basic); ok {
		switch b.Kind() {
		case types.Float32:
			return 32, true
		case types.Float64, types.UntypedFloat:
			return 64, true
		}
	}
	return 0, false
}

func isBoolT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }
func isPtr(t types.Type) bool {
	_, ok := under(t).(*types.Pointer)
	return ok
}
func isStructT(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }

// transparent structs: those of the module, whose fields are visible
func structNamed(t types.Type) (*types.Named, *types.Struct, bool) {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return nil, nil, false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok || !isModPkg(n.Obj().Pkg()) || s.NumFields() > 0 && !isModPkg(s.Field(0).Pkg()) {
		return n, nil, false
	}
	return n, s, true
}

func typeName(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return pkgAlias(n.Obj().Pkg()) + "." + n.Obj().Name()
}

// kindOf: short tag for element/heap-map kinds; decides the machine range
func kindOf(t types.Type) string {
	if b, s, ok := intInfo(t); ok {
		if s {
			return fmt.Sprintf("i%d", b)
		}
		return fmt.Sprintf("u%d", b)
	}
	if w, ok := isFloat(t); ok {
		return fmt.Sprintf("f%d", w)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return "bool"
		}
		if u.Info()&types.IsString != 0 {
			return "str"
		}
		return "opq"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "ref"
	case *types.Interface:
		return "any"
	case *types.Slice:
		return "s_" + kindOf(u.Elem())
	case *types.Array:
		return "s_" + kindOf(u.Elem())
	case *types.Struct:
		if n, _, ok := structNamed(t); ok {
			return "st_" + clean(typeName(n))
		}
		return "opq"
	}
	return "opq"
}

func sortOf(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return "Bool"
		}
		if u.Info()&types.IsString != 0 {
			return SeqSort("u8", "Int")
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Interface:
		return anySort()
	case *types.Slice:
		e := sortOf(u.Elem())
		return SeqSort(kindOf(u.Elem()), e)
	case *types.Array:
		e := sortOf(u.Elem())
		return SeqSort(kindOf(u.Elem()), e)
	case *types.Struct:
		if n, s, ok := structNamed(t); ok {
			return structSort(n, s)
		}
		return "Int"
	}
	return "Int"
}

func structSort(n *types.Named, s *types.Struct) string {
	name := "St_" + clean(typeName(n))
	if _, ok := P.dts[name]; ok {
		return name
	}
	dt := &Datatype{name: name}
	P.dts[name] = dt
	var fs []Field
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fs = append(fs, Field{fieldSel(n, f.Name()), sortOf(f.Type())})
	}
	dt.ctors = []Ctor{{"mk_" + clean(typeName(n)), fs}}
	return name
}

func fieldSel(n *types.Named, f string) string { return "f_" + clean(typeName(n)) + "." + f }

// ---- interfaces

func anySort() string {
	if _, ok := P.dts["Any"]; !ok {
		P.dts["Any"] = &Datatype{name: "Any", ctors: []Ctor{
			{"any_nil", nil},
			{"any_i", []Field{{"any_tag", "Int"}, {"any_val", "Int"}}},
			{"any_b", []Field{{"any_bool", "Bool"}}},
			{"any_o", []Field{{"any_oid", "Int"}}},
		}}
	}
	return "Any"
}

func anyNil() *Term { anySort(); return MkCtor("any_nil", "Any") }

func addAnyCtor(c Ctor) {
	anySort()
	dt := P.dts["Any"]
	for _, x := range dt.ctors {
		if x.name == c.name {
			return
		}
	}
	dt.ctors = append(dt.ctors, c)
}

var byteWord, runeWord = regexp.MustCompile(`\bbyte\b`), regexp.MustCompile(`\brune\b`)

var typeTags = map[string]int{} // numbered per verified unit, in order of first use

func tagOf(t types.Type) *Term {
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
	s = byteWord.ReplaceAllString(s, "uint8")
	s = runeWord.ReplaceAllString(s, "int32")
	n, ok := typeTags[s]
	if !ok {
		n = len(typeTags) + 1
		typeTags[s] = n
		tagTypes[s] = types.Unalias(t)
	}
	return NumI(int64(n))
}

// anyShape returns the constructor used for values of type t
func anyShape(t types.Type) (ctor string, field string, sort string, tagged bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return "any_b", "any_bool", "Bool", false
		}
		if u.Info()&types.IsString != 0 {
			s := sortOf(t)
			addAnyCtor(Ctor{"any_s", []Field{{"any_stag", "Int"}, {"any_str", s}}})
			return "any_s", "any_str", s, true
		}
	case *types.Slice, *types.Array:
		s := sortOf(t)
		if s == "Seq_u8" {
			addAnyCtor(Ctor{"any_s", []Field{{"any_stag", "Int"}, {"any_str", s}}})
			return "any_s", "any_str", s, true
		}
		k := s[4:]
		addAnyCtor(Ctor{"any_q_" + k, []Field{{"any_qtag_" + k, "Int"}, {"any_seq_" + k, s}}})
		return "any_q_" + k, "any_seq_" + k, s, true
	case *types.Struct:
		if n, _, ok := structNamed(t); ok {
			s := sortOf(t)
			nm := clean(typeName(n))
			addAnyCtor(Ctor{"any_st_" + nm, []Field{{"any_stv_" + nm, s}}})
			return "any_st_" + nm, "any_stv_" + nm, s, false
		}
	}
	return "any_i", "any_val", "Int", true
}

func boxAny(v *Term, t types.Type) *Term {
	if isIface(t) {
		return v
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return anyNil()
	}
	c, _, so, tagged := anyShape(t)
	if v.sort != so {
		panic("boxAny sort " + v.sort + " for " + t.String())
	}
	if tagged {
		return MkCtor(c, "Any", tagOf(t), v)
	}
	return MkCtor(c, "Any", v)
}

func tagField(c string) string {
	switch {
	case c == "any_i":
		return "any_tag"
	case c == "any_s":
		return "any_stag"
	case strings.HasPrefix(c, "any_q_"):
		return "any_qtag_" + c[6:]
	}
	return ""
}

func anyIs(v *Term, t types.Type) *Term {
	c, _, _, tagged := anyShape(t)
	r := isCtorTest(v, c)
	if tagged {
		r = And(r, Eq(selField(v, tagField(c), "Int"), tagOf(t)))
	}
	return r
}

func unboxAny(v *Term, t types.Type) *Term {
	_, f, s, _ := anyShape(t)
	r := selField(v, f, s)
	return r
}

func anyRef(v *Term) *Term { return selField(v, "any_val", "Int") }

// machine range of a type (integers and float bit patterns)
func rangeOf(t types.Type) (lo, hi *big.Int) {
	if b, s, ok := intInfo(t); ok {
		return typeRange(b, s)
	}
	if w, ok := isFloat(t); ok {
		return typeRange(w, false)
	}
	return nil, nil
}

func withRange(v *Term, t types.Type) *Term {
	lo, hi := rangeOf(t)
	if lo != nil && v.op != "num" {
		if v.lo == nil || v.lo.Cmp(lo) < 0 {
			v.lo = lo
		}
		if v.hi == nil || v.hi.Cmp(hi) > 0 {
			v.hi = hi
		}
	}
	return v
}

func rangeFact(v *Term, t types.Type) *Term {
	lo, hi := rangeOf(t)
	if lo == nil {
		return True()
	}
	return And(P.mk("<=", "Bool", Num(lo), v), P.mk("<=", "Bool", v, Num(hi)))
}

func zeroOf(t types.Type) *Term {
	s := sortOf(t)
	switch {
	case s == "Bool":
		return False()
	case s == "Any":
		return anyNil()
	case isSeq(s):
		if a, ok := under(t).(*types.Array); ok {
			r := SEmpty(s)
			if a.Len() <= 16 {
				for i := int64(0); i < a.Len(); i++ {
					r = SBuild(r, zeroOf(a.Elem()))
				}
				return r
			}
			return App("zeros_"+s[4:], s, NumI(a.Len()))
		}
		return SEmpty(s)
	case s == "Int":
		return NumI(0)
	}
	n, st, ok := structNamed(t)
	if !ok {
		panic("zeroOf " + t.String())
	}
	var as []*Term
	for i := 0; i < st.NumFields(); i++ {
		as = append(as, zeroOf(st.Field(i).Type()))
	}
	return MkCtor("mk_"+clean(typeName(n)), s, as...)
}

// ---- heap maps

func mapSort(t types.Type) string {
	s := sortOf(t)
	if lo, _ := rangeOf(t); lo != nil {
		s += "#" + kindOf(t)
	}
	return "Arr_" + s
}
