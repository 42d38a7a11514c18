package main

import (
	"math/big"
	"strings"
)

// Sequences: sorts "Seq_<kind>", see SeqSort.

func SeqSort(kind, elem string) string {
	s := "Seq_" + kind
	P.seqs[s] = elem
	return s
}
func seqElem(s string) string { return P.seqs[s] }
func isSeq(s string) bool     { return strings.HasPrefix(s, "Seq_") }

var maxLen = pow2(48)

// element interval by kind
func seqElemRange(sort string) (lo, hi *big.Int) {
	k := strings.TrimPrefix(sort, "Seq_")
	switch k {
	case "u8":
		return typeRange(8, false)
	case "u16":
		return typeRange(16, false)
	case "u32", "f32":
		return typeRange(32, false)
	case "u64", "f64":
		return typeRange(64, false)
	case "i8":
		return typeRange(8, true)
	case "i16":
		return typeRange(16, true)
	case "i32":
		return typeRange(32, true)
	case "i64":
		return typeRange(64, true)
	}
	return nil, nil
}

func SEmpty(sort string) *Term { return P.mk("seq.empty", sort) }

func SLen(s *Term) *Term {
	switch s.op {
	case "seq.empty":
		return NumI(0)
	case "seq.build":
		return Add(SLen(s.args[0]), NumI(1))
	case "seq.append":
		return Add(SLen(s.args[0]), SLen(s.args[1]))
	case "seq.upd":
		return SLen(s.args[0])
	case "ite":
		a, b := SLen(s.args[1]), SLen(s.args[2])
		if a == b {
			return a
		}
	}
	t := P.mk("seq.len", "Int", s)
	if t.lo == nil {
		t.lo = big.NewInt(0)
	}
	return t
}

func SIdx(s, i *Term) *Term {
	switch s.op {
	case "seq.build":
		l := SLen(s.args[0])
		if l == i {
			return s.args[1]
		}
		if l.op == "num" && i.op == "num" {
			return SIdx(s.args[0], i)
		}
		if isTrue(Lt(i, l)) {
			return SIdx(s.args[0], i)
		}
	case "seq.upd":
		if s.args[1] == i && isTrue(Le(NumI(0), i)) && isTrue(Lt(i, SLen(s.args[0]))) {
			return s.args[2]
		}
		if s.args[1].op == "num" && i.op == "num" && s.args[1] != i {
			return SIdx(s.args[0], i)
		}
	case "ite":
		a, b := SIdx(s.args[1], i), SIdx(s.args[2], i)
		if a == b {
			return a
		}
	}
	t := P.mk("seq.idx", seqElem(s.sort), s, i)
	if lo, hi := seqElemRange(s.sort); lo != nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

func SBuild(s, v *Term) *Term {
	if v.sort != seqElem(s.sort) {
		panic("build sort mismatch " + s.sort + " " + v.sort + " " + v.String())
	}
	return P.mk("seq.build", s.sort, s, v)
}
func SAppend(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("append sort mismatch " + a.sort + " " + b.sort)
	}
	if b.op == "seq.empty" {
		return a
	}
	if a.op == "seq.empty" {
		return b
	}
	if b.op == "seq.build" {
		return SBuild(SAppend(a, b.args[0]), b.args[1])
	}
	if b.op == "seq.append" {
		return SAppend(SAppend(a, b.args[0]), b.args[1])
	}
	// take(s,n) ++ drop(s,n)
	if a.op == "seq.take" && b.op == "seq.drop" && a.args[0] == b.args[0] && a.args[1] == b.args[1] && false {
		return a.args[0]
	}
	return P.mk("seq.append", a.sort, a, b)
}
func SUpd(s, i, v *Term) *Term {
	if v.sort != seqElem(s.sort) {
		panic("upd sort mismatch " + s.sort + " " + v.sort)
	}
	return P.mk("seq.upd", s.sort, s, i, v)
}
func STake(s, n *Term) *Term {
	if n.op == "num" && n.num.Sign() <= 0 {
		return SEmpty(s.sort)
	}
	if n == SLen(s) {
		return s
	}
	if s.op == "seq.build" || s.op == "seq.append" {
		if n == SLen(s.args[0]) {
			return s.args[0]
		}
		if isTrue(Le(n, SLen(s.args[0]))) {
			return STake(s.args[0], n)
		}
		// deeper prefix
		p := s.args[0]
		for p.op == "seq.build" || p.op == "seq.append" {
			p = p.args[0]
			if n == SLen(p) {
				return p
			}
		}
	}
	return P.mk("seq.take", s.sort, s, n)
}
func SDrop(s, n *Term) *Term {
	if n.op == "num" && n.num.Sign() <= 0 {
		return s
	}
	if n == SLen(s) {
		return SEmpty(s.sort)
	}
	if s.op == "seq.drop" && s.args[1].op == "num" && n.op == "num" {
		return SDrop(s.args[0], Add(s.args[1], n))
	}
	if s.op == "seq.build" || s.op == "seq.append" {
		// find prefix with that length
		var suffix []*Term
		p := s
		for p.op == "seq.build" || p.op == "seq.append" {
			suffix = append(suffix, p)
			p = p.args[0]
			if n == SLen(p) {
				r := SEmpty(s.sort)
				for i := len(suffix) - 1; i >= 0; i-- {
					if suffix[i].op == "seq.build" {
						r = SBuild(r, suffix[i].args[1])
					} else {
						r = SAppend(r, suffix[i].args[1])
					}
				}
				return r
			}
		}
	}
	return P.mk("seq.drop", s.sort, s, n)
}

func seqRebuild(op, sort string, a []*Term) *Term {
	switch op {
	case "seq.len":
		return SLen(a[0])
	case "seq.idx":
		return SIdx(a[0], a[1])
	case "seq.build":
		return SBuild(a[0], a[1])
	case "seq.append":
		return SAppend(a[0], a[1])
	case "seq.upd":
		return SUpd(a[0], a[1], a[2])
	case "seq.take":
		return STake(a[0], a[1])
	case "seq.drop":
		return SDrop(a[0], a[1])
	case "seq.eq":
		return P.mk("seq.eq", "Bool", a...)
	}
	return P.mk(op, sort, a...)
}

// goalForm turns positive sequence equalities into extensional ones.
func goalForm(t *Term) *Term {
	switch t.op {
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, goalForm(a))
		}
		return And(as...)
	case "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, goalForm(a))
		}
		return Or(as...)
	case "=>":
		return Implies(t.args[0], goalForm(t.args[1]))
	case "ite":
		if t.sort == "Bool" {
			return Ite(t.args[0], goalForm(t.args[1]), goalForm(t.args[2]))
		}
	case "forall":
		return Forall(t.vars, goalForm(t.args[0]), t.trigs...)
	case "=":
		if isSeq(t.args[0].sort) {
			return P.mk("seq.eq", "Bool", t.args[0], t.args[1])
		}
		if P.dts[t.args[0].sort] != nil {
			return dtEqGoal(t.args[0], t.args[1])
		}
	}
	return t
}

func dtEqGoal(a, b *Term) *Term {
	dt := P.dts[a.sort]
	if len(dt.ctors) == 1 {
		var cs []*Term
		for _, f := range dt.ctors[0].fields {
			cs = append(cs, goalForm(Eq(selField(a, f.name, f.sort), selField(b, f.name, f.sort))))
		}
		return And(cs...)
	}
	return Eq(a, b)
}
