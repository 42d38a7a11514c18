package main

import (
	"go/types"
	"strings"
)

// Literals known on a path.  The facts of a path are indexed so that reads over
// writes to provably different references, and goals that are hypotheses, are
// settled while the obligations are generated.

type imp struct {
	conds []*Term
	concl *Term // not a conjunction, not an implication
	depth int
}

// Lits belongs to a lineage of facts; entries carry the depth of the fact that gave them
type Lits struct {
	tip   *Fact
	m     map[*Term]int
	imps  []*imp
	watch map[*Term][]*imp
	byEnd map[*Term][]*imp
}

func newLits() *Lits {
	return &Lits{m: map[*Term]int{}, watch: map[*Term][]*imp{}, byEnd: map[*Term][]*imp{}}
}

func (f *Fact) lits() *Lits {
	var chain []*Fact
	a := f
	for a != nil && a.ix == nil {
		chain = append(chain, a)
		a = a.parent
	}
	var l *Lits
	switch {
	case a == nil:
		l = newLits()
	case len(chain) == 0:
		return a.ix
	case a.ix.tip == a:
		l = a.ix
	default:
		l = newLits()
		for t, d := range a.ix.m {
			if d <= a.depth {
				l.m[t] = d
			}
		}
		for _, i := range a.ix.imps {
			if i.depth <= a.depth {
				l.register(i)
			}
		}
	}
	for i := len(chain) - 1; i >= 0; i-- {
		c := chain[i]
		l.learn(nil, c.t, c.depth)
		c.ix = l
		l.tip = c
	}
	return l
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// learn conds => t
func (l *Lits) learn(conds []*Term, t *Term, d int) {
	switch t.op {
	case "and":
		for _, a := range t.args {
			l.learn(conds, a, d)
		}
		return
	case "=>":
		c := conds[:len(conds):len(conds)]
		for _, a := range conjuncts(t.args[0]) {
			if _, ok := l.m[a]; !ok {
				c = append(c, a)
			}
		}
		l.learn(c, t.args[1], d)
		return
	}
	if len(conds) > 0 {
		l.register(&imp{conds, t, d})
		return
	}
	if _, ok := l.m[t]; ok {
		return
	}
	l.m[t] = d
	for _, i := range l.watch[t] {
		if l.all(i.conds) {
			l.learn(nil, i.concl, d)
		}
	}
}

func (l *Lits) all(ts []*Term) bool {
	for _, t := range ts {
		if _, ok := l.m[t]; !ok {
			return false
		}
	}
	return true
}

func (l *Lits) register(i *imp) {
	l.imps = append(l.imps, i)
	for _, c := range i.conds {
		l.watch[c] = append(l.watch[c], i)
	}
	l.byEnd[i.concl] = append(l.byEnd[i.concl], i)
}

// known reports whether t follows at once from the facts up to f and extra
func (f *Fact) known(t *Term, extra []*Term) bool {
	if f == nil {
		return false
	}
	l := f.lits()
	has := func(t *Term) bool {
		if d, ok := l.m[t]; ok && d <= f.depth {
			return true
		}
		for _, e := range extra {
			if e == t {
				return true
			}
		}
		return false
	}
	var prove func(t *Term, depth int) bool
	prove = func(t *Term, depth int) bool {
		if isTrue(t) || has(t) {
			return true
		}
		switch t.op {
		case "and":
			for _, a := range t.args {
				if !prove(a, depth) {
					return false
				}
			}
			return true
		case "=>":
			n := extra
			extra = append(extra[:len(extra):len(extra)], conjuncts(t.args[0])...)
			r := prove(t.args[1], depth)
			extra = n
			return r
		case "or":
			for _, a := range t.args {
				if prove(a, depth) {
					return true
				}
			}
		}
		if depth > 0 {
			for _, i := range l.byEnd[t] {
				if i.depth > f.depth {
					continue
				}
				ok := true
				for _, c := range i.conds {
					if !prove(c, depth-1) {
						ok = false
						break
					}
				}
				if ok {
					return true
				}
			}
		}
		return false
	}
	return prove(t, 2)
}

// the path on which terms are being built
var pathF *Fact
var pathX []*Term

func onPath(f *Fact, g func() *Term) *Term {
	o := pathF
	pathF = f
	defer func() { pathF = o }()
	return g()
}

// givenThat builds terms that only matter when c holds
func givenThat(c *Term, g func()) {
	o := pathX
	pathX = append(o[:len(o):len(o)], conjuncts(c)...)
	defer func() { pathX = o }()
	g()
}

var iteDepth int

func pathDistinct(a, b *Term) bool {
	if pathF == nil || a == b || a.sort != b.sort || a.bound || b.bound {
		return false
	}
	if b.op == "ite" {
		a, b = b, a
	}
	if a.op == "ite" && iteDepth < 3 {
		if pathF.known(a.args[0], pathX) {
			return distinctRefs(a.args[1], b)
		}
		if pathF.known(Not(a.args[0]), pathX) {
			return distinctRefs(a.args[2], b)
		}
		iteDepth++
		defer func() { iteDepth-- }()
		return distinctIf(a.args[0], a.args[1], b) && distinctIf(Not(a.args[0]), a.args[2], b)
	}
	if pathF.known(Not(Eq(a, b)), pathX) {
		return true
	}
	// pointers of different types
	if p, q := ptrType(a), ptrType(b); p != "" && q != "" && p != q {
		return pathF.known(Not(Eq(NumI(0), a)), pathX) || pathF.known(Not(Eq(NumI(0), b)), pathX)
	}
	return false
}

// heap map of a field of pointer type -> the type it points to
var ptrField = map[string]string{}

func notePtrField(m string, t types.Type) {
	if _, ok := ptrField[m]; ok {
		return
	}
	ptrField[m] = ""
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			ptrField[m] = typeName(n)
		}
	}
}

// the type a reference read from a field points to
func ptrType(t *Term) string {
	if t.op != "select" {
		return ""
	}
	m := t.args[0]
	for m.op == "store" {
		m = m.args[0]
	}
	if !strings.HasPrefix(m.op, "const:") {
		return ""
	}
	s := m.op
	i := strings.Index(s, "H_")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.IndexByte(s, '!'); j >= 0 {
		s = s[:j]
	}
	return ptrField[s]
}

// distinct when c holds
func distinctIf(c, a, b *Term) bool {
	if pathF == nil {
		return false
	}
	o := pathX
	pathX = append(pathX[:len(pathX):len(pathX)], conjuncts(c)...)
	defer func() { pathX = o }()
	return distinctRefs(a, b)
}
