package main

import "strings"

// Premise selection.  Discharging a goal from a subset of its hypotheses is
// sound; large contexts are cut down to the facts that are connected to the
// goal through their rarest symbols.

func termSyms(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if strings.HasPrefix(t.op, "const:") || strings.HasPrefix(t.op, "app:") {
		out[t.op] = true
	}
	for _, a := range t.args {
		termSyms(a, out, seen)
	}
}

func flatten(fs []*Term) []*Term {
	var out []*Term
	for _, f := range fs {
		if f.op == "and" {
			out = append(out, flatten(f.args)...)
		} else {
			out = append(out, f)
		}
	}
	return out
}

func sliceFacts(facts []*Term, goal *Term, tol float64, rounds int) []*Term {
	facts = flatten(facts)
	syms := make([]map[string]bool, len(facts))
	freq := map[string]int{}
	for i, f := range facts {
		m := map[string]bool{}
		termSyms(f, m, map[*Term]bool{})
		syms[i] = m
		for s := range m {
			freq[s]++
		}
	}
	rel := map[string]bool{}
	termSyms(goal, rel, map[*Term]bool{})
	in := make([]bool, len(facts))
	for r := 0; r < rounds; r++ {
		var add []int
		for i := range facts {
			if in[i] {
				continue
			}
			min := 1 << 30
			for s := range syms[i] {
				if freq[s] < min {
					min = freq[s]
				}
			}
			ok := len(syms[i]) == 0
			for s := range syms[i] {
				if rel[s] && float64(freq[s]) <= tol*float64(min) {
					ok = true
				}
			}
			if ok {
				add = append(add, i)
			}
		}
		for _, i := range add {
			in[i] = true
			for s := range syms[i] {
				rel[s] = true
			}
		}
	}
	var out []*Term
	for i, f := range facts {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}
