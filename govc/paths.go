package main

import "fmt"

// Splitting a goal by the paths that reach it: the conditions on which merged states depend are
// decided one by one, and the goal and its assumptions are simplified under each decision.

type pathStep struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

type pathLeaf struct {
	steps []*pathStep
	lits  []*Term
	goal  *Term
}

func (l *pathLeaf) apply(t *Term) *Term {
	for _, s := range l.steps {
		t = substTerm(t, s.m, s.memo)
	}
	return t
}

// condAtom finds the earliest condition a merged value in t depends on.
func condAtom(t *Term, among map[*Term]bool, seen map[*Term]bool) *Term {
	var best *Term
	var atoms func(c *Term)
	atoms = func(c *Term) {
		switch {
		case c.op == "app" && (c.name == "and" || c.name == "or" || c.name == "not" || c.name == "=>"):
			for _, a := range c.args {
				atoms(a)
			}
			return
		case c.op == "app" && c.name == "ite":
			atoms(c.args[0])
			return
		}
		if c.op == "true" || c.op == "false" || c.op == "forall" || c.op == "exists" {
			return
		}
		if among[c] && (best == nil || c.id < best.id) {
			best = c
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && t.name == "ite" && !t.args[0].bound {
			atoms(t.args[0])
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return best
}

// decide says what a literal makes of other terms.
func decide(a *Term, val bool) map[*Term]*Term {
	m := map[*Term]*Term{a: mkBool(val)}
	if val && a.op == "app" && a.name == "=" {
		x, k := a.args[0], a.args[1]
		if isConst(x) || isStrConst(x) {
			x, k = k, x
		}
		if (isConst(k) || isStrConst(k)) && !isConst(x) && !isStrConst(x) && !x.bound {
			m[x] = k
		}
	}
	return m
}

// pathLeaves lists the paths of the goal; nil if there is but one or too many.
func (u *Unit) pathLeaves(from *pathLeaf, max int) []*pathLeaf {
	var out []*pathLeaf
	n := 0
	var rec func(l *pathLeaf)
	rec = func(l *pathLeaf) {
		if l.goal == tTrue || n > 8*max {
			return
		}
		n++
		among := map[*Term]bool{}
		for _, b := range u.branches {
			addAtoms(l.apply(b), among)
		}
		a := condAtom(l.goal, among, map[*Term]bool{})
		if a == nil || len(l.steps) > 24+len(from.steps) {
			out = append(out, l)
			return
		}
		for _, v := range []bool{true, false} {
			s := &pathStep{decide(a, v), map[*Term]*Term{}}
			lit := a
			if !v {
				lit = mkNot(a)
			}
			k := &pathLeaf{append(append([]*pathStep{}, l.steps...), s), append(append([]*Term{}, l.lits...), lit), substTerm(l.goal, s.m, s.memo)}
			rec(k)
		}
	}
	rec(from)
	if n > 8*max || len(out) > max {
		if theEngine.prog.verbose {
			fmt.Printf("  too many paths: %d leaves, %d steps\n", len(out), n)
			if len(out) > 3 {
				for _, l := range out[3].lits {
					fmt.Printf("    %.300s\n", l.String())
				}
			}
		}
		return nil
	}
	if len(out) == 1 && len(out[0].steps) == len(from.steps) {
		return nil
	}
	return out
}

// waysHere splits a goal by the merged ways to get to it; nil if there are few.
func waysHere(g *Term) (out []*pathLeaf) {
	if g.op != "app" || g.name != "=>" || g.args[0].op != "app" || g.args[0].name != "or" || len(g.args[0].args) < 4 {
		return nil
	}
	for _, d := range g.args[0].args {
		m := map[*Term]*Term{}
		for _, c := range deepConjuncts(d) {
			if c.op == "app" && c.name == "not" {
				m[c.args[0]] = tFalse
				continue
			}
			for x, y := range decide(c, true) {
				if _, ok := m[x]; !ok {
					m[x] = y
				}
			}
		}
		s := &pathStep{m, map[*Term]*Term{}}
		if x := substTerm(g.args[1], s.m, s.memo); x != tTrue {
			out = append(out, &pathLeaf{[]*pathStep{s}, []*Term{d}, x})
		}
	}
	return
}

// pathAssumps is baseAssumps on one path.
func (u *Unit) pathAssumps(k int, goal *Term, l *pathLeaf) []*Term {
	v := &Unit{eng: u.eng, cands: u.cands}
	for i := 0; i < k; i++ {
		it := u.items[i]
		n := *it
		switch it.kind {
		case "assume":
			if it.cand >= 0 && !u.cands[it.cand].on {
				continue
			}
		case "assert":
			if it.ob.Kind == "terminates" {
				continue
			}
		default:
			continue
		}
		n.t = l.apply(it.t)
		if it.defines != nil {
			n.defines = l.apply(it.defines)
			if n.defines.op != "sym" && !isNodesAtom(n.defines) {
				n.defines = nil // the defined name has a value on this path
			}
		}
		v.items = append(v.items, &n)
	}
	out := v.baseAssumps(len(v.items), goal)
	return append(out, l.lits...)
}

// addAtoms collects the atoms of a boolean combination.
func addAtoms(t *Term, to map[*Term]bool) {
	if t.op == "app" && (t.name == "and" || t.name == "or" || t.name == "not" || t.name == "=>" || t.name == "ite") {
		for _, x := range t.args {
			if x.sort == "Bool" {
				addAtoms(x, to)
			}
		}
		return
	}
	if t.sort == "Bool" && t != tTrue && t != tFalse {
		to[t] = true
	}
}
