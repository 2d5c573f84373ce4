package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type job struct {
	u     *Unit
	upto  int
	goal  *Term
	ob    *Oblig
	cand  int
	cover bool
	parts []*Term   // goals that together imply the goal, tried when it fails
	path  *pathLeaf // the part of the goal on one path
	done  bool
	of    *job
	text  string
	res   solverResult
	alts  []string
}

// baseAssumps collects what may be assumed before item k.
func (u *Unit) baseAssumps(k int, goal *Term) []*Term {
	var out []*Term
	used := map[*Term]bool{}
	var mark func(t *Term)
	seen := map[*Term]bool{}
	inGoal := true
	mark = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "sym" || isNodesAtom(t) && !inGoal {
			used[t] = true
		}
		for _, a := range t.args {
			mark(a)
		}
		if inGoal && isNodesAtom(t) {
			delete(seen, t)
		}
	}
	mark(goal)
	inGoal = false
	type dfn struct {
		it  *Item
		idx int
	}
	var defs []dfn
	n := 0
	inc := map[int]bool{}
	for i := 0; i < k; i++ {
		it := u.items[i]
		switch it.kind {
		case "assume":
			if it.cand >= 0 && !u.cands[it.cand].on {
				continue
			}
			if it.defines != nil {
				defs = append(defs, dfn{it, i})
				continue
			}
			if it.t == tTrue {
				continue
			}
			inc[i] = true
			mark(it.t)
		case "assert":
			if it.ob.Kind == "terminates" || it.t == tTrue {
				continue
			}
			inc[i] = true
			mark(it.t)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, d := range defs {
			if !inc[d.idx] && used[d.it.defines] {
				inc[d.idx] = true
				mark(d.it.t)
				changed = true
			}
		}
	}
	for i := 0; i < k; i++ {
		if inc[i] {
			out = append(out, u.items[i].t)
			n++
		}
	}
	return out
}

func parallel(n int, jobs []*job, f func(*job)) {
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				f(j)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

const workers = 8

var openGoals int32

// batch renders sequentially (terms are not thread-safe) and solves in parallel.
func batch(jobs []*job, f func(j *job)) {
	ch := make(chan *job, workers*2)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				f(j)
				j.text = ""
				j.alts = nil
			}
		}()
	}
	var spent time.Duration
	size := 0
	for _, j := range jobs {
		t := time.Now()
		if j.goal != nil && j.res.res != "unsat" {
			j.text = j.script()
			size += len(j.text)
		}
		spent += time.Since(t)
		for _, a := range j.ob_alts() {
			j.alts = append(j.alts, script(j.u.baseAssumps(j.upto, a), a, false))
		}
		ch <- j
	}
	close(ch)
	wg.Wait()
	if theEngine.prog.verbose {
		fmt.Printf("  batch of %d: rendering %.1fs, %d MB\n", len(jobs), spent.Seconds(), size>>20)
	}
}

func (j *job) ob_alts() []*Term {
	if j.ob != nil && j.ob.Kind == "terminates" {
		return j.ob.alts
	}
	return nil
}

var nPart int

func (j *job) script() string {
	if j.path != nil {
		return script(j.u.pathAssumps(j.upto, j.goal, j.path), j.goal, false)
	}
	return script(j.u.baseAssumps(j.upto, j.goal), j.goal, false)
}

// leaf is the part of the job on one path.
func (j *job) leaf(l *pathLeaf) *job {
	if l == nil {
		return &job{u: j.u, upto: j.upto, goal: j.goal, of: j, parts: j.parts}
	}
	k := &job{u: j.u, upto: j.upto, goal: l.goal, path: l, of: j}
	for _, p := range j.parts {
		if g := l.apply(p); g != tTrue {
			k.parts = append(k.parts, g)
		}
	}
	return k
}

// refine splits the jobs that were not proved: by path, then into the parts of the goal.
func refine(jobs []*job, maxPaths int, first, last func(text string) solverResult) {
	var mu sync.Mutex
	fail := func(k *job, r solverResult) {
		mu.Lock()
		defer mu.Unlock()
		for o := k.of; o != nil; o = o.of {
			if o.res.res != "failed" {
				ms := o.res.ms
				o.res = r
				o.res.ms += ms
				o.res.res = "failed"
			}
		}
		if theEngine.prog.verbose {
			os.MkdirAll("/tmp/failed", 0o755)
			nPart++
			os.WriteFile(fmt.Sprintf("/tmp/failed/part%d.smt2", nPart), []byte(r.text), 0o644)
			fmt.Printf("  part%d of %s fails (%s)\n", nPart, k.u.name, r.res)
		}
	}
	note := func(k *job, r solverResult) {
		mu.Lock()
		defer mu.Unlock()
		for o := k.of; o != nil; o = o.of {
			o.res.ms += r.ms
			o.res.solver = r.solver
		}
	}
	failed := func(k *job) bool {
		mu.Lock()
		defer mu.Unlock()
		for o := k.of; o != nil; o = o.of {
			if o.res.res == "failed" {
				return true
			}
		}
		return false
	}
	var leaves, todo, coarse, open0 []*job
	for _, j := range jobs {
		if j.res.res == "unsat" || j.goal == nil || j.cover {
			continue
		}
		todo = append(todo, j)
		ways := waysHere(j.goal)
		if ways == nil {
			open0 = append(open0, j.leaf(nil))
			continue
		}
		for _, l := range ways {
			coarse = append(coarse, j.leaf(l))
		}
	}
	batch(coarse, func(k *job) {
		if failed(k) {
			k.res.res = "skipped"
			return
		}
		k.res = first(k.text)
		note(k, k.res)
	})
	for _, k := range coarse {
		if k.res.res != "unsat" && k.res.res != "skipped" {
			open0 = append(open0, k)
		}
	}
	for _, k := range open0 {
		from := k.path
		if from == nil {
			from = &pathLeaf{goal: k.goal}
		}
		ls := k.u.pathLeaves(from, maxPaths)
		if ls == nil {
			k.done = true
			leaves = append(leaves, k)
			continue
		}
		for _, l := range ls {
			leaves = append(leaves, k.of.leaf(l))
		}
	}
	// the paths
	var open, whole []*job
	for _, k := range leaves {
		if k.done {
			// tried already
			k.res.res = "open"
			continue
		}
		whole = append(whole, k)
	}
	batch(whole, func(k *job) {
		if failed(k) {
			k.res.res = "skipped"
			return
		}
		k.res = first(k.text)
		note(k, k.res)
	})
	for _, k := range leaves {
		if k.res.res == "unsat" || k.res.res == "skipped" {
			continue
		}
		if len(k.parts) == 0 {
			open = append(open, &job{u: k.u, upto: k.upto, goal: k.goal, path: k.path, of: k.of})
			continue
		}
		for _, p := range k.parts {
			open = append(open, &job{u: k.u, upto: k.upto, goal: p, path: k.path, of: k.of})
		}
	}
	batch(open, func(k *job) {
		if failed(k) {
			return
		}
		r := last(k.text)
		note(k, r)
		if r.res != "unsat" {
			r.text = k.text
			fail(k, r)
		}
	})
	for _, j := range todo {
		if j.res.res != "failed" {
			j.res.res = "unsat"
		}
	}
}

// houdini prunes the candidate invariants of several units.
func houdini(us []*Unit) {
	quick := func(t string) solverResult { return solve(t, true, 4*time.Second) }
	for round := 0; ; round++ {
		var jobs []*job
		for _, u := range us {
			if u == nil || !u.hasCands() {
				continue
			}
			if round > 0 && !u.candChanged {
				continue
			}
			u.candChanged = false
			for i, it := range u.items {
				if it.kind == "cand" && u.cands[it.cand].on && it.t != tTrue {
					jobs = append(jobs, &job{u: u, upto: i, goal: it.t, cand: it.cand, parts: it.split})
				}
			}
		}
		if len(jobs) == 0 {
			return
		}
		batch(jobs, func(j *job) {
			if !strings.HasPrefix(j.u.cands[j.cand].desc, "inv ") {
				// a guess of the engine: it is not worth much time
				j.res = runSolver("z3-new", []string{"-in", solverTimeout(3 * time.Second)}, j.text, 3*time.Second)
				return
			}
			j.res = solve(j.text, true, 4*time.Second)
		})
		var again []*job
		for _, j := range jobs {
			if j.res.res != "unsat" && len(j.parts) > 0 {
				again = append(again, j)
			}
		}
		refine(again, 12, quick, quick)
		// an invariant that the contracts ask for: it is worth the other solvers
		var last []*job
		for _, j := range jobs {
			if j.res.res != "unsat" && strings.HasPrefix(j.u.cands[j.cand].desc, "inv ") {
				last = append(last, j)
			}
		}
		batch(last, func(j *job) {
			ms := j.res.ms
			if r := race(10*time.Second, []racer{{"z3", nil, j.text}, {"cvc5", nil, forCVC5(j.text)}}); r.res == "unsat" {
				j.res = r
			}
			j.res.ms += ms
		})
		for _, j := range jobs {
			if j.res.res != "unsat" && j.u.cands[j.cand].on {
				if d := os.Getenv("GOVC_CAND"); d != "" && strings.Contains(j.u.cands[j.cand].desc, d) {
					os.WriteFile(fmt.Sprintf("/tmp/failed/cand%d.smt2", j.cand), []byte(j.script()), 0o644)
				}
				j.u.cands[j.cand].on = false
				j.u.candChanged = true
				if theEngine.prog.verbose {
					fmt.Printf("  %s: drop candidate %s (%s)\n", j.u.name, j.u.cands[j.cand].desc, j.res.res)
				}
			}
		}
	}
}

// together tries goals that arise at the same point in one query.
func together(jobs []*job) {
	var groups []*job
	of := map[*job][]*job{}
	for i := 0; i < len(jobs); {
		j := jobs[i]
		k := i + 1
		for k < len(jobs) && j.ob != nil && j.ob.Kind != "terminates" && jobs[k].ob != nil && jobs[k].u == j.u && jobs[k].ob.Kind == j.ob.Kind && (jobs[k].ob.Label == j.ob.Label || j.ob.Kind == "frame") && jobs[k].ob.Pos == j.ob.Pos && !j.u.assumesBetween(j.upto, jobs[k].upto) && k-i < 16 {
			k++
		}
		if k > i+1 {
			g := tTrue
			for _, x := range jobs[i:k] {
				g = mkAnd(g, x.goal)
			}
			n := &job{u: j.u, upto: j.upto, goal: g}
			groups = append(groups, n)
			of[n] = jobs[i:k]
		}
		i = k
	}
	batch(groups, func(g *job) {
		r := runSolver("z3-new", []string{"-in", solverTimeout(2 * time.Second)}, g.text, 2*time.Second)
		if r.res == "unsat" {
			r.ms /= float64(len(of[g]))
			for _, x := range of[g] {
				x.res = r
			}
		}
	})
}

// assumesBetween: something is assumed or defined between the items.
func (u *Unit) assumesBetween(a, b int) bool {
	for i := a; i < b; i++ {
		if u.items[i].kind != "assert" {
			return true
		}
	}
	return false
}

func (u *Unit) hasCands() bool {
	for _, c := range u.cands {
		if c.on {
			return true
		}
	}
	return false
}

// discharge checks the obligations of the units that count for the property.
func discharge(us []*Unit, want func(u *Unit, ob *Oblig) bool, budget time.Duration) ([]*Oblig, []string) {
	t0 := time.Now()
	lap := func(what string) {
		if theEngine.prog.verbose {
			fmt.Printf("  [%.1fs] %s\n", time.Since(t0).Seconds(), what)
		}
	}
	houdini(us)
	lap("loop invariants found")
	var jobs []*job
	var all []*Oblig
	for _, u := range us {
		for i, it := range u.items {
			if it.kind != "assert" || !want(u, it.ob) {
				continue
			}
			all = append(all, it.ob)
			it.ob.Unit = u.name
			if it.ob.Kind != "terminates" {
				if it.t == tTrue {
					it.ob.Status = "proved"
					it.ob.Solver = "simplifier"
					continue
				}
				jobs = append(jobs, &job{u: u, upto: i, goal: it.t, ob: it.ob, parts: it.split})
				continue
			}
			jobs = append(jobs, &job{u: u, upto: i, ob: it.ob})
		}
	}
	// the end of every function under contract must not be provably unreachable
	for _, u := range us {
		for i, it := range u.items {
			if it.kind == "cover" {
				jobs = append(jobs, &job{u: u, upto: i, goal: it.t, cover: true})
			}
		}
	}
	var vacuous []string
	var mu sync.Mutex
	together(jobs)
	lap("obligations tried together")
	batch(jobs, func(j *job) {
		if j.cover {
			t := time.Second
			if budget > 10*time.Second {
				t = 5 * time.Second
			}
			if r := runSolver("z3-new", []string{"-in", solverTimeout(t)}, j.text, t); r.res == "unsat" {
				mu.Lock()
				vacuous = append(vacuous, j.u.name+": its assumptions are contradictory, nothing is proved about it")
				mu.Unlock()
			}
			return
		}
		if j.ob.Kind == "terminates" {
			j.ob.Status = "failed"
			j.ob.Model = "no termination measure found"
			for pass := 0; pass < 2; pass++ {
				for _, a := range j.alts {
					t := 2 * time.Second
					if pass == 1 {
						t = budget / 2
					}
					r := solve(a, pass == 0, t)
					j.ob.Ms += r.ms
					j.ob.Solver = r.solver
					if r.res == "unsat" {
						j.ob.Status = "proved"
						j.ob.Model = ""
						return
					}
				}
			}
			return
		}
		if j.res.res == "unsat" {
			return
		}
		j.res = runSolver("z3-new", []string{"-in", solverTimeout(time.Second)}, j.text, time.Second)
		if j.res.res != "unsat" && theEngine.prog.verbose {
			j.ob.script = j.text
		}
	})
	lap("obligations tried")
	var rest []*job
	for _, j := range jobs {
		if j.ob != nil && j.ob.Kind != "terminates" {
			rest = append(rest, j)
		}
	}
	refine(rest, 60, func(t string) solverResult { return solve(t, true, 4*time.Second) },
		func(t string) solverResult {
			// once something has failed, the rest is not worth much time
			if atomic.LoadInt32(&openGoals) > 0 && time.Since(t0) > 30*time.Second {
				return solverResult{res: "not tried", solver: "none"}
			}
			r := solve(t, false, budget)
			if r.res != "unsat" {
				atomic.AddInt32(&openGoals, 1)
			}
			return r
		})
	lap("refined")
	for _, j := range jobs {
		if j.ob == nil || j.ob.Kind == "terminates" {
			continue
		}
		r := j.res
		j.ob.Ms, j.ob.Solver = r.ms, r.solver
		if r.res == "unsat" {
			j.ob.Status = "proved"
			continue
		}
		j.ob.Status = r.res
		if len(r.out) > 2000 {
			r.out = r.out[:2000]
		}
		j.ob.Model = r.out
		if j.res.text != "" {
			j.ob.script = j.res.text
		}
	}
	return all, vacuous
}
