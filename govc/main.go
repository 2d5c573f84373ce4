package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	con  *Contract
	fn   *ssa.Function
	sub  map[*types.TypeParam]types.Type
	suff string
	// the dynamic type that the parameter under a split clause has in this unit
	dyn types.Type
}

// Report is what one run covered.
type Report struct {
	Prop    string            `json:"prop"`
	Units   []UnitReport      `json:"units"`
	Obligs  []*Oblig          `json:"obligations"`
	Problem []string          `json:"problems"`
	Trusted []string          `json:"trusted"`
	WallS   float64           `json:"wall_s"`
	Solver  map[string]int    `json:"by_solver"`
	SolverS float64           `json:"solver_s"`
	Counts  map[string][2]int `json:"counts"`
	Cands   int               `json:"invariants_kept"`
	Missing []string          `json:"contracts_without_function"`
}

type UnitReport struct {
	Name  string `json:"name"`
	Pos   string `json:"pos"`
	Items int    `json:"items"`
}

func (e *Engine) need(con *Contract, f *ssa.Function) {
	if con.trusted {
		return
	}
	if e.inCtor {
		e.ctorNeeds = append(e.ctorNeeds, con)
		return
	}
	if e.needed[con] {
		return
	}
	e.needed[con] = true
	e.work = append(e.work, con)
	if con.pkg == "parser" {
		// its contracts speak about what the constructor builds
		if e.ctorErr != nil {
			e.ctorFailed = true
		}
		for _, c := range e.ctorNeeds {
			e.need(c, nil)
		}
	}
}

// expand lists the functions that must satisfy a contract.
func (e *Engine) expand(con *Contract) (out []workItem, err error) {
	switch con.kind {
	case "func":
		f := e.prog.funcs[con.key]
		if f == nil && unexportedKey(con.key) && !con.relevant(e.prop) {
			return nil, nil
		}
		if f == nil && unexportedKey(con.key) {
			// a helper that is no longer there: its callers are verified with what replaced it
			e.missing = append(e.missing, con.key)
			return nil, nil
		}
		if f == nil {
			return nil, fmt.Errorf("%s: the function %s does not exist", con.where, con.key)
		}
		if f.TypeParams().Len() > 0 {
			tps := f.TypeParams()
			if len(con.insts) == 0 {
				return nil, fmt.Errorf("%s: generic function needs instances", con.where)
			}
			for _, in := range con.insts {
				sub := map[*types.TypeParam]types.Type{}
				for i := 0; i < tps.Len(); i++ {
					if i >= len(in) {
						return nil, fmt.Errorf("%s: too few type arguments", con.where)
					}
					sub[tps.At(i)] = e.parseType(in[i], nil)
				}
				out = append(out, workItem{con, f, sub, "[" + strings.Join(in, ",") + "]", nil})
			}
			return out, nil
		}
		if con.split != "" {
			// one unit for each dynamic type that the parameter can have
			p := con.param(f, con.split)
			if p == nil {
				return nil, fmt.Errorf("%s: no parameter %s to split on", con.where, con.split)
			}
			it, ok := p.Type().Underlying().(*types.Interface)
			if !ok {
				return nil, fmt.Errorf("%s: %s is not of an interface type", con.where, con.split)
			}
			for _, t := range e.prog.implementers(it) {
				out = append(out, workItem{con, f, nil, " given " + tname(t), t})
			}
			return out, nil
		}
		return []workItem{{con, f, nil, "", nil}}, nil
	case "functype":
		if fns, ok := e.tableFor(con.key); ok {
			in := map[*ssa.Function]bool{}
			ids := map[int]bool{}
			for _, f := range fns {
				in[f] = true
				if id := e.fnID(f); !ids[id] {
					ids[id] = true
					out = append(out, workItem{con, f, nil, "", nil})
				}
			}
			ex, err := e.expandConverted(con)
			if err != nil {
				return nil, err
			}
			for _, w := range ex {
				if !in[w.fn] {
					out = append(out, w)
				}
			}
			return out, nil
		}
		return e.expandConverted(con)
	case "iface":
		return e.expandIface(con)
	}
	return nil, nil
}

// expandConverted lists the functions converted to the function type of the contract.
func (e *Engine) expandConverted(con *Contract) (out []workItem, err error) {
	switch con.kind {
	case "functype":
		seen := map[*ssa.Function]bool{}
		for _, f := range e.prog.allFuncs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					ct, ok := ins.(*ssa.ChangeType)
					if !ok || tname(ct.Type()) != con.key {
						continue
					}
					var g *ssa.Function
					switch x := ct.X.(type) {
					case *ssa.MakeClosure:
						g = x.Fn.(*ssa.Function)
					case *ssa.Function:
						g = x
					case *ssa.Call:
						// the result of a function returning a closure
						if sf := x.Call.StaticCallee(); sf != nil {
							for _, r := range returnedFuncs(sf) {
								if r == nil {
									return nil, fmt.Errorf("%s: a function value of type %s of unknown origin at %s", con.where, con.key, e.prog.pos(ct.Pos()))
								}
								if !seen[r] {
									seen[r] = true
									out = append(out, workItem{con, r, nil, "", nil})
								}
							}
							continue
						}
					case *ssa.Const:
						continue
					}
					if g == nil {
						return nil, fmt.Errorf("%s: a function value of type %s of unknown origin at %s", con.where, con.key, e.prog.pos(ct.Pos()))
					}
					if !seen[g] {
						seen[g] = true
						out = append(out, workItem{con, g, nil, "", nil})
					}
				}
			}
		}
		// functions that return such a function under its unnamed type
		if nt, ok := e.parseType(con.key, nil).(*types.Named); ok {
			for _, f := range e.prog.allFuncs {
				rs := f.Signature.Results()
				if rs.Len() != 1 || !types.Identical(rs.At(0).Type(), nt.Underlying()) || fnPkg(f) == nil || fnPkg(f).Pkg != nt.Obj().Pkg() || f.Object() == nil || !f.Object().Exported() {
					continue
				}
				for _, r := range returnedFuncs(f) {
					if r == nil {
						return nil, fmt.Errorf("%s: a function value of type %s of unknown origin in %s", con.where, con.key, f)
					}
					if !seen[r] {
						seen[r] = true
						out = append(out, workItem{con, r, nil, "", nil})
					}
				}
			}
		}
		return out, nil
	}
	return nil, nil
}

func (e *Engine) expandIface(con *Contract) (out []workItem, err error) {
	{
		i := strings.LastIndex(con.key, ".")
		t := e.parseType(con.key[:i], nil)
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			return nil, fmt.Errorf("%s: %s is not an interface", con.where, con.key[:i])
		}
		var m *types.Func
		for j := 0; j < it.NumMethods(); j++ {
			if it.Method(j).Name() == con.key[i+1:] {
				m = it.Method(j)
			}
		}
		if m == nil {
			return nil, fmt.Errorf("%s: no method %s", con.where, con.key)
		}
		for _, ct := range e.prog.implementers(it) {
			f := e.prog.method(ct, m)
			if f == nil {
				continue
			}
			if e.isNodeElem(t) && e.neverNode(ct) {
				continue // the precondition excludes it: such objects are never finished nodes
			}
			out = append(out, workItem{con, f, nil, "", nil})
		}
		return out, nil
	}
	return nil, nil
}

// unexportedKey says whether the contract is on an unexported function or method.
func unexportedKey(k string) bool {
	n := k[strings.LastIndex(k, ".")+1:]
	return n != "" && (n[0] >= 'a' && n[0] <= 'z' || n[0] == '_')
}

func returnedFuncs(f *ssa.Function) (out []*ssa.Function) {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			switch x := r.Results[0].(type) {
			case *ssa.MakeClosure:
				out = append(out, x.Fn.(*ssa.Function))
			case *ssa.Function:
				out = append(out, x)
			default:
				out = append(out, nil)
			}
		}
	}
	return
}

func (con *Contract) relevant(prop string) bool {
	has := func(l []string) bool {
		for _, t := range l {
			if t == prop {
				return true
			}
		}
		return false
	}
	if has(con.safety) || has(con.tags) {
		return true
	}
	for _, cs := range [][]*Clause{con.ensures} {
		for _, c := range cs {
			if has(c.tags) {
				return true
			}
		}
	}
	return false
}

func main() {
	prop := flag.String("prop", "", "property")
	root := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contracts")
	jsonOut := flag.String("json", "", "report file")
	unitRe := flag.String("unit", "", "only units matching")
	verbose := flag.Bool("v", false, "verbose")
	budget := flag.Int("t", 20, "seconds per query")
	dump := flag.String("dump", "", "dump queries")
	ssaOut := flag.String("ssa", "", "print the SSA of a function")
	flag.Parse()
	queryDump = *dump
	t0 := time.Now()
	debug.SetGCPercent(400)
	rep := &Report{Prop: *prop, Solver: map[string]int{}, Counts: map[string][2]int{}}
	finish := func() {
		rep.WallS = time.Since(t0).Seconds()
		if *jsonOut != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*jsonOut, b, 0o644)
		}
		bad := len(rep.Problem)
		for _, o := range rep.Obligs {
			if o.Status != "proved" {
				bad++
			}
		}
		for _, p := range rep.Problem {
			fmt.Println("PROBLEM", p)
		}
		for _, o := range rep.Obligs {
			if o.Status != "proved" {
				fmt.Printf("FAILED %s [%s] %s at %s in %s (%s, %.1fs)\n", o.Kind, strings.Join(o.Tags, ","), o.Label, o.Pos, o.Unit, o.Status, o.Ms/1000)
				if *verbose && o.script != "" {
					fmt.Println(firstN(o.Model, 300))
					os.MkdirAll("/tmp/failed", 0o755)
					os.WriteFile("/tmp/failed/last.smt2", []byte(o.script), 0o644)
				}
			}
		}
		n := len(rep.Obligs)
		fmt.Printf("%s: %d units, %d obligations, %d failed, %d problems, %.1fs wall, %.1fs solver\n", *prop, len(rep.Units), n, bad-len(rep.Problem), len(rep.Problem), rep.WallS, rep.SolverS)
		if bad > 0 {
			os.Exit(1)
		}
	}
	p, err := loadProgram(*root)
	if err != nil {
		rep.Problem = append(rep.Problem, err.Error())
		finish()
		return
	}
	p.verbose = *verbose
	if *ssaOut != "" {
		for k, f := range p.funcs {
			if k == *ssaOut || strings.HasPrefix(k, *ssaOut+"$") {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	e := newEngine(p)
	e.prop = *prop
	e.needed = map[*Contract]bool{}
	e.specs = newSpecs()
	if err := e.specs.load(*dir); err != nil {
		rep.Problem = append(rep.Problem, err.Error())
		finish()
		return
	}
	if err := e.runInit("token", "environment"); err != nil {
		rep.Problem = append(rep.Problem, err.Error())
		finish()
		return
	}
	e.ctorErr = e.prepare()
	e.initNodes()
	var all []*Contract
	for _, m := range []map[string]*Contract{e.specs.funcs, e.specs.functypes, e.specs.iface} {
		for _, k := range sortedKeys(m) {
			all = append(all, m[k])
		}
	}
	re := regexp.MustCompile(*unitRe)
	for _, c := range all {
		if !c.trusted && c.relevant(*prop) {
			e.need(c, nil)
		}
	}
	var us []*Unit
	for i := 0; i < len(e.work) && !e.ctorFailed; i++ {
		c := e.work[i]
		items, err := func() (w []workItem, err error) {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(*evalErr); ok {
						err = fmt.Errorf("%s: %s", c.where, x.msg)
						return
					}
					panic(r)
				}
			}()
			return e.expand(c)
		}()
		if err != nil {
			rep.Problem = append(rep.Problem, err.Error())
			continue
		}
		for _, w := range items {
			u, err := e.verifyFunc(w.con, w.fn, w.sub, w.suff, w.dyn)
			if err != nil {
				rep.Problem = append(rep.Problem, fmt.Sprintf("%s: %v", u.name, err))
				continue
			}
			if !re.MatchString(u.name) {
				continue
			}
			if u.neverReturns {
				rep.Problem = append(rep.Problem, u.name+" never returns")
			}
			us = append(us, u)
			rep.Units = append(rep.Units, UnitReport{u.name, p.pos(w.fn.Pos()), len(u.items)})
			if *verbose {
				fmt.Printf("unit %s: %d items\n", u.name, len(u.items))
			}
		}
	}
	if e.nodesUsed {
		u, err := e.nodeLemma()
		if err != nil {
			rep.Problem = append(rep.Problem, err.Error())
		} else if re.MatchString(u.name) {
			us = append(us, u)
		}
	}
	if e.ctorFailed {
		rep.Problem = append(rep.Problem, e.ctorErr.Error())
	}
	rep.Problem = append(rep.Problem, e.unboundedRecursion()...)
	if len(e.initAsserts) > 0 {
		iu := &Unit{eng: e, name: "package initialisers", items: e.initItems}
		us = append(us, iu)
	}
	want := func(u *Unit, ob *Oblig) bool {
		if ob.Kind == "nodes" && !e.nodesUsed {
			return false
		}
		if len(ob.Tags) > 0 {
			for _, t := range ob.Tags {
				if t == *prop {
					return true
				}
			}
			return false
		}
		if strings.HasPrefix(ob.Kind, "safety") || ob.Kind == "terminates" {
			if u.con == nil {
				return ob.Kind != "terminates"
			}
			for _, t := range u.con.safety {
				if t == *prop {
					return true
				}
			}
			return false
		}
		return true
	}
	if *verbose {
		fmt.Printf("  [%.1fs] generated\n", time.Since(t0).Seconds())
	}
	var vac []string
	rep.Obligs, vac = discharge(us, want, time.Duration(*budget)*time.Second)
	rep.Problem = append(rep.Problem, vac...)
	for _, o := range rep.Obligs {
		rep.SolverS += o.Ms / 1000
		if o.Status == "proved" {
			rep.Solver[o.Solver]++
		}
		c := rep.Counts[o.Kind]
		c[0]++
		if o.Status == "proved" {
			c[1]++
		}
		rep.Counts[o.Kind] = c
	}
	for _, u := range us {
		for _, c := range u.cands {
			if c.on {
				rep.Cands++
			}
		}
	}
	rep.Missing = e.missing
	for k := range e.externs {
		rep.Trusted = append(rep.Trusted, k)
	}
	sort.Strings(rep.Trusted)
	if *verbose {
		sort.Slice(rep.Obligs, func(i, j int) bool { return rep.Obligs[i].Ms > rep.Obligs[j].Ms })
		for i, o := range rep.Obligs {
			if i < 40 {
				fmt.Printf("  slow %.1fs %s %s %s %s\n", o.Ms/1000, o.Kind, o.Label, o.Pos, o.Unit)
			}
		}
	}
	finish()
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (e *Engine) prepare() error {
	e.callEdges = map[[2]*Contract]bool{}
	err := e.runCtors()
	e.callEdges = map[[2]*Contract]bool{}
	return err
}

// neverNode: no finished node has this type.
func (e *Engine) neverNode(t types.Type) bool {
	w := e.nodeSpec(t)
	if w == nil {
		return true
	}
	for _, c := range w.cls {
		if id, ok := c.expr.(*ast.Ident); ok && id.Name == "false" && c.active(e.prop) {
			return true
		}
	}
	return false
}
