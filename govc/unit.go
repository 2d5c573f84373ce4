package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) newUnit(name string) *Unit {
	u := &Unit{eng: e, name: name, facts: map[*Term]int{}, expand: map[*Term][]*Term{}, closures: map[*Term]*Closure{}, targets: map[string][]*Term{},
		leafSort: map[string]string{}, fieldHint: map[*Term]fieldOrigin{}, prop: e.prop, inlined: map[string]bool{}, wholeOK: map[string]bool{}, assumed: map[*Term][]assumedAt{}}
	a := tt.fresh("alloc0", "Int")
	u.alloc, u.alloc0 = a, a
	u.assumeDef(nil, mkLe(mkInt(1), a))
	for _, r := range e.initRefs {
		u.assumeDef(nil, mkLe(r, a))
	}
	for _, it := range e.initItems {
		if it.kind == "assume" {
			u.items = append(u.items, it)
		} else if it.kind == "assert" && it.ob.Kind != "terminates" {
			u.items = append(u.items, &Item{kind: "assume", t: it.t, cand: -1})
		}
	}
	return u
}

func (u *Unit) pkgOf(con *Contract) *types.Package { return u.eng.findPkg(con.pkg) }

func mustClause(err error) {
	if err != nil {
		unsupported("specification does not fit the code: %v", err)
	}
}

// modTargets evaluates a modifies list.
func (u *Unit) modTargets(con *Contract, env *Env) (out []write) {
	for _, m := range con.modifies {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(*evalErr); ok {
						unsupported("specification does not fit the code: %s: %s (%s)", m.where, x.msg, m.text)
					}
					panic(r)
				}
			}()
			out = append(out, u.modTarget(m, env)...)
		}()
	}
	return
}

func (u *Unit) callContract(fr *Frame, st *State, con *Contract, f *ssa.Function, sig *types.Signature, clo *Term, args []Value) (Value, bool) {
	u.eng.need(con, f)
	env := &Env{u: u, vars: map[string]Value{}, st: st, pkg: u.pkgOf(con), allocOld: u.alloc}
	for i, p := range con.params {
		if i < len(args) {
			a := args[i]
			if a.addr != nil {
				a = Value{typ: a.typ, t: []*Term{a.one()}}
			}
			env.vars[p] = a
		}
	}
	if len(con.params) > len(args) {
		unsupported("contract %s has more parameters than the call", con.key)
	}
	if clo != nil {
		env.vars["self"] = Value{typ: types.Typ[types.Int], t: []*Term{clo}}
	}
	u.beforeCall(st, con, env)
	env.st = st
	u.bindLets(con, env)
	for _, c := range con.requires {
		if !c.active(u.prop) {
			continue
		}
		t, err := env.tryBool(c)
		mustClause(err)
		for _, g := range splitGoal(u.dropAssumed(st, t)) {
			u.assert(st, "pre", fmt.Sprintf("%s requires %s", con.key, c.label), c.tags, g)
		}
	}
	for _, c := range con.maypanic {
		t, err := env.tryBool(c)
		mustClause(err)
		u.safety(st, "panic", mkNot(t))
	}
	u.callMeasure(st, con, env)
	old := st.clone()
	env.old = old
	allocBefore := u.alloc
	env.allocOld = allocBefore
	targets := u.modTargets(con, env)
	u.bumpAlloc()
	if con.nonodes || con.trusted {
		u.noNodesSince(allocBefore)
	} else {
		u.nodeful = "it calls " + con.key
		u.setBound(st, nodeBound)
		u.setBound(st, frozenBound)
	}
	for _, w := range targets {
		if w.ref == nil {
			if u.eng.nodePart(w.name) {
				unsupported("%s modifies all of %s, which node invariants read", con.key, w.name)
			}
			u.leafSort[w.name] = w.sort
			st.heap[w.name] = tt.fresh("h_"+w.name, u.sortOfName(w.name, w.sort))
			if u.writes != nil {
				*u.writes = append(*u.writes, w)
			}
			if !strings.HasPrefix(w.name, "G|$") && !u.anyWrite && !u.wholeOK[w.name] {
				u.assert(st, "frame", "callee may write anywhere in "+w.name, nil, tFalse)
			}
			continue
		}
		a := u.get(st, w.name, w.sort)
		_, es := elemSort(a.sort)
		fv := tt.fresh("hv_"+w.name, es)
		st.heap[w.name] = mkStore(a, w.ref, fv)
		u.noteWrite(st, w.name, w.sort, w.ref)
	}
	res := u.freshResults2(sig, con.key)
	u.bindResults(env, con, sig, res)
	if con.trusted {
		u.eng.noteExtern(con.key + " (assumed contract)")
	}
	for _, cs := range [][]*Clause{con.defines, con.ensures} {
		for _, c := range cs {
			if !c.active(u.prop) || c.local {
				continue
			}
			t, err := env.tryBool(c)
			mustClause(err)
			u.assume(st, t)
		}
	}
	u.afterCall(st, con, env, res)
	if con.noreturn {
		return Value{}, false
	}
	return res, true
}

// bindLets evaluates the let clauses in the state before the call.
func (u *Unit) bindLets(con *Contract, env *Env) {
	for _, c := range con.lets {
		if !c.active(u.prop) {
			continue
		}
		v, err := env.tryVal(c)
		mustClause(err)
		env.vars[c.label] = v
	}
}

func (u *Unit) freshResults2(sig *types.Signature, name string) Value {
	n := sig.Results().Len()
	switch n {
	case 0:
		return Value{}
	case 1:
		return u.freshVal("r_"+name, sig.Results().At(0).Type())
	}
	v := Value{typ: sig.Results()}
	for i := 0; i < n; i++ {
		v.tup = append(v.tup, u.freshVal("r_"+name, sig.Results().At(i).Type()))
	}
	return v
}

func (u *Unit) bindResults(env *Env, con *Contract, sig *types.Signature, res Value) {
	for i, r := range con.results {
		if i >= sig.Results().Len() {
			unsupported("contract %s names more results than the function has", con.key)
		}
		if res.tup != nil {
			env.vars[r] = res.tup[i]
		} else {
			env.vars[r] = res
		}
	}
}

// loopEnv is the environment for loop annotations.
func (u *Unit) loopEnv(fr *Frame, st *State, phi map[*ssa.Phi]Value, phis []*ssa.Phi) *Env {
	env := &Env{u: u, vars: map[string]Value{}, st: st, old: u.entry, pre: u.loopPre, allocOld: u.alloc0}
	if u.con != nil {
		env.pkg = u.pkgOf(u.con)
	}
	for k, v := range u.specEnv {
		env.vars[k] = v
	}
	for _, f := range u.stack {
		for r, v := range f.regs {
			if p, ok := r.(*ssa.Phi); ok && p.Comment != "" && f != fr {
				env.vars[p.Comment] = v
			}
		}
	}
	for _, p := range phis {
		if p.Comment != "" {
			env.vars["$"+p.Comment] = phi[p]
			env.vars[p.Comment] = phi[p]
		}
	}
	// the phis of the loop by position: robust against renaming
	for i, p := range phis {
		env.vars[fmt.Sprintf("phi%d", i)] = phi[p]
	}
	// and those of the loop around it
	if len(phis) > 0 {
		var outer *loopInfo
		for _, l := range fr.loops {
			if l.header != phis[0].Block() && l.blocks[phis[0].Block()] && (outer == nil || len(l.blocks) < len(outer.blocks)) {
				outer = l
			}
		}
		if outer != nil {
			i := 0
			for _, ins := range outer.header.Instrs {
				if p, ok := ins.(*ssa.Phi); ok {
					if v, ok := fr.regs[p]; ok {
						env.vars[fmt.Sprintf("out%d", i)] = v
					}
					i++
				}
			}
		}
	}
	return env
}

func (u *Unit) evalInv(fr *Frame, c *Clause, path []int, st *State, phi map[*ssa.Phi]Value, phis []*ssa.Phi) (t *Term, err error) {
	env := u.loopEnv(fr, st, phi, phis)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *evalErr:
				err = fmt.Errorf("%s: %s (%s)", c.where, x.msg, c.text)
			case *Unsupported:
				err = fmt.Errorf("%s: %s (%s)", c.where, x.msg, c.text)
			default:
				panic(r)
			}
		}
	}()
	if path == nil {
		x := env.ev(c.expr)
		if len(x.t) != 1 {
			return nil, fmt.Errorf("not scalar")
		}
		return x.t[0], nil
	}
	return env.conjunct(c.expr, path), nil
}

func (u *Unit) specInvs(fr *Frame) (out []*Clause) {
	if u.con == nil {
		return nil
	}
	for _, c := range u.con.invs {
		if c.active(u.prop) {
			out = append(out, c)
		}
	}
	return
}

func (u *Unit) specMeasures(fr *Frame) []*Clause {
	if u.con == nil {
		return nil
	}
	return u.con.measures
}

// verifyFunc symbolically executes a function against its contract.
func (e *Engine) verifyFunc(con *Contract, f *ssa.Function, tsub map[*types.TypeParam]types.Type, suffix string, dyn types.Type) (u *Unit, err error) {
	saveT, saveL := e.tsub, e.leafMemo
	if tsub != nil {
		e.tsub = tsub
		e.leafMemo = map[types.Type][]Leaf{}
	}
	defer func() { e.tsub, e.leafMemo = saveT, saveL }()
	name := con.key + suffix
	if con.kind != "func" {
		name = fnKey(f) + " as " + con.key
	}
	u = e.newUnit(name)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *Unsupported:
				err = fmt.Errorf("%s: %s", u.eng.prog.pos(u.pos), x.msg)
			case *evalErr:
				err = fmt.Errorf("specification: %s", x.msg)
			default:
				panic(r)
			}
		}
	}()
	u.fn, u.con = f, con
	u.pos = f.Pos()
	st := &State{heap: map[string]*Term{}}
	var clo *Term
	fr := &Frame{fn: f, regs: map[ssa.Value]Value{}}
	u.stack = append(u.stack, fr)
	var args []Value
	for i, p := range f.Params {
		nm := p.Name()
		_ = i
		v := u.freshVal("p_"+nm, p.Type())
		if dyn != nil && p == con.param(f, con.split) {
			v.t[0] = mkInt(int64(e.typeTag(dyn)))
		}
		for _, t := range v.t {
			u.paramSyms = append(u.paramSyms, t)
		}
		args = append(args, v)
	}
	if len(f.FreeVars) > 0 {
		clo = tt.fresh("clo", "Int")
		clo.isRef = true
		u.assume(nil, mkAnd(mkLe(mkInt(1), clo), mkLt(clo, u.alloc0)))
		u.assume(nil, mkEq(mkApp("fnid", "Int", clo), mkInt(int64(e.fnID(f)))))
		u.selfClo, u.selfFn = clo, f
	}
	fr = u.bindFrame(f, clo, args)
	u.top = fr
	u.stack = nil
	env := &Env{u: u, vars: map[string]Value{}, st: st, old: st, pkg: u.pkgOf(con), allocOld: u.alloc0}
	u.bindSpecParams(env, con, f, clo, args)
	if clo != nil {
		u.bindSelf(f, clo)
	}
	u.bindLets(con, env)
	u.specEnv = env.vars
	u.entry = st.clone()
	env.old = u.entry
	for _, c := range con.requires {
		if !c.active(u.prop) {
			continue
		}
		t, err := env.tryBool(c)
		mustClause(err)
		if t == tFalse && (con.kind == "iface" || dyn != nil) {
			// the contract says that it is never called for this type
			u.items = nil
			return u, nil
		}
		u.assume(nil, t)
	}
	for _, c := range con.assumes {
		if !c.active(u.prop) {
			continue
		}
		t, err := env.tryBool(c)
		mustClause(err)
		u.assume(nil, t)
		e.noteExtern(con.key + " assumes " + c.label)
	}
	for _, c := range con.maypanic {
		if !c.active(u.prop) {
			continue
		}
		t, err := env.tryBool(c)
		mustClause(err)
		if u.panicOK == nil {
			u.panicOK = tFalse
		}
		u.panicOK = mkOr(u.panicOK, t)
	}
	u.atEntry(st, env, clo)
	for k, t := range st.heap {
		u.entry.heap[k] = t
	}
	u.anyWrite = con.anywrite
	for _, w := range u.modTargets(con, env) {
		if w.ref != nil {
			u.targets[w.name] = append(u.targets[w.name], w.ref)
		} else {
			u.wholeOK[w.name] = true
		}
	}
	for _, c := range con.decr {
		v, err := env.tryVal(c)
		mustClause(err)
		u.measure0 = append(u.measure0, v.one())
	}
	u.entry = st.clone()
	env.old = u.entry
	rets := u.execFunc(fr, st.clone())
	u.stack = append(u.stack, fr)
	for k := range u.entry.heap {
		_ = k
	}
	for _, r := range rets {
		env2 := &Env{u: u, vars: map[string]Value{}, st: r.st, old: u.entry, pkg: env.pkg, allocOld: u.alloc0}
		for k, v := range env.vars {
			env2.vars[k] = v
		}
		for i, n := range con.results {
			if i >= len(r.vals) {
				unsupported("contract %s names more results than the function has", con.key)
			}
			v := r.vals[i]
			if v.addr != nil {
				v = Value{typ: v.typ, t: []*Term{v.one()}}
			}
			env2.vars[n] = v
		}
		if r.pos.IsValid() {
			u.pos = r.pos
		}
		u.atReturn(r.st, env2, r.vals)
		u.ghostUpdates(con, r.st, env2)
		for _, c := range con.ensures {
			if !c.active(u.prop) {
				continue
			}
			t, err := env2.tryBool(c)
			mustClause(err)
			for _, g := range splitGoal(u.dropAssumed(r.st, t)) {
				u.assert(r.st, "post", c.label, c.tags, g)
			}
		}
	}
	if len(rets) > 0 {
		reach := tFalse
		for _, r := range rets {
			reach = mkOr(reach, r.st.guard())
		}
		u.items = append(u.items, &Item{kind: "cover", t: mkNot(reach), cand: -1})
	}
	if con.nonodes && u.nodeful != "" {
		unsupported("the contract says that no nodes are created, but %s", u.nodeful)
	}
	if len(rets) == 0 && !con.noreturn {
		// a function that never returns satisfies its postconditions; panics are separate obligations
		u.neverReturns = true
	}
	return u, nil
}

// splitGoal breaks a conjunction, also below implications, into separate goals.
func splitGoal(t *Term) []*Term {
	if t.op != "app" {
		return []*Term{t}
	}
	switch t.name {
	case "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "ite":
		if t.sort == "Bool" {
			var out []*Term
			for _, a := range splitGoal(t.args[1]) {
				out = append(out, mkImp(t.args[0], a))
			}
			for _, a := range splitGoal(t.args[2]) {
				out = append(out, mkImp(mkNot(t.args[0]), a))
			}
			if len(out) > 6 {
				return []*Term{t}
			}
			return out
		}
	case "=>":
		var out []*Term
		for _, a := range splitGoal(t.args[1]) {
			out = append(out, mkImp(t.args[0], a))
		}
		return out
	case "or":
		n := 1
		for _, a := range t.args {
			if n *= goalCount(a); n > 12 {
				return []*Term{t}
			}
		}
		for i, x := range t.args {
			if x.op == "app" && x.name == "and" {
				rest := append(append([]*Term{}, t.args[:i]...), t.args[i+1:]...)
				var out []*Term
				for _, a := range x.args {
					out = append(out, splitGoal(mkOr(append(append([]*Term{}, rest...), a)...))...)
				}
				if len(out) > 12 {
					return []*Term{t}
				}
				return out
			}
		}
	}
	return []*Term{t}
}

// goalCount estimates how many goals splitGoal makes of a disjunct.
func goalCount(t *Term) int {
	if t.op != "app" {
		return 1
	}
	n := 0
	switch t.name {
	case "and":
		for _, a := range t.args {
			if n += goalCount(a); n > 1000 {
				return n
			}
		}
	case "or":
		n = 1
		for _, a := range t.args {
			if n *= goalCount(a); n > 1000 {
				return n
			}
		}
	case "=>":
		n = goalCount(t.args[1])
	default:
		n = 1
	}
	return n
}

func (u *Unit) bindSpecParams(env *Env, con *Contract, f *ssa.Function, clo *Term, args []Value) {
	for i, p := range con.params {
		if i >= len(args) {
			unsupported("contract %s has more parameters than the function", con.key)
		}
		env.vars[p] = args[i]
	}
	if len(args) > len(con.params) {
		unsupported("contract %s has fewer parameters than the function", con.key)
	}
	if clo != nil {
		env.vars["self"] = Value{typ: types.Typ[types.Int], t: []*Term{clo}}
	}
}

// ghostUpdates executes the update clauses of a contract.
func (u *Unit) ghostUpdates(con *Contract, st *State, env *Env) {
	for _, c := range con.updates {
		if !c.active(u.prop) {
			continue
		}
		b, ok := c.expr.(*ast.BinaryExpr)
		if !ok {
			unsupported("%s: update wants ghost == value", c.where)
		}
		id, ok := b.X.(*ast.Ident)
		if !ok || u.eng.specs.ghosts[id.Name] == "" || !u.wholeOK["G|"+id.Name] {
			unsupported("%s: update wants a ghost that the contract modifies", c.where)
		}
		cl := *c
		cl.expr = b.Y
		v, err := env.tryVal(&cl)
		mustClause(err)
		u.get(st, "G|"+id.Name, u.eng.specs.ghosts[id.Name])
		st.heap["G|"+id.Name] = v.one()
	}
}

// param is the function's parameter that the contract calls by the name.
func (con *Contract) param(f *ssa.Function, name string) *ssa.Parameter {
	for i, n := range con.params {
		if n == name && i < len(f.Params) {
			return f.Params[i]
		}
	}
	return nil
}
