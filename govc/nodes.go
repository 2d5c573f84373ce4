package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Node invariants: every object of a type with a `node` declaration carries ghost fields
//   wf  it is complete (its declared invariant holds and it is never written again)
//   ht  its height (for termination of recursive methods)
//   sa, sb  the range of significant tokens it was parsed from
// They live in the heap arrays O|$node|.wf etc., so framing treats them like any other field.

type newObj struct {
	ref   *Term
	typ   types.Type
	plain bool    // finished from the start
	pc    []*Term // the path that creates it
}

type ghostLeaf struct{ name, sort string }

var nodeGhost = map[string]string{"wf": "Bool", "ht": "Int", "sa": "Int", "sb": "Int"}

// Per path, nodes exist only below nodeBound and the arrays of finished nodes only below frozenBound.
const (
	nodeBound   = "G|$nb"
	frozenBound = "G|$fb"
)

func (u *Unit) bound(st *State, k string) *Term { return u.get(st, k, "Int") }

func (u *Unit) setBound(st *State, k string) {
	u.leafSort[k] = "Int"
	st.heap[k] = u.alloc
	if u.writes != nil {
		*u.writes = append(*u.writes, write{k, nil, "Int"})
	}
}

func (u *Unit) ghostField(st *State, f string) *Term {
	return u.get(st, "O|$node|."+f, nodeGhost[f])
}

func (u *Unit) setGhostField(st *State, f string, ref, v *Term) {
	u.put(st, "O|$node|."+f, nodeGhost[f], ref, v)
}

func (e *Engine) nodeTypes() []string { return sortedKeys(e.specs.wf) }

// nodeSpec gives the declaration for the pointed-to type of t.
func (e *Engine) nodeSpec(t types.Type) *WFSpec {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	return e.specs.wf[tname(p.Elem())]
}

func (e *Engine) nodeTag(w *WFSpec) (types.Type, int) {
	t := types.NewPointer(e.parseType(w.typ, nil))
	return t, e.typeTag(t)
}

func rtype(r *Term) *Term { return mkApp("rtype", "Int", r) }

// isNodeElem: slices of these are part of nodes.
func (e *Engine) isNodeElem(t types.Type) bool {
	if len(e.specs.wf) == 0 {
		return false
	}
	if e.nodeSpec(t) != nil {
		return true
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Interface); !ok {
		return false
	}
	for _, k := range e.nodeTypes() {
		pt, _ := e.nodeTag(e.specs.wf[k])
		if n.Underlying().(*types.Interface).NumMethods() > 0 && types.Implements(pt, n.Underlying().(*types.Interface)) {
			return true
		}
	}
	return false
}

func (u *Unit) onNewObject(st *State, r *Term, t types.Type) {
	if u.eng.specs.wf[tname(t)] == nil {
		return
	}
	u.nodeful = "it creates a " + tname(t)
	// on this path nothing between the last node and this one is a node: those cells
	// are not allocated here or hold something else, and are ours to choose
	b := mkBound("n_0", "Int")
	wf := u.ghostField(st, "wf")
	var pats [][]*Term
	for _, s := range stripStores(wf) {
		pats = append(pats, []*Term{mkSelect(s, b)})
	}
	u.assume(st, mkForall([]*Term{b}, mkImp(mkAnd(mkLe(u.bound(st, nodeBound), b), mkLt(b, r)), mkNot(mkSelect(wf, b))), pats...))
	u.setBound(st, nodeBound)
	// a node of a type without an active invariant is finished from the start
	plain := true
	for _, c := range u.eng.specs.wf[tname(t)].cls {
		if c.active(u.prop) {
			plain = false
		}
	}
	if plain {
		// the contents of cells that are not allocated yet are ours to choose
		u.assume(st, mkSelect(u.ghostField(st, "wf"), r))
		u.assume(st, mkEq(mkSelect(u.ghostField(st, "ht"), r), mkInt(0)))
	} else {
		u.setGhostField(st, "wf", r, tFalse)
		u.setGhostField(st, "ht", r, mkInt(0))
	}
	_, tag := u.eng.nodeTag(u.eng.specs.wf[tname(t)])
	u.assumeDef(nil, mkEq(rtype(r), mkInt(int64(tag))))
	u.newObjs = append(u.newObjs, newObj{r, t, plain, append([]*Term{}, st.pc...)})
}

// onNewArray: a fresh element array belongs to no finished node.
func (u *Unit) onNewArray(st *State, r *Term, el types.Type) {
	if u.eng.isNodeElem(el) {
		u.put(st, "O|$node|.fz", "Bool", r, tFalse)
	}
}

// wfOf: the value (interface or pointer) refers to a finished node.
func (u *Unit) wfOf(st *State, x Value) *Term {
	var ref, tag *Term
	if x.addr == nil && len(x.t) == 2 {
		tag, ref = x.t[0], x.t[1]
	} else {
		if u.eng.nodeSpec(x.typ) == nil {
			return tFalse
		}
		ref = x.one()
		tag = mkInt(int64(u.eng.typeTag(x.typ)))
	}
	r := mkAnd(mkLe(mkInt(1), ref), mkLt(ref, u.bound(st, nodeBound)), mkEq(rtype(ref), tag), mkSelect(u.ghostField(st, "wf"), ref), mkLe(mkInt(0), mkSelect(u.ghostField(st, "ht"), ref)))
	if tag.op == "int" && u.eng.neverFinished(tag) {
		return tFalse
	}
	if tag.op != "int" {
		r = mkAnd(mkNot(mkEq(tag, mkInt(0))), r)
	}
	return r
}

// neverFinished: nothing of the type with the tag is ever a finished node.
func (e *Engine) neverFinished(tag *Term) bool {
	for _, k := range e.nodeTypes() {
		w := e.specs.wf[k]
		if _, t := e.nodeTag(w); mkInt(int64(t)) != tag {
			continue
		}
		for _, c := range w.cls {
			if id, ok := c.expr.(*ast.Ident); ok && id.Name == "false" && c.active(e.prop) {
				return true
			}
		}
		return false
	}
	return true
}

func nodeRef(x Value) *Term {
	if x.addr == nil && len(x.t) == 2 {
		return x.t[1]
	}
	return x.one()
}

// nodeInv is the declared invariant of the object at ref, in the given state.
func (v *Env) nodeInv(w *WFSpec, ref *Term, heights bool) *Term {
	u := v.u
	pt, _ := u.eng.nodeTag(w)
	nv := *v
	nv.vars = map[string]Value{w.self: {typ: pt, t: []*Term{ref}}}
	nv.self = &Value{typ: pt, t: []*Term{ref}}
	nv.noHeights = !heights
	if p := u.eng.findPkg(w.pkg); p != nil {
		nv.pkg = p
	}
	r := tTrue
	for _, c := range w.cls {
		if !c.active(u.prop) {
			continue
		}
		t, err := nv.tryBool(c)
		mustClause(err)
		r = mkAnd(r, t)
	}
	return r
}

func stripStores(a *Term) []*Term {
	for a.op == "app" && a.name == "store" {
		a = a.args[0]
	}
	if a.op == "app" && a.name == "ite" {
		return append(stripStores(a.args[1]), stripStores(a.args[2])...)
	}
	return []*Term{a}
}

const nodesAtom = "nodesok"

func isNodesAtom(t *Term) bool { return t.op == "app" && t.name == nodesAtom }

// nodesOK: every finished node satisfies the invariant of its type. The condition is an
// atom over the heap parts it reads, defined by its expansion, so that the solver can
// carry it over parts of the execution that leave those parts alone.
func (v *Env) nodesOK() *Term {
	u := v.u
	saved := u.track
	u.track = map[string]bool{}
	exps := v.nodesExp()
	names := sortedKeys(u.track)
	if saved != nil {
		for _, k := range names {
			saved[k] = true
		}
	}
	u.track = saved
	if len(exps) == 0 {
		return tTrue
	}
	u.eng.nodesUsed = true
	if u.eng.nodeParts == nil {
		u.eng.nodeParts = names
	} else if fmt.Sprint(u.eng.nodeParts) != fmt.Sprint(names) {
		unsupported("nodesok() reads different parts of the heap: %v and %v", u.eng.nodeParts, names)
	}
	var args []*Term
	for _, k := range names {
		args = append(args, u.get(v.st, k, u.leafSort[k]))
	}
	atom := mkApp(nodesAtom, "Bool", args...)
	u.expand[atom] = exps
	def := mkImp(atom, mkAnd(exps...))
	if n, ok := u.facts[def]; !ok || n >= len(u.items) {
		u.facts[def] = len(u.items)
		u.assumeDef(atom, def)
	}
	return atom
}

// dropNodes replaces nodesok atoms in a goal by true. That finished nodes satisfy their
// invariants is not proved goal by goal but step by step: no step writes to a finished node or
// to the elements of a finished array (checkPacked), a node is finished only if its invariant
// holds (atReturn), and the invariants survive everything else (nodeLemma).
func (u *Unit) dropNodes(t *Term) *Term {
	if isNodesAtom(t) {
		u.hadNodes = true
		return tTrue
	}
	if t.op != "app" {
		return t
	}
	switch t.name {
	case "and":
		r := tTrue
		for _, a := range t.args {
			r = mkAnd(r, u.dropNodes(a))
		}
		return r
	case "or":
		r := tFalse
		for _, a := range t.args {
			r = mkOr(r, u.dropNodes(a))
		}
		return r
	case "=>":
		return mkImp(t.args[0], u.dropNodes(t.args[1]))
	}
	return t
}

// initNodes finds the parts of the heap that node invariants read.
func (e *Engine) initNodes() {
	if len(e.specs.wf) == 0 {
		return
	}
	u := e.newUnit("node invariants")
	v := &Env{u: u, vars: map[string]Value{}, st: &State{heap: map[string]*Term{}}, allocOld: u.alloc0}
	v.old = v.st
	v.nodesOK()
	e.nodesUsed = false
}

func (e *Engine) nodePart(name string) bool {
	if strings.HasPrefix(name, "O|$node|") || strings.HasPrefix(name, "G|") {
		return false
	}
	for _, k := range e.nodeParts {
		if k == name {
			return true
		}
	}
	return false
}

// plainNode: nodes of this type are finished from the start, their fields may change.
func (u *Unit) plainNode(w *WFSpec) bool {
	for _, c := range w.cls {
		if c.active(u.prop) {
			return false
		}
	}
	return true
}

// checkPacked: a store does not change a finished node.
func (u *Unit) checkPacked(st *State, a *Addr) {
	ls := u.eng.leaves(a.root)
	n := len(u.eng.leaves(a.typ))
	for i := 0; i < n; i++ {
		l := ls[a.lo+i]
		if a.elem {
			if u.eng.nodePart(elemArr(a.root, l)) {
				u.checkArr(st, a.ref, tTrue)
				return
			}
		} else if u.eng.nodePart(objArr(a.root, l)) {
			if w := u.eng.specs.wf[tname(a.root)]; w != nil && !u.plainNode(w) {
				u.assert(st, "nodes", "a finished node is not changed", nil, mkNot(mkSelect(u.ghostField(st, "wf"), a.ref)))
				return
			}
		}
	}
}

func (u *Unit) checkArr(st *State, arr, cond *Term) {
	fz := mkAnd(mkLt(arr, u.bound(st, frozenBound)), mkSelect(u.get(st, "O|$node|.fz", "Bool"), arr))
	u.assert(st, "nodes", "the elements of a finished node are not changed", nil, mkImp(cond, mkNot(fz)))
}

// nodeLemma is the unit that proves that the invariant of a finished node survives every change
// that leaves finished nodes alone.
func (e *Engine) nodeLemma() (u *Unit, err error) {
	u = e.newUnit("node invariants")
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *Unsupported:
				err = fmt.Errorf("node invariants: %s", x.msg)
			case *evalErr:
				err = fmt.Errorf("node invariants: %s", x.msg)
			default:
				panic(r)
			}
		}
	}()
	st, st2 := &State{heap: map[string]*Term{}}, &State{heap: map[string]*Term{}}
	v := &Env{u: u, vars: map[string]Value{}, st: st, old: st, allocOld: u.alloc0}
	v.nodesOK()
	for _, k := range e.nodeParts {
		if k == nodeBound || k == frozenBound {
			st.heap[k] = tt.fresh("b", "Int")
			st2.heap[k] = tt.fresh("b", "Int")
			u.assume(nil, mkLe(st.heap[k], st2.heap[k]))
			continue
		}
		u.get(st, k, u.leafSort[k])
		st2.heap[k] = tt.fresh("h_"+k, u.sortOfName(k, u.leafSort[k]))
	}
	b := mkBound("r_0", "Int")
	wf, wf2 := u.ghostField(st, "wf"), u.ghostField(st2, "wf")
	fin := mkAnd(mkLe(mkInt(1), b), mkLt(b, u.bound(st, nodeBound)), mkSelect(wf, b))
	u.assume(nil, mkForall([]*Term{b}, mkImp(fin, mkSelect(wf2, b)), []*Term{mkSelect(wf2, b)}))
	for _, k := range e.nodeParts {
		if k == nodeBound || k == frozenBound || k == "O|$node|.wf" {
			continue
		}
		x, y := mkSelect(st.heap[k], b), mkSelect(st2.heap[k], b)
		cond := tTrue
		switch {
		case k == "O|$node|.fz":
			u.assume(nil, mkForall([]*Term{b}, mkImp(x, y), []*Term{y}))
			continue
		case strings.HasPrefix(k, "O|$node|"):
			cond = fin
		case strings.HasPrefix(k, "O|"):
			w := e.specs.wf[strings.Split(k, "|")[1]]
			if w == nil || u.plainNode(w) {
				continue
			}
			_, tag := e.nodeTag(w)
			cond = mkAnd(fin, mkEq(rtype(b), mkInt(int64(tag))))
		case strings.HasPrefix(k, "E|"):
			cond = mkAnd(mkLt(b, u.bound(st, frozenBound)), mkSelect(u.get(st, "O|$node|.fz", "Bool"), b))
		default:
			return u, fmt.Errorf("node invariants read %s", k)
		}
		u.assume(nil, mkForall([]*Term{b}, mkImp(cond, mkEq(x, y)), []*Term{y}))
	}
	for _, k := range e.nodeTypes() {
		w := e.specs.wf[k]
		n := tt.fresh("n", "Int")
		_, tag := e.nodeTag(w)
		v1, v2 := *v, *v
		v2.st, v2.old = st2, st2
		before, after := v1.nodeInv(w, n, true), v2.nodeInv(w, n, true)
		if after == tTrue {
			continue
		}
		hyp := mkAnd(mkLe(mkInt(1), n), mkLt(n, u.bound(st, nodeBound)), mkEq(rtype(n), mkInt(int64(tag))), mkSelect(wf, n), before)
		for _, g := range splitGoal(after) {
			u.assert(nil, "lemma", "a finished "+k+" stays as it is when finished nodes are left alone", nil, mkImp(hyp, g))
		}
	}
	return u, nil
}

func (v *Env) nodesExp() (out []*Term) {
	u := v.u
	wf := u.ghostField(v.st, "wf")
	for _, k := range u.eng.nodeTypes() {
		w := u.eng.specs.wf[k]
		b := mkBound(fmt.Sprintf("r_%d", v.qd), "Int")
		_, tag := u.eng.nodeTag(w)
		nv := *v
		nv.qd++
		body := nv.nodeInv(w, b, true)
		if body == tTrue {
			continue
		}
		var pats [][]*Term
		seen := map[*Term]bool{}
		for _, s := range stripStores(wf) {
			if !seen[s] {
				seen[s] = true
				pats = append(pats, []*Term{mkSelect(s, b)})
			}
		}
		pre := mkAnd(mkLe(mkInt(1), b), mkLt(b, u.bound(v.st, nodeBound)), mkEq(rtype(b), mkInt(int64(tag))), mkSelect(wf, b))
		q := mkForall([]*Term{b}, mkImp(pre, body), pats...)
		if q.op == "forall" {
			// a node leads to its children, these to theirs, ...
			q.weight = 2
		}
		out = append(out, q)
	}
	return out
}

// atReturn finishes the nodes built by the function.
func (u *Unit) atReturn(st *State, env *Env, vals []Value) {
	if len(u.eng.specs.wf) == 0 || len(u.newObjs) == 0 {
		return
	}
	u.setSpans(st, env)
	for pass := 0; pass < 2; pass++ {
		for _, o := range u.newObjs {
			w := u.eng.specs.wf[tname(o.typ)]
			leaf := u.leafNode(o.typ)
			if leaf != (pass == 0) || o.plain {
				continue
			}
			u.finishObj(st, env, w, o)
		}
	}
}

// finishLeaves finishes the nodes without parts that exist at the head of a loop, so that an
// invariant can say that they are finished.
func (u *Unit) finishLeaves(st *State) {
	if len(u.eng.specs.wf) == 0 {
		return
	}
	env := &Env{u: u, vars: map[string]Value{}, st: st, old: st, allocOld: u.alloc0}
	for _, o := range u.newObjs {
		if o.plain || !u.leafNode(o.typ) {
			continue
		}
		if u.preFinished == nil {
			u.preFinished = map[*Term]bool{}
		}
		u.preFinished[o.ref] = true
		u.finishObj(st, env, u.eng.specs.wf[tname(o.typ)], o)
	}
}

func (u *Unit) finishObj(st *State, env *Env, w *WFSpec, o newObj) {
	env2 := *env
	env2.st = st
	env2.packing = true
	c := env2.nodeInv(w, o.ref, false)
	if c == tFalse {
		return
	}
	// on the other paths the object does not exist
	made := tTrue
	have := map[*Term]bool{}
	for _, p := range st.pc {
		for _, x := range deepConjuncts(p) {
			have[x] = true
		}
	}
	for _, p := range o.pc {
		for _, x := range deepConjuncts(p) {
			if !have[x] {
				made = mkAnd(made, x)
			}
		}
	}
	if u.preFinished[o.ref] {
		// unless a loop found it finished
		made = mkAnd(made, mkNot(mkSelect(u.ghostField(st, "wf"), o.ref)))
	}
	h := tt.fresh("ht", "Int")
	u.assumeDef(h, mkLe(mkInt(0), h))
	hts := u.ghostField(st, "ht")
	st.heap["O|$node|.ht"] = mkStore(hts, o.ref, mkIte(made, h, mkSelect(hts, o.ref)))
	u.noteWrite(st, "O|$node|.ht", "Int", o.ref)
	// h is chosen above the heights of the (finitely many) children
	ch := env2.nodeInv(w, o.ref, true)
	u.assume(st, mkImp(mkAnd(made, c), ch))
	u.freezeArrays(st, o, mkAnd(made, c))
	u.setGhostField(st, "wf", o.ref, mkIte(made, c, mkSelect(u.ghostField(st, "wf"), o.ref)))
}

// freezeArrays marks the element arrays of a finished node.
func (u *Unit) freezeArrays(st *State, o newObj, c *Term) {
	sv := u.load(st, &Addr{root: o.typ, ref: o.ref, typ: o.typ})
	for i, l := range u.eng.leaves(o.typ) {
		if l.part == "arr" && u.eng.isNodeElem(l.typ.Underlying().(*types.Slice).Elem()) {
			a := sv.t[i]
			c := mkAnd(c, mkNot(mkEq(a, mkInt(0))))
			u.setBound(st, frozenBound)
			fz := u.get(st, "O|$node|.fz", "Bool")
			nv := mkOr(mkSelect(fz, a), c)
			st.heap["O|$node|.fz"] = mkStore(fz, a, nv)
			u.noteWriteIf(st, "O|$node|.fz", "Bool", a, mkAnd(c, mkNot(mkSelect(fz, a))))
		}
	}
}

func (u *Unit) leafNode(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return true
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		switch x := ft.Underlying().(type) {
		case *types.Interface, *types.Slice:
			return false
		case *types.Pointer:
			_ = x
			return false
		}
	}
	return true
}

// setSpans executes the set clauses `sa(result) == e` for a result built here.
func (u *Unit) setSpans(st *State, env *Env) {
	if u.con == nil {
		return
	}
	env2 := *env
	env2.st = st
	for _, c := range u.con.ghosts {
		if !c.active(u.prop) {
			continue
		}
		b, ok := c.expr.(*ast.BinaryExpr)
		if !ok {
			unsupported("%s: set wants f(x) == e", c.where)
		}
		call, ok := b.X.(*ast.CallExpr)
		if !ok {
			unsupported("%s: set wants f(x) == e", c.where)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(*evalErr); ok {
						unsupported("%s: %s", c.where, x.msg)
					}
					panic(r)
				}
			}()
			ref := nodeRef(env2.ev(call.Args[0]))
			val := env2.one(b.Y)
			f := call.Fun.(*ast.Ident).Name
			for _, o := range u.newObjs {
				if !mentions(ref, o.ref) {
					continue
				}
				cur := mkSelect(u.ghostField(st, f), o.ref)
				u.setGhostField(st, f, o.ref, mkIte(mkEq(ref, o.ref), val, cur))
			}
		}()
	}
}

func mentions(t, x *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// ---------- constructors: function tables and function fields ----------

type ctorTable struct {
	typ    types.Type // the struct
	funcs  map[string]*ssa.Function
	maps   map[string][]ctorEntry
	consts map[string]*Term // plain functions
}

type ctorEntry struct {
	key *Term
	fn  *ssa.Function
	id  int
}

// runCtors executes each declared constructor and records the functions it installs.
func (e *Engine) runCtors() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *Unsupported:
				err = fmt.Errorf("constructor: %s", x.msg)
			case *evalErr:
				err = fmt.Errorf("constructor: %s", x.msg)
			default:
				panic(r)
			}
		}
	}()
	e.ctors = map[string]*ctorTable{}
	e.inCtor = true
	defer func() { e.inCtor = false }()
	for _, k := range sortedKeys(e.specs.ctors) {
		fk := e.specs.ctors[k]
		f := e.prog.funcs[fk]
		if f == nil {
			return fmt.Errorf("the constructor %s does not exist", fk)
		}
		t := e.parseType(k, nil)
		tab := &ctorTable{typ: t, funcs: map[string]*ssa.Function{}, maps: map[string][]ctorEntry{}}
		e.ctors[k] = tab
		u := e.newUnit("constructor " + fk)
		u.fn = f
		u.anyWrite = true
		st := &State{heap: map[string]*Term{}}
		var args []Value
		for _, p := range f.Params {
			args = append(args, u.freshVal("p_"+p.Name(), p.Type()))
		}
		fr := u.bindFrame(f, nil, args)
		u.top = fr
		u.entry = st.clone()
		rets := u.execFunc(fr, st)
		if len(rets) != 1 {
			return fmt.Errorf("the constructor %s has %d returns", fk, len(rets))
		}
		r := rets[0]
		p := r.vals[0]
		sv := u.load(r.st, &Addr{root: t, ref: p.one(), typ: t})
		sst := t.Underlying().(*types.Struct)
		for i := 0; i < sst.NumFields(); i++ {
			lo, _ := e.fieldRange(t, i)
			fl := sst.Field(i)
			switch x := fl.Type().Underlying().(type) {
			case *types.Signature:
				c := u.closures[sv.t[lo]]
				if c == nil {
					return fmt.Errorf("%s: the function in field %s is not known", fk, fl.Name())
				}
				tab.funcs[fl.Name()] = c.fn
			case *types.Map:
				if _, ok := x.Elem().Underlying().(*types.Signature); !ok {
					continue
				}
				has, val, ks, _, _ := u.mapNames(fl.Type())
				_ = has
				row := mkSelect(u.get(r.st, val[0], arrSort("Int", arrSort(ks, "Int"))), sv.t[lo])
				seen := map[*Term]bool{}
				for row.op == "app" && row.name == "store" {
					if row.args[1].op != "int" {
						return fmt.Errorf("%s: field %s has a key that is not constant", fk, fl.Name())
					}
					if !seen[row.args[1]] {
						seen[row.args[1]] = true
						c := u.closures[row.args[2]]
						if c == nil {
							return fmt.Errorf("%s: field %s holds an unknown function", fk, fl.Name())
						}
						tab.maps[fl.Name()] = append(tab.maps[fl.Name()], ctorEntry{row.args[1], c.fn, e.fnID(c.fn)})
					}
					row = row.args[0]
				}
				if row.op != "app" || row.name != "const" {
					return fmt.Errorf("%s: field %s is not built from an empty map", fk, fl.Name())
				}
			}
		}
	}
	return nil
}

// ctorField finds the table entry for an expression x.F where x is a constructed object.
func (v *Env) ctorField(e ast.Expr) (*ctorTable, string, Value, Value) {
	sel, ok := e.(*ast.SelectorExpr)
	if !ok {
		evfail("expected a field")
	}
	b := v.ev(sel.X)
	pt, ok := isPtrToStruct(v.u.eng.subst(b.typ))
	if !ok {
		evfail("expected a field of a pointer")
	}
	tab := v.u.eng.ctors[tname(pt)]
	if tab == nil {
		if v.u.eng.inCtor {
			return nil, "", b, v.field(b, sel.Sel.Name)
		}
		evfail("no constructor for %s", tname(pt))
	}
	return tab, sel.Sel.Name, b, v.field(b, sel.Sel.Name)
}

func (u *Unit) fnidOf(clo *Term) *Term {
	if u.selfClo != nil && clo == u.selfClo {
		return mkInt(int64(u.eng.fnID(u.selfFn)))
	}
	return mkApp("fnid", "Int", clo)
}

func ownerOf(clo *Term) *Term { return mkApp("owner", "Int", clo) }

func (u *Unit) entryCond(tab *ctorTable, f string, key, clo, p *Term) *Term {
	r := tFalse
	id := u.fnidOf(clo)
	for _, x := range tab.maps[f] {
		r = mkOr(r, mkAnd(mkEq(key, x.key), mkEq(id, mkInt(int64(x.id)))))
	}
	return mkAnd(r, mkEq(ownerOf(clo), p), mkNot(mkEq(clo, mkInt(0))))
}

// asBuilt: the field holds what the constructor put there.
func (v *Env) asBuilt(e ast.Expr) *Term {
	u := v.u
	tab, f, p, fv := v.ctorField(e)
	if tab == nil {
		return tTrue
	}
	if fn, ok := tab.funcs[f]; ok {
		r := mkAnd(mkEq(u.fnidOf(fv.one()), mkInt(int64(u.eng.fnID(fn)))), mkNot(mkEq(fv.one(), mkInt(0))))
		if len(fn.FreeVars) > 0 {
			r = mkAnd(r, mkEq(ownerOf(fv.one()), p.one()))
		} else {
			r = mkEq(fv.one(), u.eng.funcValue(u, fn).one())
		}
		return r
	}
	if _, ok := u.eng.under(fv.typ).(*types.Map); !ok {
		evfail("field %s is not a function or a map of functions", f)
	}
	b := mkBound(fmt.Sprintf("k_%d", v.qd), "Int")
	keys := tFalse
	for _, x := range tab.maps[f] {
		keys = mkOr(keys, mkEq(b, x.key))
	}
	hs := u.mapHas(v.st, fv.typ, fv.one(), b)
	val := u.mapVal(v.st, fv.typ, fv.one(), b).one()
	body := mkAnd(mkEq(hs, keys), mkImp(hs, u.entryCond(tab, f, b, val, p.one())))
	return mkAnd(mkNot(mkEq(fv.one(), mkInt(0))), mkForall([]*Term{b}, body, []*Term{hs}, []*Term{val}))
}

// convertedFuncs lists the functions converted to a named function type anywhere in the repository.
func (e *Engine) convertedFuncs(key string) []*ssa.Function {
	var out []*ssa.Function
	con := e.specs.functypes[key]
	if con == nil {
		evfail("no contract for function type %s", key)
	}
	items, err := e.expandConverted(con)
	if err != nil {
		evfail("%v", err)
	}
	for _, w := range items {
		out = append(out, w.fn)
	}
	return out
}

// tableFor lists the functions of a function type that constructors install in maps.
func (e *Engine) tableFor(key string) (fns []*ssa.Function, found bool) {
	seen := map[*ssa.Function]bool{}
	for _, k := range sortedKeys(e.ctors) {
		tab := e.ctors[k]
		sst := tab.typ.Underlying().(*types.Struct)
		for i := 0; i < sst.NumFields(); i++ {
			m, ok := sst.Field(i).Type().Underlying().(*types.Map)
			if !ok || tname(m.Elem()) != key {
				continue
			}
			found = true
			for _, x := range tab.maps[sst.Field(i).Name()] {
				if !seen[x.fn] {
					seen[x.fn] = true
					fns = append(fns, x.fn)
				}
			}
		}
	}
	return
}

func (v *Env) extra(key string, clo *Term) *Term {
	u := v.u
	inTab := map[*ssa.Function]bool{}
	fns, _ := u.eng.tableFor(key)
	for _, f := range fns {
		inTab[f] = true
	}
	r := tFalse
	for _, f := range u.eng.convertedFuncs(key) {
		if !inTab[f] {
			r = mkOr(r, mkEq(u.fnidOf(clo), mkInt(int64(u.eng.fnID(f)))))
		}
	}
	return mkAnd(r, mkNot(mkEq(clo, mkInt(0))))
}

// capOK: the closure is one of the repository's functions of that type and its captured values satisfy the capture declarations.
func (v *Env) capOK(key string, clo *Term, owner *Term) *Term {
	u := v.u
	r := tFalse
	for _, f := range u.eng.convertedFuncs(key) {
		c := mkEq(u.fnidOf(clo), mkInt(int64(u.eng.fnID(f))))
		if c == tFalse {
			continue
		}
		r = mkOr(r, mkAnd(c, v.capInv(f, clo, owner)))
	}
	return mkAnd(mkNot(mkEq(clo, mkInt(0))), r)
}

func (v *Env) capInv(f *ssa.Function, clo, owner *Term) *Term {
	u := v.u
	c := tTrue
	for i, fv := range f.FreeVars {
		typ := fv.Type()
		if pt, ok := typ.Underlying().(*types.Pointer); ok && !strings.HasSuffix(f.Name(), "$bound") {
			typ = pt.Elem()
		}
		var ts []*Term
		for j, l := range u.eng.leaves(typ) {
			ts = append(ts, mkApp(u.eng.capName(f, i, j), l.sort, clo))
		}
		x := Value{typ: typ, t: ts}
		if pt, ok := typ.Underlying().(*types.Pointer); ok && u.eng.ctors[tname(pt.Elem())] != nil {
			if owner != nil {
				c = mkAnd(c, mkEq(ts[0], owner), mkEq(ownerOf(clo), owner))
			}
			continue
		}
		if cs := u.eng.specs.captures[tname(typ)]; cs != nil {
			nv := *v
			nv.vars = map[string]Value{}
			for k, y := range v.vars {
				nv.vars[k] = y
			}
			nv.vars[cs.self] = x
			for _, cl := range cs.cls {
				if !cl.active(u.prop) {
					continue
				}
				t, err := nv.tryBool(cl)
				mustClause(err)
				c = mkAnd(c, t)
			}
		} else if u.eng.invUsed() && (u.eng.nodeSpec(typ) != nil || u.eng.isNodeElem(typ)) {
			c = mkAnd(c, u.wfOf(v.st, x))
		}
	}
	return c
}

// onClosure records the owner of a closure that captures a constructed object.
func (u *Unit) onClosure(fr *Frame, st *State, ref *Term, fn *ssa.Function, x *ssa.MakeClosure) {
	for i, b := range x.Bindings {
		cv, ok := u.captureValue(fr, st, b, fn.FreeVars[i])
		if !ok {
			continue
		}
		if pt, ok := cv.typ.Underlying().(*types.Pointer); ok && u.eng.specs.ctors[tname(pt.Elem())] != "" {
			u.assume(st, mkEq(ownerOf(ref), cv.one()))
		}
	}
	u.assume(st, mkEq(mkApp("capstrs", "Int", ref), mkInt(int64(u.eng.capturedStrings(fn)))))
	// the first captured string, for contracts that speak about it
	for i, b := range x.Bindings {
		cv, ok := u.captureValue(fr, st, b, fn.FreeVars[i])
		if ok && len(cv.t) == 1 && cv.t[0].sort == "Str" {
			u.assume(st, mkEq(mkApp("capstr", "Str", ref), cv.t[0]))
			break
		}
	}
}

// capturedStrings is the number of strings a closure captures.
func (e *Engine) capturedStrings(f *ssa.Function) (n int) {
	for _, fv := range f.FreeVars {
		typ := fv.Type()
		if pt, ok := typ.Underlying().(*types.Pointer); ok && !strings.HasSuffix(f.Name(), "$bound") {
			typ = pt.Elem()
		}
		if b, ok := e.subst(typ).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			n++
		}
	}
	return
}

// bindSelf records what is known about the closure under verification.
func (u *Unit) bindSelf(f *ssa.Function, clo *Term) {
	u.assume(nil, mkEq(mkApp("capstrs", "Int", clo), mkInt(int64(u.eng.capturedStrings(f)))))
	str := false
	for i, fv := range f.FreeVars {
		typ := fv.Type()
		bound := strings.HasSuffix(f.Name(), "$bound")
		if pt, ok := typ.Underlying().(*types.Pointer); ok && !bound {
			typ = pt.Elem()
		}
		if pt, ok := typ.Underlying().(*types.Pointer); ok && u.eng.specs.ctors[tname(pt.Elem())] != "" {
			u.assume(nil, mkEq(ownerOf(clo), mkApp(u.eng.capName(f, i, 0), "Int", clo)))
		}
		if ls := u.eng.leaves(typ); !str && len(ls) == 1 && ls[0].sort == "Str" {
			str = true
			u.assume(nil, mkEq(mkApp("capstr", "Str", clo), mkApp(u.eng.capName(f, i, 0), "Str", clo)))
		}
	}
}

// constFieldCall calls a function held in a field that only the constructor sets.
func (u *Unit) constFieldCall(fr *Frame, st *State, f *Term, args []Value) (Value, bool, bool) {
	h, ok := u.fieldHint[f]
	if !ok {
		return Value{}, false, false
	}
	tab := u.eng.ctors[tname(h.root)]
	if tab == nil {
		return Value{}, false, false
	}
	fn := tab.funcs[strings.TrimPrefix(h.leaf, ".")]
	if fn == nil {
		return Value{}, false, false
	}
	u.assert(st, "table", "the function in field "+strings.TrimPrefix(h.leaf, ".")+" is the constructor's", nil, mkEq(mkApp("fnid", "Int", f), mkInt(int64(u.eng.fnID(fn)))))
	for i, fv := range fn.FreeVars {
		typ := fv.Type()
		if pt, ok := typ.Underlying().(*types.Pointer); ok {
			typ = pt.Elem()
		}
		if pt, ok := typ.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), h.root) {
			c := mkApp(u.eng.capName(fn, i, 0), "Int", f)
			u.assert(st, "table", "it belongs to the same object", nil, mkEq(ownerOf(f), h.owner))
			// closures installed by the constructor capture the object they are installed in
			u.assume(st, mkEq(c, ownerOf(f)))
			if u.capSubst == nil {
				u.capSubst = map[*Term]*Term{}
			}
			// ... which is the owner, as just shown
			u.capSubst[c] = h.owner
			defer delete(u.capSubst, c)
		}
	}
	v, ok2 := u.callFunc(fr, st, fn, f, args, nil)
	return v, true, ok2
}

// callMeasure: recursion through contracts of one group must decrease the measure.
func (u *Unit) callMeasure(st *State, con *Contract, env *Env) {
	if u.con != nil {
		u.eng.callEdges[[2]*Contract{u.con, con}] = true
	}
	if u.con == nil || con.decrGroup == "" || con.decrGroup != u.con.decrGroup || len(u.measure0) == 0 {
		return
	}
	var m []*Term
	for _, c := range con.decr {
		v, err := env.tryVal(c)
		mustClause(err)
		m = append(m, v.one())
	}
	less := tFalse
	eq := tTrue
	for i := range m {
		less = mkOr(less, mkAnd(eq, mkLt(m[i], u.measure0[i]), mkLe(mkInt(0), u.measure0[i])))
		eq = mkAnd(eq, mkEq(m[i], u.measure0[i]))
	}
	u.assert(st, "safety:decreases", "recursion through "+con.key+" gets closer to the end", nil, less)
}

// unboundedRecursion finds contracts that may call themselves without a common measure.
func (e *Engine) unboundedRecursion() (out []string) {
	ok := func(a, b *Contract) bool { return a.decrGroup != "" && a.decrGroup == b.decrGroup }
	adj := map[*Contract][]*Contract{}
	for ed := range e.callEdges {
		adj[ed[0]] = append(adj[ed[0]], ed[1])
	}
	reach := func(a, b *Contract) bool {
		seen := map[*Contract]bool{}
		st := []*Contract{a}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == b {
				return true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			st = append(st, adj[x]...)
		}
		return false
	}
	for ed := range e.callEdges {
		if !ok(ed[0], ed[1]) && reach(ed[1], ed[0]) {
			out = append(out, fmt.Sprintf("recursion between %s and %s has no common measure", ed[0].key, ed[1].key))
		}
	}
	return
}

// invUsed: some node invariant is active for the property.
func (e *Engine) invUsed() bool {
	for _, w := range e.specs.wf {
		for _, c := range w.cls {
			if c.active(e.prop) {
				return true
			}
		}
	}
	return false
}
