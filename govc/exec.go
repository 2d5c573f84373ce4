package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the symbolic machine state on one control-flow path (or merged paths).
type State struct {
	pc   []*Term
	heap map[string]*Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{pc: append([]*Term{}, s.pc...), heap: h}
}

func (s *State) guard() *Term { return mkAnd(s.pc...) }

func (s *State) with(c *Term) *State {
	n := s.clone()
	if c != tTrue {
		n.pc = append(n.pc, c)
	}
	return n
}

// Oblig describes one proof obligation.
type Oblig struct {
	Kind  string   `json:"kind"`
	Label string   `json:"label"`
	Tags  []string `json:"tags"`
	Func  string   `json:"func"`
	Pos   string   `json:"pos"`
	alts  []*Term  // termination alternatives
	// result
	Status string  `json:"status"`
	Solver string  `json:"solver"`
	Ms     float64 `json:"ms"`
	Model  string  `json:"model,omitempty"`
	Unit   string  `json:"unit"`
	script string
}

type Item struct {
	kind    string // assume, assert, cand
	t       *Term
	ob      *Oblig
	cand    int     // candidate number (assume under activation / check)
	defines *Term   // pure definition of this symbol
	split   []*Term // goals that together imply t
}

type Candidate struct {
	desc string
	on   bool
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
}

type write struct {
	name string
	ref  *Term // nil: whole array
	sort string
}

type Unit struct {
	eng          *Engine
	name         string
	fn           *ssa.Function
	con          *Contract
	branches     []*Term // the conditions branched on
	items        []*Item
	cands        []*Candidate
	alloc        *Term // current allocation bound (global chain)
	alloc0       *Term
	entry        *State
	facts        map[*Term]int
	closures     map[*Term]*Closure
	writes       *[]write
	dry          int
	stack        []*Frame
	top          *Frame
	targets      map[string][]*Term // frame: permitted references per heap array
	anyWrite     bool
	locals       []localObj
	leafSort     map[string]string
	specEnv      map[string]Value
	pos          token.Pos
	measure0     []*Term
	isInit       bool
	level        int
	noSafety     bool
	fieldHint    map[*Term]fieldOrigin
	capSubst     map[*Term]*Term
	errs         []string
	unrolled     int
	paramSyms    []*Term
	prop         string
	inlined      map[string]bool
	loopPre      *State
	panicOK      *Term
	wholeOK      map[string]bool
	neverReturns bool
	candChanged  bool
	newObjs      []newObj
	preFinished  map[*Term]bool // nodes that a loop may find finished
	nodeAlloc    bool
	nodeful      string // why the function may create nodes
	assumed      map[*Term][]assumedAt
	selfClo      *Term
	selfFn       *ssa.Function
	track        map[string]bool // heap parts read by the evaluation in progress
	hadNodes     bool
	madeObjs     []newObj
	expand       map[*Term][]*Term // what a nodesok atom stands for
}

type fieldOrigin struct {
	root  types.Type
	leaf  string
	owner *Term
}

type localObj struct {
	ref *Term
	typ types.Type
	pc  *Term
}

type deferRec struct {
	pc   []*Term
	call *ssa.Defer
	args []Value
	fnv  Value
}

type Frame struct {
	fn       *ssa.Function
	regs     map[ssa.Value]Value
	free     []Value
	self     *Term
	defers   []deferRec
	rets     []retRec
	loops    map[*ssa.BasicBlock]*loopInfo
	depth    int
	args     []Value
	capByVal map[int]Value
}

type retRec struct {
	st   *State
	vals []Value
	pos  token.Pos
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

func (u *Unit) assume(st *State, t *Term) {
	if t == tTrue {
		return
	}
	g := tTrue
	if st != nil {
		g = st.guard()
	}
	it := &Item{kind: "assume", t: mkImp(g, t), cand: -1}
	u.items = append(u.items, it)
	for _, c := range deepConjuncts(t) {
		if c.op == "forall" || c.op == "app" {
			var pc []*Term
			if st != nil {
				pc = append(pc, st.pc...)
			}
			u.assumed[c] = append(u.assumed[c], assumedAt{len(u.items) - 1, it, pc})
		}
	}
}

type assumedAt struct {
	n  int
	it *Item
	pc []*Term
}

// dropAssumed removes the quantified conjuncts of t that are literally assumed already.
func (u *Unit) dropAssumed(st *State, t *Term) *Term {
	cs := deepConjuncts(t)
	var out []*Term
	for _, c := range cs {
		if (c.op == "forall" || c.op == "app") && u.isAssumed(st, c) {
			continue
		}
		out = append(out, c)
	}
	if len(out) == len(cs) {
		return t
	}
	return mkAnd(out...)
}

func (u *Unit) isAssumed(st *State, c *Term) bool {
	var have map[*Term]bool
	for _, a := range u.assumed[c] {
		if a.n >= len(u.items) || u.items[a.n] != a.it {
			continue
		}
		if len(a.pc) == 0 {
			return true
		}
		if st == nil {
			continue
		}
		if have == nil {
			have = map[*Term]bool{}
			for _, p := range st.pc {
				for _, x := range deepConjuncts(p) {
					have[x] = true
				}
			}
		}
		ok := true
		for _, p := range a.pc {
			for _, x := range deepConjuncts(p) {
				ok = ok && have[x]
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func deepConjuncts(t *Term) (out []*Term) {
	if t.op == "app" && t.name == "and" {
		for _, a := range t.args {
			out = append(out, deepConjuncts(a)...)
		}
		return
	}
	return []*Term{t}
}

func (u *Unit) assumeDef(sym *Term, t *Term) {
	if t == tTrue {
		return
	}
	u.items = append(u.items, &Item{kind: "assume", t: t, cand: -1, defines: sym})
}

func (u *Unit) curFunc() string {
	if len(u.stack) > 0 {
		return fnKey(u.stack[len(u.stack)-1].fn)
	}
	return u.name
}

func (u *Unit) assert(st *State, kind, label string, tags []string, t *Term) {
	if st != nil {
		for _, p := range st.pc {
			if p == tFalse {
				return
			}
		}
	}
	g := tTrue
	if st != nil {
		g = st.guard()
	}
	u.hadNodes = false
	if t = u.dropNodes(t); t == tTrue && u.hadNodes {
		return
	}
	t = u.dropAssumed(st, t)
	ob := &Oblig{Kind: kind, Label: label, Tags: tags, Func: u.curFunc(), Pos: u.eng.prog.pos(u.pos)}
	u.items = append(u.items, &Item{kind: "assert", t: mkImp(g, t), ob: ob, cand: -1})
}

func (u *Unit) safety(st *State, kind string, t *Term) {
	if t == tTrue {
		// count trivially true obligations as discharged by simplification
	}
	if u.panicOK != nil {
		u.assert(st, "safety:"+kind, kind, nil, mkOr(u.panicOK, t))
		u.assume(st, t)
		return
	}
	u.assert(st, "safety:"+kind, kind, nil, t)
}

func (u *Unit) newAlloc(prefix string) *Term {
	r := tt.fresh("n_"+prefix, "Int")
	r.newRef = true
	u.assumeDef(nil, mkEq(u.alloc, r))
	if len(u.eng.specs.wf) > 0 && !u.nodeAlloc {
		u.assumeDef(r, mkEq(rtype(r), mkInt(-1)))
	}
	u.alloc = mkAdd(r, mkInt(1))
	return r
}

// noNodesSince: none of the objects allocated since then is a node.
func (u *Unit) noNodesSince(a *Term) {
	if len(u.eng.specs.wf) == 0 {
		return
	}
	b := mkBound("n_0", "Int")
	u.assumeDef(nil, mkForall([]*Term{b}, mkImp(mkAnd(mkLe(a, b), mkLt(b, u.alloc)), mkEq(rtype(b), mkInt(-1))), []*Term{rtype(b)}))
}

// bumpAlloc moves the allocation bound to an unknown later point.
func (u *Unit) bumpAlloc() {
	a := tt.fresh("A", "Int")
	u.assumeDef(nil, mkLe(u.alloc, a))
	u.alloc = a
}

// ---------- heap access ----------

func (u *Unit) sortOfName(name, leafSort string) string {
	switch name[:2] {
	case "O|":
		return arrSort("Int", leafSort)
	case "E|":
		return arrSort("Int", arrSort("Int", leafSort))
	}
	return leafSort // maps and ghosts pass the full sort
}

func (u *Unit) get(st *State, name, leafSort string) *Term {
	u.leafSort[name] = leafSort
	if u.track != nil {
		u.track[name] = true
	}
	if t, ok := st.heap[name]; ok {
		return t
	}
	t := u.alloc0
	if name != nodeBound && name != frozenBound {
		t = u.eng.initialHeap(name, u.sortOfName(name, leafSort), u.isInit)
	}
	st.heap[name] = t
	return t
}

func (u *Unit) put(st *State, name, leafSort string, ref, val *Term) {
	a := u.get(st, name, leafSort)
	st.heap[name] = mkStore(a, ref, val)
	u.noteWrite(st, name, leafSort, ref)
}

func (u *Unit) noteWrite(st *State, name, leafSort string, ref *Term) {
	if u.writes != nil {
		*u.writes = append(*u.writes, write{name, ref, leafSort})
	}
	if u.anyWrite || u.isInit || u.wholeOK[name] || strings.HasPrefix(name, "G|") {
		return
	}
	if ref.newRef && ref.serial > u.entrySerial() {
		return
	}
	ok := mkLe(u.alloc0, ref)
	for _, t := range u.targets[name] {
		ok = mkOr(ok, mkEq(ref, t))
	}
	if ok != tTrue && strings.HasPrefix(name, "E|") { // a nil slice has no elements
		ok = mkOr(ok, mkEq(ref, mkInt(0)))
	}
	ok = iteDistribFresh(ref, ok, u)
	if ok == tTrue {
		return
	}
	u.assert(st, "frame", "writes only what modifies allows: "+name, nil, ok)
}

func iteDistribFresh(ref, def *Term, u *Unit) *Term { return def }

func (u *Unit) entrySerial() int { return u.alloc0.serial }

func zeroTerm(sort string) *Term {
	switch sort {
	case "Int":
		return mkInt(0)
	case "Bool":
		return tFalse
	case "Str":
		return strConst("")
	case "F64":
		return mkOp("f64zero", "F64")
	case "F32":
		return mkOp("f32zero", "F32")
	}
	if strings.HasPrefix(sort, "(Array ") {
		_, es := elemSort(sort)
		return mkConstArr(sort, zeroTerm(es))
	}
	panic("zero of " + sort)
}

func (u *Unit) zero(t types.Type) Value {
	var ts []*Term
	for _, l := range u.eng.leaves(t) {
		ts = append(ts, zeroTerm(l.sort))
	}
	return Value{typ: t, t: ts}
}

// fresh makes an unconstrained value of type t (with type facts).
func (u *Unit) freshVal(prefix string, t types.Type) Value {
	var ts []*Term
	for _, l := range u.eng.leaves(t) {
		s := tt.fresh(prefix+clean(l.path), l.sort)
		if l.sort == "Int" && isRefLeaf(l) {
			s.isRef = true
		}
		ts = append(ts, s)
	}
	v := Value{typ: t, t: ts}
	u.typeFacts(v)
	return v
}

func isRefLeaf(l Leaf) bool {
	switch l.part {
	case "arr", "dat":
		return true
	case "":
		switch l.typ.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
			return true
		}
	}
	return false
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func intRange(b *types.Basic) (lo, hi *big.Int) {
	bits := uint(64)
	signed := true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	}
	if signed {
		hi = new(big.Int).Lsh(big.NewInt(1), bits-1)
		lo = new(big.Int).Neg(hi)
		hi.Sub(hi, big.NewInt(1))
		return
	}
	hi = new(big.Int).Lsh(big.NewInt(1), bits)
	return new(big.Int), hi.Sub(hi, big.NewInt(1))
}

func (u *Unit) fact1(t *Term, f *Term) {
	if f == tTrue || t.bound {
		return
	}
	u.items = append(u.items, &Item{kind: "assume", t: f, cand: -1})
}

// typeFacts records what the Go type of a value guarantees.
func (u *Unit) typeFacts(v Value) {
	ls := u.eng.leaves(v.typ)
	for i, l := range ls {
		if i >= len(v.t) {
			break
		}
		t := v.t[i]
		if t.bound || t.op == "int" || t.sort != "Int" {
			continue
		}
		if n, ok := u.facts[t]; ok && n < len(u.items) {
			continue
		}
		u.facts[t] = len(u.items)
		switch l.part {
		case "arr":
			ln, cp := v.t[i+2], v.t[i+3]
			u.fact1(t, mkAnd(mkLt(t, u.alloc), mkImp(mkEq(t, mkInt(0)), mkEq(cp, mkInt(0)))))
			u.fact1(t, mkAnd(mkLe(mkInt(0), v.t[i+1]), mkLe(mkInt(0), ln), mkLe(ln, cp), mkLe(mkAdd(v.t[i+1], cp), mkBig(new(big.Int).Lsh(big.NewInt(1), 62)))))
		case "tag":
			u.fact1(t, mkAnd(mkLe(mkInt(0), t), mkImp(mkEq(t, mkInt(0)), mkEq(v.t[i+1], mkInt(0)))))
		case "dat":
			u.fact1(t, mkLt(t, u.alloc))
		case "":
			switch b := l.typ.Underlying().(type) {
			case *types.Basic:
				if b.Info()&types.IsInteger != 0 {
					lo, hi := intRange(b)
					u.fact1(t, mkAnd(mkLe(mkBig(lo), t), mkLe(t, mkBig(hi))))
				}
			case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
				u.fact1(t, mkLt(t, u.alloc))
			}
		}
	}
}

func (u *Unit) addrOf(v Value) *Addr {
	if v.addr != nil {
		return v.addr
	}
	p, ok := u.eng.under(v.typ).(*types.Pointer)
	if !ok {
		panic("addrOf non-pointer " + v.typ.String())
	}
	el := u.eng.subst(p.Elem())
	if arr, ok := el.Underlying().(*types.Array); ok {
		// pointer to array object: lives in the element heap
		_ = arr
		return &Addr{elem: true, root: arr.Elem(), ref: v.one(), idx: nil, typ: el}
	}
	return &Addr{root: el, ref: v.one(), typ: el}
}

func (u *Unit) load(st *State, a *Addr) Value {
	if a.elem && a.idx == nil { // whole array object
		arr := a.typ.Underlying().(*types.Array)
		var ts []*Term
		for _, l := range u.eng.leaves(arr.Elem()) {
			ts = append(ts, mkSelect(u.get(st, elemArr(arr.Elem(), l), l.sort), a.ref))
		}
		return Value{typ: a.typ, t: ts}
	}
	ls := u.eng.leaves(a.root)
	n := len(u.eng.leaves(a.typ))
	var ts []*Term
	for i := a.lo; i < a.lo+n; i++ {
		l := ls[i]
		if a.elem {
			ts = append(ts, mkSelect(mkSelect(u.get(st, elemArr(a.root, l), l.sort), a.ref), a.idx))
		} else {
			x := mkSelect(u.get(st, objArr(a.root, l), l.sort), a.ref)
			ts = append(ts, x)
			if isRefLeaf(l) && l.part == "" {
				if _, ok := l.typ.Underlying().(*types.Signature); ok {
					u.fieldHint[x] = fieldOrigin{a.root, l.path, a.ref}
				}
			}
		}
	}
	v := Value{typ: a.typ, t: ts}
	u.typeFacts(v)
	return v
}

func (u *Unit) store(st *State, a *Addr, v Value) {
	if a.elem && a.idx == nil {
		arr := a.typ.Underlying().(*types.Array)
		for i, l := range u.eng.leaves(arr.Elem()) {
			u.put(st, elemArr(arr.Elem(), l), l.sort, a.ref, v.t[i])
		}
		return
	}
	ls := u.eng.leaves(a.root)
	n := len(u.eng.leaves(a.typ))
	ts := v.t
	if v.addr != nil {
		ts = []*Term{v.one()}
	}
	if len(ts) != n {
		panic(fmt.Sprintf("store: %d leaves into %d (%s)", len(ts), n, a.typ))
	}
	u.checkPacked(st, a)
	for i := 0; i < n; i++ {
		l := ls[a.lo+i]
		if a.elem {
			name := elemArr(a.root, l)
			row := mkSelect(u.get(st, name, l.sort), a.ref)
			u.put(st, name, l.sort, a.ref, mkStore(row, a.idx, ts[i]))
		} else {
			u.put(st, objArr(a.root, l), l.sort, a.ref, ts[i])
		}
	}
}

// newObject allocates and zeroes an object of type t.
func (u *Unit) newObject(st *State, t types.Type) Value {
	t = u.eng.subst(t)
	u.nodeAlloc = u.eng.specs.wf[tname(t)] != nil
	r := u.newAlloc(tname(t))
	u.nodeAlloc = false
	if arr, ok := t.Underlying().(*types.Array); ok {
		for _, l := range u.eng.leaves(arr.Elem()) {
			u.put(st, elemArr(arr.Elem(), l), l.sort, r, mkConstArr(arrSort("Int", l.sort), zeroTerm(l.sort)))
		}
		u.onNewArray(st, r, arr.Elem())
	} else {
		for _, l := range u.eng.leaves(t) {
			u.put(st, objArr(t, l), l.sort, r, zeroTerm(l.sort))
		}
		u.madeObjs = append(u.madeObjs, newObj{ref: r, typ: t})
		u.onNewObject(st, r, t)
		if c := u.eng.specs.counts[tname(t)]; c != nil && c.active(u.prop) {
			name := "G|" + c.label
			n := u.get(st, name, "Int")
			st.heap[name] = mkAdd(n, mkInt(1))
			if u.writes != nil {
				*u.writes = append(*u.writes, write{name, nil, "Int"})
			}
			if !u.anyWrite && !u.isInit && !u.wholeOK[name] {
				u.assert(st, "frame", "allocates what "+c.label+" counts", nil, tFalse)
			}
		}
	}
	return Value{typ: types.NewPointer(t), t: []*Term{r}}
}

// ---------- states ----------

func commonPrefix(a, b []*Term) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

// mergeStates joins path states; it returns the selector conditions, one per state.
func mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{tTrue}
	}
	n := len(sts[0].pc)
	for _, s := range sts[1:] {
		if k := commonPrefix(sts[0].pc, s.pc); k < n {
			n = k
		}
	}
	var res []*Term
	for _, s := range sts {
		res = append(res, mkAnd(s.pc[n:]...))
	}
	out := &State{pc: append([]*Term{}, sts[0].pc[:n]...), heap: map[string]*Term{}}
	or := simplOr(res)
	if or != tTrue {
		out.pc = append(out.pc, or)
	}
	names := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			names[k] = true
		}
	}
	return out, res
}

// simplOr is a disjunction that recognises complementary last conjuncts.
func simplOr(ts []*Term) *Term {
	ts = append([]*Term{}, ts...)
	for {
		changed := false
	outer:
		for i := 0; i < len(ts); i++ {
			for j := i + 1; j < len(ts); j++ {
				if m := mergeComp(ts[i], ts[j]); m != nil {
					ts[i] = m
					ts = append(ts[:j], ts[j+1:]...)
					changed = true
					break outer
				}
			}
		}
		if !changed {
			if len(ts) > 1 && tautology(ts, 0) {
				return tTrue
			}
			return mkOr(ts...)
		}
	}
}

// tautology decides by cases on the atoms whether a disjunction of path conditions holds always.
func tautology(ts []*Term, depth int) bool {
	var a *Term
	small := true
	for _, t := range ts {
		if t == tTrue {
			return true
		}
		x := firstAtom(t)
		if x != nil && (a == nil || x.id < a.id) {
			a = x
		}
		small = small && t == tFalse
	}
	if small || a == nil || depth > 24 {
		return false
	}
	for _, v := range []bool{true, false} {
		m, memo := decide(a, v), map[*Term]*Term{}
		var n []*Term
		for _, t := range ts {
			if r := substTerm(t, m, memo); r != tFalse {
				n = append(n, r)
			}
		}
		if !tautology(n, depth+1) {
			return false
		}
	}
	return true
}

// firstAtom is the earliest atom of a boolean combination.
func firstAtom(t *Term) (best *Term) {
	if t == tTrue || t == tFalse {
		return nil
	}
	if t.op == "app" && (t.name == "and" || t.name == "or" || t.name == "not" || t.name == "=>") {
		for _, x := range t.args {
			if y := firstAtom(x); y != nil && (best == nil || y.id < best.id) {
				best = y
			}
		}
		return
	}
	return t
}

func conjuncts(t *Term) []*Term {
	if t == tTrue {
		return nil
	}
	if t.op == "app" && t.name == "and" {
		return t.args
	}
	return []*Term{t}
}

func mergeComp(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	n := commonPrefix(ca, cb)
	ra, rb := mkAnd(ca[n:]...), mkAnd(cb[n:]...)
	if ra == mkNot(rb) || rb == mkNot(ra) || ra == tTrue || rb == tTrue {
		return mkAnd(ca[:n]...)
	}
	return nil
}

func (u *Unit) merge(sts []*State) (*State, []*Term) {
	out, res := mergeStates(sts)
	if len(sts) == 1 {
		return out, res
	}
	names := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			names[k] = true
		}
	}
	for _, k := range sortedKeys(names) {
		var t *Term
		for i := len(sts) - 1; i >= 0; i-- {
			x := u.get(sts[i], k, u.leafSort[k])
			if t == nil {
				t = x
			} else {
				t = u.mergeTerm(res[i], x, t)
			}
		}
		out.heap[k] = t
	}
	return out, res
}

func (u *Unit) mergeTerm(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	// merge stores at the same reference over the same base: keeps one array term
	if a.op == "app" && b.op == "app" && strings.HasPrefix(a.sort, "(Array") {
		if m := mergeArr(c, a, b); m != nil {
			return m
		}
	}
	return mkIte(c, a, b)
}

// mergeArr merges two store chains over a common base.
func mergeArr(c, a, b *Term) *Term {
	type ent struct{ i *Term }
	chain := func(t *Term) ([]*Term, map[*Term]bool) {
		var out []*Term
		set := map[*Term]bool{}
		for t.op == "app" && t.name == "store" {
			out = append(out, t)
			set[t] = true
			t = t.args[0]
		}
		out = append(out, t)
		set[t] = true
		return out, set
	}
	ca, _ := chain(a)
	cb, sb := chain(b)
	var base *Term
	na := 0
	for i, t := range ca {
		if sb[t] {
			base, na = t, i
			break
		}
	}
	if base == nil {
		return nil
	}
	nb := 0
	for i, t := range cb {
		if t == base {
			nb = i
			break
		}
	}
	if na+nb > 40 {
		return nil
	}
	var idx []*Term
	seen := map[*Term]bool{}
	for i := na - 1; i >= 0; i-- {
		if x := ca[i].args[1]; !seen[x] {
			seen[x] = true
			idx = append(idx, x)
		}
	}
	for i := nb - 1; i >= 0; i-- {
		if x := cb[i].args[1]; !seen[x] {
			seen[x] = true
			idx = append(idx, x)
		}
	}
	// all indices must be pairwise distinct for the merged chain to be exact
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			if idx[i].sort != "Int" || !distinctIdx(idx[i], idx[j]) {
				if !(isStrConst(idx[i]) && isStrConst(idx[j])) {
					return nil
				}
			}
		}
	}
	r := base
	for _, x := range idx {
		va, vb := mkSelect(a, x), mkSelect(b, x)
		var v *Term
		if va == vb {
			v = va
		} else if strings.HasPrefix(va.sort, "(Array") {
			v = mergeArr(c, va, vb)
			if v == nil {
				v = mkIte(c, va, vb)
			}
		} else {
			v = mkIte(c, va, vb)
		}
		r = mkStore(r, x, v)
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func mergeVals(res []*Term, vs []Value) Value {
	out := vs[len(vs)-1]
	if out.tup != nil {
		n := Value{typ: out.typ}
		for i := range out.tup {
			var xs []Value
			for _, v := range vs {
				xs = append(xs, v.tup[i])
			}
			n.tup = append(n.tup, mergeVals(res, xs))
		}
		return n
	}
	same := true
	for _, v := range vs {
		if v.addr != nil && v.addr != out.addr {
			same = false
		}
	}
	if out.addr != nil && same {
		return out
	}
	conv := func(v Value) []*Term {
		if v.addr != nil {
			return []*Term{v.one()}
		}
		return v.t
	}
	ts := append([]*Term{}, conv(out)...)
	for i := len(vs) - 2; i >= 0; i-- {
		x := conv(vs[i])
		for j := range ts {
			ts[j] = mkIte(res[i], x[j], ts[j])
		}
	}
	return Value{typ: out.typ, t: ts}
}

// ---------- functions ----------

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return loops
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// execFunc runs a function body; it returns the return records.
func (u *Unit) execFunc(fr *Frame, st *State) []retRec {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", fn)
	}
	if len(u.stack) > 40 {
		unsupported("inlining too deep at %s", fn)
	}
	fr.loops = findLoops(fn)
	u.stack = append(u.stack, fr)
	defer func() { u.stack = u.stack[:len(u.stack)-1] }()
	order := rpo(fn)
	pend := map[*ssa.BasicBlock][]edge{}
	pend[fn.Blocks[0]] = []edge{{nil, st}}
	u.region(fr, order, nil, pend)
	return fr.rets
}

// region processes blocks in reverse postorder. Edges leaving the set are left in pend.
func (u *Unit) region(fr *Frame, order []*ssa.BasicBlock, within *loopInfo, pend map[*ssa.BasicBlock][]edge) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		if done[b] || within != nil && (!within.blocks[b] || b == within.header) {
			continue
		}
		in := pend[b]
		if len(in) == 0 {
			continue
		}
		delete(pend, b)
		if l, ok := fr.loops[b]; ok && (within == nil || l != within) {
			u.loop(fr, order, l, in, pend)
			for x := range l.blocks {
				done[x] = true
			}
			continue
		}
		st := u.enter(fr, b, in)
		u.block(fr, b, st, pend)
	}
}

// enter merges the incoming edges and defines the phis.
func (u *Unit) enter(fr *Frame, b *ssa.BasicBlock, in []edge) *State {
	var sts []*State
	for _, e := range in {
		sts = append(sts, e.st)
	}
	st, res := u.merge(sts)
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Value
		for _, e := range in {
			vs = append(vs, u.val(fr, phi.Edges[predIndex(b, e.from)]))
		}
		v := mergeVals(res, vs)
		v.typ = phi.Type()
		fr.regs[phi] = v
	}
	return st
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("no such predecessor")
}

func (u *Unit) block(fr *Frame, b *ssa.BasicBlock, st *State, pend map[*ssa.BasicBlock][]edge) {
	for _, ins := range b.Instrs {
		if p := ins.Pos(); p.IsValid() {
			u.pos = p
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := u.val(fr, x.Cond).one()
			if c != tTrue && c != tFalse {
				u.branches = append(u.branches, c)
			}
			if c != tFalse {
				s := st.with(c)
				pend[b.Succs[0]] = append(pend[b.Succs[0]], edge{b, s})
			}
			if c != tTrue {
				s := st.with(mkNot(c))
				pend[b.Succs[1]] = append(pend[b.Succs[1]], edge{b, s})
			}
			return
		case *ssa.Jump:
			pend[b.Succs[0]] = append(pend[b.Succs[0]], edge{b, st})
			return
		case *ssa.Return:
			var vs []Value
			for _, r := range x.Results {
				v := u.val(fr, r)
				v.typ = r.Type()
				vs = append(vs, v)
			}
			fr.rets = append(fr.rets, retRec{st, vs, x.Pos()})
			return
		case *ssa.Panic:
			u.safety(st, "panic", tFalse)
			return
		default:
			if !u.instr(fr, st, ins) {
				return
			}
		}
	}
}

// ---------- loops ----------

func (u *Unit) headerCond(fr *Frame, l *loopInfo, in []edge, order []*ssa.BasicBlock) *Term {
	// evaluate the header block in dry mode with the entry values
	save := u.snapshot()
	defer u.restore(save)
	saveRegs := copyRegs(fr.regs)
	defer func() { fr.regs = saveRegs }()
	var ins2 []edge
	for _, e := range in {
		ins2 = append(ins2, edge{e.from, e.st.clone()})
	}
	st := u.enter(fr, l.header, ins2)
	pend := map[*ssa.BasicBlock][]edge{}
	u.block(fr, l.header, st, pend)
	if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
		return u.val(fr, iff.Cond).one()
	}
	return nil
}

func copyRegs(m map[ssa.Value]Value) map[ssa.Value]Value {
	n := make(map[ssa.Value]Value, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

type snapshot struct {
	nObjs                   int
	nItems, nCands, nLocals int
	alloc                   *Term
	rets                    []int
	defers                  []int
	closures                map[*Term]*Closure
	pos                     token.Pos
	writes                  *[]write
}

func (u *Unit) snapshot() snapshot {
	s := snapshot{nItems: len(u.items), nCands: len(u.cands), nLocals: len(u.locals), nObjs: len(u.newObjs), alloc: u.alloc, pos: u.pos, writes: u.writes}
	for _, f := range u.stack {
		s.rets = append(s.rets, len(f.rets))
		s.defers = append(s.defers, len(f.defers))
	}
	u.dry++
	var w []write
	u.writes = &w
	return s
}

func (u *Unit) restore(s snapshot) {
	u.items = u.items[:s.nItems]
	u.cands = u.cands[:s.nCands]
	u.locals = u.locals[:s.nLocals]
	u.newObjs = u.newObjs[:s.nObjs]
	u.alloc = s.alloc
	u.pos = s.pos
	u.writes = s.writes
	for i, f := range u.stack {
		if i < len(s.rets) {
			f.rets = f.rets[:s.rets[i]]
			f.defers = f.defers[:s.defers[i]]
		}
	}
	for t, n := range u.facts {
		if n >= s.nItems {
			delete(u.facts, t)
		}
	}
	u.dry--
}

func (u *Unit) loop(fr *Frame, order []*ssa.BasicBlock, l *loopInfo, in []edge, pend map[*ssa.BasicBlock][]edge) {
	// constant trip count: unroll
	if c := u.headerCond(fr, l, in, order); c != nil && (c == tTrue || c == tFalse) {
		cur := in
		for iter := 0; ; iter++ {
			if iter > 600 {
				unsupported("loop unrolling limit in %s", fr.fn)
			}
			st := u.enter(fr, l.header, cur)
			lp := map[*ssa.BasicBlock][]edge{}
			u.block(fr, l.header, st, lp)
			u.region(fr, order, l, lp)
			cur = lp[l.header]
			delete(lp, l.header)
			for b, es := range lp {
				pend[b] = append(pend[b], es...)
			}
			if len(cur) == 0 {
				return
			}
			if c := u.headerCond(fr, l, cur, order); c == nil || c != tTrue && c != tFalse {
				unsupported("loop in %s stops unrolling after %d iterations", fr.fn, iter)
			}
		}
	}
	stIn := u.enter(fr, l.header, in)
	u.finishLeaves(stIn)
	phiInit := map[*ssa.Phi]Value{}
	var phis []*ssa.Phi
	for _, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		phiInit[phi] = fr.regs[phi]
	}
	marker := tt.fresh("loop", "Bool").serial
	allocIn := u.alloc

	// write set by repeated dry runs
	W := map[string]write{} // key name|refid
	whole := map[string]bool{}
	fresh := map[string]bool{} // whole, but only freshly allocated objects
	var hdr *State
	setup := func() *State {
		u.bumpAlloc()
		h := stIn.clone()
		for _, phi := range phis {
			nm := phi.Comment
			if nm == "" {
				nm = phi.Name()
			}
			iv := phiInit[phi]
			if iv.addr != nil {
				continue
			}
			fr.regs[phi] = u.freshVal("phi_"+nm, phi.Type())
		}
		for _, k := range sortedKeys(whole) {
			ls := u.leafSort[k]
			nw := tt.fresh("h_"+k, u.sortOfName(k, ls))
			h.heap[k] = nw
			if u.writes != nil {
				*u.writes = append(*u.writes, write{k, nil, ls})
			}
			if k == nodeBound || k == frozenBound {
				u.assumeDef(nw, mkAnd(mkLe(u.get(stIn, k, ls), nw), mkLe(nw, u.alloc)))
			}
		}
		for _, k := range sortedKeys(fresh) {
			if whole[k] {
				continue
			}
			ls := u.leafSort[k]
			nw := tt.fresh("h_"+k, u.sortOfName(k, ls))
			old := u.get(stIn, k, ls)
			r := mkBound("r", "Int")
			ex := mkLt(r, allocIn)
			for _, wk := range sortedKeys(W) {
				if w := W[wk]; w.name == k {
					ex = mkAnd(ex, mkNot(mkEq(r, w.ref)))
				}
			}
			u.assumeDef(nw, mkForall([]*Term{r}, mkImp(ex, mkEq(mkSelect(nw, r), mkSelect(old, r))), []*Term{mkSelect(nw, r)}))
			h.heap[k] = nw
		}
		for _, wk := range sortedKeys(W) {
			w := W[wk]
			if whole[w.name] || fresh[w.name] {
				continue
			}
			a := u.get(h, w.name, w.sort)
			_, es := elemSort(a.sort)
			fv := tt.fresh("hv_"+w.name, es)
			h.heap[w.name] = mkStore(a, w.ref, fv)
			u.heapFacts(w.name, fv)
		}
		return h
	}
	for round := 0; ; round++ {
		if round > 12 {
			unsupported("loop write set does not stabilise in %s", fr.fn)
		}
		save := u.snapshot()
		saveRegs := copyRegs(fr.regs)
		h := setup()
		lp := map[*ssa.BasicBlock][]edge{}
		var ws []write
		u.writes = &ws
		u.block(fr, l.header, h, lp)
		u.region(fr, order, l, lp)
		for _, e := range lp[l.header] {
			u.finishLeaves(e.st)
		}
		changed := false
		for _, w := range ws {
			if whole[w.name] {
				continue
			}
			u.leafSort[w.name] = w.sort
			switch {
			case w.ref == nil:
				whole[w.name] = true
				changed = true
			case w.ref.serial > marker && w.ref.newRef:
				if !fresh[w.name] {
					fresh[w.name] = true
					changed = true
				}
			case w.ref.serial > marker:
				whole[w.name] = true
				changed = true
			default:
				k := fmt.Sprintf("%s|%06d", w.name, w.ref.id)
				if _, ok := W[k]; !ok {
					W[k] = w
					changed = true
				}
			}
		}
		fr.regs = saveRegs
		u.restore(save)
		if !changed {
			break
		}
	}
	// propagate the write set outwards
	if u.writes != nil {
		for k := range whole {
			*u.writes = append(*u.writes, write{k, nil, u.leafSort[k]})
		}
		for k := range fresh {
			if !whole[k] {
				*u.writes = append(*u.writes, write{k, mkFreshMarker(), u.leafSort[k]})
			}
		}
		for _, w := range W {
			*u.writes = append(*u.writes, w)
		}
	}
	hdr = setup()
	hs := hdr.clone()
	phiSyms := map[*ssa.Phi]Value{}
	for _, phi := range phis {
		phiSyms[phi] = fr.regs[phi]
	}

	// candidate invariants
	type cnd struct {
		id    int
		label string
		eval  func(st *State, phi map[*ssa.Phi]Value) *Term
	}
	var cs []cnd
	addCand := func(label string, eval func(st *State, phi map[*ssa.Phi]Value) *Term) {
		c := &Candidate{desc: label, on: true}
		u.cands = append(u.cands, c)
		cs = append(cs, cnd{len(u.cands) - 1, label, eval})
	}
	// substitution from header symbols to another state
	substFor := func(st *State, phi map[*ssa.Phi]Value) func(t *Term) *Term {
		m := map[*Term]*Term{}
		for _, p := range phis {
			a, b := phiSyms[p], phi[p]
			if a.addr != nil || a.tup != nil {
				continue
			}
			bt := b.t
			if b.addr != nil {
				bt = []*Term{b.one()}
			}
			for i := range a.t {
				m[a.t[i]] = bt[i]
			}
		}
		for k, t := range hs.heap {
			if t.op == "sym" && whole[k] || t.op == "sym" && fresh[k] {
				m[t] = u.get(st, k, u.leafSort[k])
			}
			for x := t; x.op == "app" && x.name == "store"; x = x.args[0] {
				if x.args[2].op == "sym" && x.args[2].serial > marker {
					m[x.args[2]] = mkSelect(u.get(st, k, u.leafSort[k]), x.args[1])
				}
			}
		}
		memo := map[*Term]*Term{}
		return func(t *Term) *Term { return substTerm(t, m, memo) }
	}
	addTermCand := func(label string, t *Term) {
		if t == tTrue {
			return
		}
		addCand(label, func(st *State, phi map[*ssa.Phi]Value) *Term {
			if st == hs {
				return t
			}
			return substFor(st, phi)(t)
		})
	}
	u.autoCands(fr, l, phis, phiInit, phiSyms, stIn, hs, allocIn, W, whole, fresh, addTermCand)
	// spec candidates
	for _, iv := range u.specInvs(fr) {
		iv := iv
		for _, path := range u.eng.conjPaths(iv.expr, 0) {
			path := path
			addCand(fmt.Sprint("inv ", iv.label, " ", path), func(st *State, phi map[*ssa.Phi]Value) *Term {
				u.loopPre = stIn
				t, err := u.evalInv(fr, iv, path, st, phi, phis)
				if err != nil {
					if u.eng.prog.verbose {
						fmt.Println("  candidate dropped:", iv.label, path, err)
					}
					return nil
				}
				return t
			})
		}
	}
	// header condition candidates need the evaluated header; do a dry evaluation
	condTerm := u.loopCondTerms(fr, l, hs)
	for _, ct := range condTerm {
		addTermCand(ct.label, ct.t)
	}
	// entry checks, then assumptions
	guardIn := stIn.guard()
	hg := hdr.guard()
	for _, c := range cs {
		t0 := c.eval(stIn, phiInit)
		if t0 == nil {
			u.cands[c.id].on = false
			continue
		}
		u.items = append(u.items, &Item{kind: "cand", t: mkImp(guardIn, u.dropAssumed(stIn, u.dropNodes(t0))), cand: c.id})
	}
	for _, c := range cs {
		if !u.cands[c.id].on {
			continue
		}
		t := c.eval(hs, phiSyms)
		if t == nil {
			u.cands[c.id].on = false
			continue
		}
		u.items = append(u.items, &Item{kind: "assume", t: mkImp(hg, t), cand: c.id})
	}
	// measures at header
	var meas []*Term
	u.loopPre = stIn
	for _, ct := range u.measures(fr, l, hs, phis, phiSyms) {
		meas = append(meas, ct)
	}
	lp := map[*ssa.BasicBlock][]edge{}
	pos0 := u.pos
	u.block(fr, l.header, hdr, lp)
	u.region(fr, order, l, lp)
	back := lp[l.header]
	delete(lp, l.header)
	for b, es := range lp {
		pend[b] = append(pend[b], es...)
	}
	// preservation
	type bk struct {
		st  *State
		phi map[*ssa.Phi]Value
	}
	var backs []bk
	for _, e := range back {
		u.finishLeaves(e.st)
		m := map[*ssa.Phi]Value{}
		for _, phi := range phis {
			m[phi] = u.val(fr, phi.Edges[predIndex(l.header, e.from)])
		}
		backs = append(backs, bk{e.st, m})
	}
	for _, c := range cs {
		if !u.cands[c.id].on {
			continue
		}
		for _, b := range backs {
			t := c.eval(b.st, b.phi)
			if t == nil {
				u.cands[c.id].on = false
				break
			}
			u.items = append(u.items, &Item{kind: "cand", t: mkImp(b.st.guard(), u.dropAssumed(b.st, u.dropNodes(t))), cand: c.id})
		}
	}
	// termination
	if len(backs) > 0 {
		var alts []*Term
		for _, m := range meas {
			all := tTrue
			for _, b := range backs {
				m2 := substFor(b.st, b.phi)(m)
				all = mkAnd(all, mkImp(b.st.guard(), mkAnd(mkLt(m2, m), mkLe(mkInt(0), m))))
			}
			alts = append(alts, all)
		}
		u.pos = pos0
		lpos := u.eng.prog.pos(loopPos(l))
		ob := &Oblig{Kind: "terminates", Label: "loop terminates", Func: fnKey(fr.fn), Pos: lpos, alts: alts}
		u.items = append(u.items, &Item{kind: "assert", t: tFalse, ob: ob, cand: -1})
	}
	for _, phi := range phis {
		fr.regs[phi] = phiSyms[phi]
	}
}

func loopPos(l *loopInfo) token.Pos {
	for _, ins := range l.header.Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() {
				return ins.Pos()
			}
		}
	}
	return token.NoPos
}

func mkFreshMarker() *Term {
	r := tt.fresh("n_fresh", "Int")
	r.newRef = true
	return r
}

// heapFacts records type facts for a havocked heap cell.
func (u *Unit) heapFacts(name string, v *Term) {
	if v.sort != "Int" {
		return
	}
}

type labTerm struct {
	label string
	t     *Term
}

// loopCondTerms evaluates the header in dry mode and returns bounds implied by its condition.
func (u *Unit) loopCond(fr *Frame, l *loopInfo, hs *State) (op token.Token, a, b *Term) {
	save := u.snapshot()
	defer u.restore(save)
	saveRegs := copyRegs(fr.regs)
	defer func() { fr.regs = saveRegs }()
	lp := map[*ssa.BasicBlock][]edge{}
	u.block(fr, l.header, hs.clone(), lp)
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	x, y := u.val(fr, bo.X), u.val(fr, bo.Y)
	if x.addr != nil || y.addr != nil || len(x.t) != 1 || len(y.t) != 1 || x.t[0].sort != "Int" || y.t[0].sort != "Int" {
		return
	}
	return bo.Op, x.t[0], y.t[0]
}

func (u *Unit) loopCondTerms(fr *Frame, l *loopInfo, hs *State) (out []labTerm) {
	op, a, b := u.loopCond(fr, l, hs)
	if a == nil {
		return nil
	}
	switch op {
	case token.LSS, token.LEQ:
		out = append(out, labTerm{"loop bound", mkLe(a, b)})
	case token.GTR, token.GEQ:
		out = append(out, labTerm{"loop bound", mkLe(b, a)})
	case token.NEQ:
		out = append(out, labTerm{"loop bound", mkLe(a, b)}, labTerm{"loop bound", mkLe(b, a)})
	}
	return
}

func (u *Unit) measures(fr *Frame, l *loopInfo, hs *State, phis []*ssa.Phi, phiSyms map[*ssa.Phi]Value) (out []*Term) {
	for _, m := range u.specMeasures(fr) {
		t, err := u.evalInv(fr, m, nil, hs, phiSyms, phis)
		if err == nil && t != nil {
			out = append(out, t)
		}
	}
	op, a, b := u.loopCond(fr, l, hs)
	if a != nil {
		switch op {
		case token.LSS, token.LEQ:
			out = append(out, mkAdd(mkSub(b, a), mkInt(1)))
		case token.GTR, token.GEQ:
			out = append(out, mkAdd(mkSub(a, b), mkInt(1)))
		case token.NEQ:
			out = append(out, mkAdd(mkSub(b, a), mkInt(1)), mkAdd(mkSub(a, b), mkInt(1)))
		}
	}
	return
}

// autoCands proposes invariants that need no annotation.
func (u *Unit) autoCands(fr *Frame, l *loopInfo, phis []*ssa.Phi, init, sym map[*ssa.Phi]Value, stIn, hs *State, allocIn *Term,
	W map[string]write, whole, fresh map[string]bool, add func(string, *Term)) {
	for _, p := range phis {
		a, b := sym[p], init[p]
		if a.addr != nil || b.addr != nil {
			continue
		}
		for i, lf := range u.eng.leaves(p.Type()) {
			if lf.sort != "Int" {
				if lf.sort == "Bool" {
					continue
				}
				continue
			}
			switch {
			case lf.part == "arr":
				add("slice "+p.Comment+" is the old array or new", mkOr(mkEq(a.t[i], b.t[i]), mkLe(allocIn, a.t[i])))
			case lf.part == "off", lf.part == "cap":
				add("phi "+p.Comment+" unchanged", mkEq(a.t[i], b.t[i]))
			case lf.part == "len":
				add("phi "+p.Comment+" grows", mkLe(b.t[i], a.t[i]))
				add("phi "+p.Comment+" shrinks", mkLe(a.t[i], b.t[i]))
			case lf.part == "" && !isRefLeaf(lf):
				add("phi "+p.Comment+" grows", mkLe(b.t[i], a.t[i]))
				add("phi "+p.Comment+" shrinks", mkLe(a.t[i], b.t[i]))
			}
		}
	}
	for _, k := range sortedKeys(whole) {
		if u.leafSort[k] == "" || !(strings.HasPrefix(k, "O|") || strings.HasPrefix(k, "E|") || strings.HasPrefix(k, "M|")) {
			continue
		}
		old := u.get(stIn, k, u.leafSort[k])
		nw := hs.heap[k]
		r := mkBound("r", "Int")
		// objects older than the loop keep their contents, except those the function may modify
		ex := mkLt(r, allocIn)
		for _, t := range u.targets[k] {
			ex = mkAnd(ex, mkNot(mkEq(r, t)))
		}
		for _, wk := range sortedKeys(W) {
			if w := W[wk]; w.name == k {
				ex = mkAnd(ex, mkNot(mkEq(r, w.ref)))
			}
		}
		add("frame of "+k, mkForall([]*Term{r}, mkImp(ex, mkEq(mkSelect(nw, r), mkSelect(old, r))), []*Term{mkSelect(nw, r)}))
		if strings.HasPrefix(k, "E|") {
			// elements below the entry length of slices held in modified cells stay
			ex2 := mkLt(r, u.alloc0)
			add("old frame of "+k, mkForall([]*Term{r}, mkImp(ex2, mkEq(mkSelect(nw, r), mkSelect(u.get(u.entry, k, u.leafSort[k]), r))), []*Term{mkSelect(nw, r)}))
		}
	}
	for _, wk := range sortedKeys(W) {
		w := W[wk]
		if !strings.HasPrefix(w.name, "O|") || whole[w.name] {
			continue
		}
		old := mkSelect(u.get(stIn, w.name, w.sort), w.ref)
		nw := mkSelect(u.get(hs, w.name, w.sort), w.ref)
		if old == nw {
			continue
		}
		if strings.HasSuffix(w.name, "#arr") {
			add("slice array old or new", mkOr(mkEq(nw, old), mkLe(allocIn, nw)))
		}
		if u.con != nil && u.con.noauto {
			continue
		}
		if w.sort == "Int" {
			add("cell unchanged "+w.name, mkEq(nw, old))
			add("cell grows "+w.name, mkLe(old, nw))
		} else if w.sort == "Bool" || w.sort == "Str" {
			add("cell unchanged "+w.name, mkEq(nw, old))
		}
	}
}

func constTerm(u *Unit, c *ssa.Const) Value {
	t := c.Type()
	ut := u.eng.under(t)
	if c.Value == nil {
		return u.zero(t)
	}
	switch b := ut.(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Value{typ: t, t: []*Term{mkBool(constant.BoolVal(c.Value))}}
		case b.Info()&types.IsString != 0:
			return Value{typ: t, t: []*Term{strConst(constant.StringVal(c.Value))}}
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			bi, ok := constant.Val(v).(*big.Int)
			if !ok {
				n, _ := constant.Int64Val(v)
				bi = big.NewInt(n)
			}
			return Value{typ: t, t: []*Term{mkBig(bi)}}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			s := "F64"
			if b.Kind() == types.Float32 {
				s = "F32"
			}
			if f == 0 {
				return Value{typ: t, t: []*Term{zeroTerm(s)}}
			}
			return Value{typ: t, t: []*Term{mkSym(fmt.Sprintf("flt$%s$%x", s, f), s)}}
		}
	}
	unsupported("constant %s of type %s", c, t)
	return Value{}
}

// val is the value of an SSA operand in a frame.
func (u *Unit) val(fr *Frame, v ssa.Value) Value {
	if x, ok := fr.regs[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(u, x)
	case *ssa.Global:
		return Value{typ: x.Type(), t: []*Term{mkInt(int64(u.eng.globalRef(x)))}}
	case *ssa.Function:
		return u.eng.funcValue(u, x)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return Value{typ: x.Type()}
	}
	panic(fmt.Sprintf("no value for %s %T in %s", v.Name(), v, fr.fn))
}

// funcValue is a top-level function used as a value.
func (e *Engine) funcValue(u *Unit, f *ssa.Function) Value {
	id := e.fnID(f)
	ref := mkInt(int64(-1000000 - id))
	if _, ok := u.closures[ref]; !ok {
		u.closures[ref] = &Closure{fn: f}
		u.items = append(u.items, &Item{kind: "assume", t: mkEq(mkApp("fnid", "Int", ref), mkInt(int64(id))), cand: -1})
	}
	return Value{typ: f.Type(), t: []*Term{ref}}
}

func (e *Engine) fnID(f *ssa.Function) int {
	k := f.String()
	if f.Parent() != nil {
		k = f.Parent().String() + "/" + f.Name()
	}
	if id, ok := e.fnIDs[k]; ok {
		return id
	}
	id := len(e.fnIDs) + 1
	e.fnIDs[k] = id
	e.fnByID[id] = f
	return id
}
