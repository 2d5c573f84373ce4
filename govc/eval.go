package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Env struct {
	u         *Unit
	vars      map[string]Value
	st        *State
	old       *State
	pre       *State
	pkg       *types.Package
	allocOld  *Term
	depth     int
	self      *Value
	noHeights bool
	packing   bool // the node is being finished
	qd        int  // enclosing quantifiers
}

type evalErr struct{ msg string }

func evfail(format string, a ...any) { panic(&evalErr{fmt.Sprintf(format, a...)}) }

func (v *Env) with(st *State) *Env {
	n := *v
	n.st = st
	return &n
}

func pure(t *Term) Value { return Value{t: []*Term{t}} }

func (e *Engine) findPkg(name string) *types.Package {
	if p := e.prog.byName[name]; p != nil {
		return p.Pkg
	}
	for _, p := range e.prog.pkgs {
		for _, i := range p.Pkg.Imports() {
			if i.Name() == name {
				return i
			}
		}
	}
	for _, p := range e.prog.prog.AllPackages() {
		if p.Pkg.Name() == name {
			return p.Pkg
		}
	}
	return nil
}

// parseType resolves a type written in a specification.
func (e *Engine) parseType(s string, pkg *types.Package) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(e.parseType(s[1:], pkg))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(e.parseType(s[2:], pkg))
	}
	if b := types.Universe.Lookup(s); b != nil {
		return b.Type()
	}
	n := s
	if i := strings.Index(s, "."); i >= 0 {
		pkg = e.findPkg(s[:i])
		n = s[i+1:]
	}
	if pkg != nil {
		if o := pkg.Scope().Lookup(n); o != nil {
			if _, ok := o.(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	evfail("unknown type %s", s)
	return nil
}

func (v *Env) boolean(e ast.Expr) *Term {
	x := v.ev(e)
	if len(x.t) != 1 || x.t[0].sort != "Bool" {
		evfail("not a condition")
	}
	return x.t[0]
}

func (v *Env) tryBool(c *Clause) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *evalErr:
				err = fmt.Errorf("%s: %s (%s)", c.where, x.msg, c.text)
			case *Unsupported:
				err = fmt.Errorf("%s: %s (%s)", c.where, x.msg, c.text)
			default:
				panic(r)
			}
		}
	}()
	return v.boolean(c.expr), nil
}

func (v *Env) tryVal(c *Clause) (t Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *evalErr:
				err = fmt.Errorf("%s: %s (%s)", c.where, x.msg, c.text)
			case *Unsupported:
				err = fmt.Errorf("%s: %s (%s)", c.where, x.msg, c.text)
			default:
				panic(r)
			}
		}
	}()
	return v.ev(c.expr), nil
}

func (v *Env) one(e ast.Expr) *Term {
	x := v.ev(e)
	if x.addr != nil {
		return x.one()
	}
	if len(x.t) != 1 {
		evfail("expected a scalar")
	}
	return x.t[0]
}

var nilType = types.Typ[types.UntypedNil]

func (v *Env) ev(e ast.Expr) Value {
	u := v.u
	switch x := e.(type) {
	case *ast.ParenExpr:
		return v.ev(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(x.Value, 0)
			if !ok {
				evfail("bad number %s", x.Value)
			}
			return Value{typ: types.Typ[types.Int], t: []*Term{mkBig(b)}}
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(x.Value[1:], '\'')
			if err != nil {
				evfail("bad char")
			}
			return Value{typ: types.Typ[types.Int], t: []*Term{mkInt(int64(r))}}
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				evfail("bad string")
			}
			return Value{typ: types.Typ[types.String], t: []*Term{strConst(s)}}
		}
		evfail("literal %s", x.Value)
	case *ast.Ident:
		return v.ident(x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isVar := v.vars[id.Name]; !isVar {
				if p := u.eng.findPkg(id.Name); p != nil {
					return v.pkgObj(p, x.Sel.Name)
				}
			}
		}
		return v.field(v.ev(x.X), x.Sel.Name)
	case *ast.StarExpr:
		p := v.ev(x.X)
		return u.load(v.st, u.addrOf(p))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return Value{typ: types.Typ[types.Bool], t: []*Term{mkNot(v.boolean(x.X))}}
		case token.SUB:
			t := v.one(x.X)
			if t.sort != "Int" {
				return pure(mkOp("fp.neg", t.sort, t))
			}
			return Value{typ: types.Typ[types.Int], t: []*Term{mkSub(mkInt(0), t)}}
		}
	case *ast.BinaryExpr:
		return v.binary(x)
	case *ast.IndexExpr:
		a := v.ev(x.X)
		return v.index(a, x.Index)
	case *ast.CallExpr:
		return v.call(x)
	}
	evfail("expression %T", e)
	return Value{}
}

func (v *Env) ident(n string) Value {
	u := v.u
	switch n {
	case "true":
		return Value{typ: types.Typ[types.Bool], t: []*Term{tTrue}}
	case "false":
		return Value{typ: types.Typ[types.Bool], t: []*Term{tFalse}}
	case "nil":
		return Value{typ: nilType, t: []*Term{mkInt(0)}}
	}
	if x, ok := v.vars[n]; ok {
		return x
	}
	if s, ok := u.eng.specs.consts[n]; ok {
		return pure(mkSym("const."+n, s))
	}
	if s, ok := u.eng.specs.ghosts[n]; ok {
		return pure(u.get(v.st, "G|"+n, s))
	}
	if v.pkg != nil && v.pkg.Scope().Lookup(n) != nil {
		return v.pkgObj(v.pkg, n)
	}
	evfail("unknown name %s", n)
	return Value{}
}

func (v *Env) pkgObj(p *types.Package, n string) Value {
	u := v.u
	switch o := p.Scope().Lookup(n).(type) {
	case *types.Const:
		return constTerm(u, ssa.NewConst(o.Val(), o.Type()))
	case *types.Var:
		sp := u.eng.prog.prog.Package(p)
		if sp == nil {
			evfail("no package %s", p.Name())
		}
		g, ok := sp.Members[n].(*ssa.Global)
		if !ok {
			evfail("no variable %s", n)
		}
		if gv, ok := u.eng.globalVal(u, g); ok {
			return gv
		}
		t := g.Type().Underlying().(*types.Pointer).Elem()
		return u.load(v.st, u.addrOf(Value{typ: g.Type(), t: []*Term{mkInt(int64(u.eng.globalRef(g)))}}).retype(t))
	}
	evfail("unknown name %s.%s", p.Name(), n)
	return Value{}
}

func (a *Addr) retype(t types.Type) *Addr { return a }

func (v *Env) field(x Value, name string) Value {
	u := v.u
	if x.tup != nil {
		evfail("field of a tuple")
	}
	if x.typ == nil {
		evfail("field %s of an untyped value", name)
	}
	if pt, ok := isPtrToStruct(u.eng.subst(x.typ)); ok {
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				a := u.addrOf(x)
				lo, _ := u.eng.fieldRange(pt, i)
				return u.load(v.st, &Addr{elem: a.elem, root: a.root, ref: a.ref, idx: a.idx, lo: a.lo + lo, typ: st.Field(i).Type()})
			}
		}
		evfail("no field %s in %s", name, tname(pt))
	}
	if st, ok := u.eng.under(x.typ).(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				lo, n := u.eng.fieldRange(x.typ, i)
				return Value{typ: st.Field(i).Type(), t: x.t[lo : lo+n]}
			}
		}
	}
	evfail("no field %s in %s", name, x.typ)
	return Value{}
}

func (v *Env) index(a Value, ie ast.Expr) Value {
	u := v.u
	if a.typ == nil {
		i := v.one(ie)
		return pure(mkSelect(a.t[0], i))
	}
	switch t := u.eng.under(a.typ).(type) {
	case *types.Slice:
		i := v.one(ie)
		return u.load(v.st, &Addr{elem: true, root: u.eng.subst(t.Elem()), ref: a.t[0], idx: mkAdd(a.t[1], i), typ: t.Elem()})
	case *types.Basic:
		if a.one().sort != "Str" {
			evfail("index of %s", a.typ)
		}
		return Value{typ: types.Typ[types.Byte], t: []*Term{u.sat(a.one(), v.one(ie))}}
	case *types.Map:
		return u.mapVal(v.st, a.typ, a.one(), v.one(ie))
	}
	evfail("index of %s", a.typ)
	return Value{}
}

func boolV(t *Term) Value { return Value{typ: types.Typ[types.Bool], t: []*Term{t}} }
func intV(t *Term) Value  { return Value{typ: types.Typ[types.Int], t: []*Term{t}} }

func (v *Env) binary(x *ast.BinaryExpr) Value {
	u := v.u
	switch x.Op {
	case token.LAND:
		a := v.boolean(x.X)
		if a == tFalse {
			return boolV(tFalse)
		}
		return boolV(mkAnd(a, v.boolean(x.Y)))
	case token.LOR:
		a := v.boolean(x.X)
		if a == tTrue {
			return boolV(tTrue)
		}
		return boolV(mkOr(a, v.boolean(x.Y)))
	case token.EQL, token.NEQ:
		a, b := v.ev(x.X), v.ev(x.Y)
		r := v.equal(a, b)
		if x.Op == token.NEQ {
			r = mkNot(r)
		}
		return boolV(r)
	}
	a, b := v.one(x.X), v.one(x.Y)
	if a.sort == "F64" || a.sort == "F32" {
		switch x.Op {
		case token.LSS:
			return boolV(mkOp("fp.lt", "Bool", a, b))
		case token.LEQ:
			return boolV(mkOp("fp.leq", "Bool", a, b))
		case token.GTR:
			return boolV(mkOp("fp.gt", "Bool", a, b))
		case token.GEQ:
			return boolV(mkOp("fp.geq", "Bool", a, b))
		}
	}
	if a.sort == "Str" && x.Op == token.ADD {
		return Value{typ: types.Typ[types.String], t: []*Term{mkConcat(a, b)}}
	}
	if a.sort != "Int" || b.sort != "Int" {
		evfail("operator %s on %s", x.Op, a.sort)
	}
	_ = u
	switch x.Op {
	case token.ADD:
		return intV(mkAdd(a, b))
	case token.SUB:
		return intV(mkSub(a, b))
	case token.MUL:
		return intV(mkMul(a, b))
	case token.LSS:
		return boolV(mkLt(a, b))
	case token.LEQ:
		return boolV(mkLe(a, b))
	case token.GTR:
		return boolV(mkGt(a, b))
	case token.GEQ:
		return boolV(mkGe(a, b))
	}
	evfail("operator %s", x.Op)
	return Value{}
}

func (v *Env) equal(a, b Value) *Term {
	if a.typ == nilType {
		a, b = b, a
	}
	if b.typ == nilType {
		if a.typ == nilType {
			return tTrue
		}
		if a.addr != nil {
			return mkEq(a.one(), mkInt(0))
		}
		return mkEq(a.t[0], mkInt(0))
	}
	if a.addr != nil || b.addr != nil {
		return mkEq(a.one(), b.one())
	}
	if len(a.t) != len(b.t) {
		evfail("comparison of different shapes (%v, %v)", a.typ, b.typ)
	}
	r := tTrue
	for i := range a.t {
		if a.t[i].sort == "F64" || a.t[i].sort == "F32" {
			r = mkAnd(r, mkOp("=", "Bool", a.t[i], b.t[i]))
			continue
		}
		if a.t[i].sort != b.t[i].sort {
			evfail("comparison of %s and %s", a.t[i].sort, b.t[i].sort)
		}
		r = mkAnd(r, mkEq(a.t[i], b.t[i]))
	}
	return r
}

func (v *Env) strArg(e ast.Expr) string {
	b, ok := e.(*ast.BasicLit)
	if !ok || b.Kind != token.STRING {
		evfail("expected a quoted name")
	}
	s, _ := strconv.Unquote(b.Value)
	return s
}

func (v *Env) call(x *ast.CallExpr) Value {
	u := v.u
	if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
		// conversion such as token.Token(x)
		_ = sel
		if len(x.Args) == 1 {
			return v.ev(x.Args[0])
		}
	}
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		evfail("call of %T", x.Fun)
	}
	n := id.Name
	switch n {
	case "old":
		if v.old == nil {
			evfail("old is not available here")
		}
		return v.with(v.old).ev(x.Args[0])
	case "pre":
		if v.pre == nil {
			evfail("pre is not available here")
		}
		return v.with(v.pre).ev(x.Args[0])
	case "len", "cap", "arr", "off":
		a := v.ev(x.Args[0])
		if a.typ != nil {
			switch u.eng.under(a.typ).(type) {
			case *types.Basic:
				if a.one().sort != "Str" {
					evfail("%s of %s", n, a.typ)
				}
				return intV(u.slen(a.one()))
			case *types.Slice:
				i := map[string]int{"arr": 0, "off": 1, "len": 2, "cap": 3}[n]
				return intV(a.t[i])
			}
		} else if a.t[0].sort == "Str" {
			return intV(u.slen(a.t[0]))
		}
		evfail("%s of %v", n, a.typ)
	case "row":
		a := v.ev(x.Args[0])
		if s, ok := u.eng.under(a.typ).(*types.Slice); ok {
			ls := u.eng.leaves(s.Elem())
			if len(ls) == 1 || len(x.Args) > 1 {
				l := ls[0]
				if len(x.Args) > 1 {
					p := v.strArg(x.Args[1])
					ok := false
					for _, y := range ls {
						if y.path == p {
							l, ok = y, true
						}
					}
					if !ok {
						evfail("no leaf %s", p)
					}
				}
				return pure(mkSelect(u.get(v.st, elemArr(u.eng.subst(s.Elem()), l), l.sort), a.t[0]))
			}
		}
		evfail("row of %v", a.typ)
	case "imp":
		a := v.boolean(x.Args[0])
		if a == tFalse {
			return boolV(tTrue)
		}
		return boolV(mkImp(a, v.boolean(x.Args[1])))
	case "iff":
		return boolV(mkEq(v.boolean(x.Args[0]), v.boolean(x.Args[1])))
	case "ite":
		c := v.boolean(x.Args[0])
		if c == tTrue {
			return v.ev(x.Args[1])
		}
		if c == tFalse {
			return v.ev(x.Args[2])
		}
		a, b := v.ev(x.Args[1]), v.ev(x.Args[2])
		r := Value{typ: a.typ}
		for i := range a.t {
			r.t = append(r.t, mkIte(c, a.t[i], b.t[i]))
		}
		return r
	case "forall", "exists":
		name := x.Args[0].(*ast.Ident).Name
		bv := mkBound(fmt.Sprintf("%s_%d", name, v.qd), "Int")
		nv := *v
		nv.qd++
		nv.vars = map[string]Value{}
		for k, y := range v.vars {
			nv.vars[k] = y
		}
		nv.vars[name] = Value{typ: types.Typ[types.Int], t: []*Term{bv}}
		if len(x.Args) == 2 {
			body := (&nv).boolean(x.Args[1])
			if n == "forall" {
				return boolV(mkForall([]*Term{bv}, body, autoPats(body, bv)...))
			}
			return boolV(mkExists([]*Term{bv}, body))
		}
		lo, hi := v.one(x.Args[1]), v.one(x.Args[2])
		body := (&nv).boolean(x.Args[3])
		rng := mkAnd(mkLe(lo, bv), mkLt(bv, hi))
		if n == "forall" {
			return boolV(mkForall([]*Term{bv}, mkImp(rng, body), autoPats(body, bv)...))
		}
		return boolV(mkExists([]*Term{bv}, mkAnd(rng, body)))
	case "forallm":
		// as forall over a range, instantiated only for the goal's own indices (mark is an unconstrained predicate)
		name := x.Args[0].(*ast.Ident).Name
		bv := mkBound(fmt.Sprintf("%s_%d", name, v.qd), "Int")
		nv := *v
		nv.qd++
		nv.vars = map[string]Value{}
		for k, y := range v.vars {
			nv.vars[k] = y
		}
		nv.vars[name] = Value{typ: types.Typ[types.Int], t: []*Term{bv}}
		lo, hi := v.one(x.Args[1]), v.one(x.Args[2])
		body := (&nv).boolean(x.Args[3])
		mk := mkApp("mark", "Bool", bv)
		return boolV(mkForall([]*Term{bv}, mkImp(mkAnd(mk, mkLe(lo, bv), mkLt(bv, hi)), body), []*Term{mk}))
	case "forallv":
		// forallv(i, "Str", body): quantification over a sort
		name := x.Args[0].(*ast.Ident).Name
		bv := mkBound(fmt.Sprintf("%s_%d", name, v.qd), v.strArg(x.Args[1]))
		nv := *v
		nv.qd++
		nv.vars = map[string]Value{}
		for k, y := range v.vars {
			nv.vars[k] = y
		}
		nv.vars[name] = Value{t: []*Term{bv}}
		body := (&nv).boolean(x.Args[2])
		return boolV(mkForall([]*Term{bv}, body, autoPats(body, bv)...))
	case "isa":
		a := v.boxed(x.Args[0])
		t := u.eng.parseType(v.strArg(x.Args[1]), v.pkg)
		if _, ok := t.Underlying().(*types.Interface); ok {
			return boolV(u.implCond(a.t[0], t))
		}
		return boolV(mkEq(a.t[0], mkInt(int64(u.eng.typeTag(t)))))
	case "as":
		a := v.boxed(x.Args[0])
		return u.unbox(u.eng.parseType(v.strArg(x.Args[1]), v.pkg), a.t[1])
	case "ptr":
		// ptr(ref, "*T"): the pointer of that type with this reference
		return Value{typ: u.eng.parseType(v.strArg(x.Args[1]), v.pkg), t: []*Term{v.one(x.Args[0])}}
	case "iface":
		// iface(p): the interface value holding pointer p of its static type
		a := v.ev(x.Args[0])
		return u.makeIface(a, a.typ, types.NewInterfaceType(nil, nil))
	case "tag":
		return intV(v.boxed(x.Args[0]).t[0])
	case "dat":
		return intV(v.boxed(x.Args[0]).t[1])
	case "ref":
		a := v.ev(x.Args[0])
		if a.addr == nil && len(a.t) == 4 {
			return intV(a.t[0])
		}
		return intV(a.one())
	case "typetag":
		return intV(mkInt(int64(u.eng.typeTag(u.eng.parseType(v.strArg(x.Args[0]), v.pkg)))))
	case "fresh":
		a := v.ev(x.Args[0])
		var r *Term
		switch {
		case a.addr == nil && len(a.t) == 4:
			r = a.t[0]
		case a.addr == nil && len(a.t) == 2:
			r = a.t[1]
		default:
			r = a.one()
		}
		if v.allocOld == nil {
			evfail("fresh is not available here")
		}
		return boolV(mkLe(v.allocOld, r))
	case "allocated":
		a := v.ev(x.Args[0])
		return boolV(mkLt(a.one(), v.allocOld))
	case "there":
		// there(x): x exists by now
		return boolV(mkLt(v.ev(x.Args[0]).one(), u.alloc))
	case "has":
		m := v.ev(x.Args[0])
		return boolV(u.mapHas(v.st, m.typ, m.one(), v.one(x.Args[1])))
	case "hasmap":
		m := v.ev(x.Args[0])
		nm, _, ks, _, _ := u.mapNames(m.typ)
		return pure(mkSelect(u.get(v.st, nm, arrSort("Int", arrSort(ks, "Bool"))), m.one()))
	case "at":
		// at(s, k): the element at index k of the backing array of s
		a := v.ev(x.Args[0])
		sl, ok := u.eng.under(a.typ).(*types.Slice)
		if !ok {
			evfail("at of %s", a.typ)
		}
		return u.load(v.st, &Addr{elem: true, root: u.eng.subst(sl.Elem()), ref: a.t[0], idx: v.one(x.Args[1]), typ: sl.Elem()})
	case "store":
		a := v.one(x.Args[0])
		return pure(mkStore(a, v.one(x.Args[1]), v.one(x.Args[2])))
	case "strof":
		return Value{typ: types.Typ[types.String], t: []*Term{u.mkStrOf(v.one(x.Args[0]), v.one(x.Args[1]), v.one(x.Args[2]))}}
	case "sat":
		return intV(u.sat(v.one(x.Args[0]), v.one(x.Args[1])))
	case "same":
		// identity, also of floating-point values
		return boolV(mkOp("=", "Bool", v.one(x.Args[0]), v.one(x.Args[1])))
	case "shown":
		// what %s prints for the value of an interface
		x := v.ev(x.Args[0])
		return Value{typ: types.Typ[types.String], t: []*Term{mkApp("sprint", "Str", x.t[0], x.t[1])}}
	case "padl":
		return Value{typ: types.Typ[types.String], t: []*Term{mkApp("padl", "Str", v.one(x.Args[0]), v.one(x.Args[1]))}}
	case "itoa":
		return Value{typ: types.Typ[types.String], t: []*Term{mkApp("itoa", "Str", v.one(x.Args[0]))}}
	case "runestr":
		return Value{typ: types.Typ[types.String], t: []*Term{u.runeStr(v.one(x.Args[0]))}}
	case "decr", "decw":
		row, lo, hi := v.one(x.Args[0]), v.one(x.Args[1]), v.one(x.Args[2])
		r, w := mkApp("decr", "Int", row, lo, hi), mkApp("decw", "Int", row, lo, hi)
		if !row.bound && !lo.bound && !hi.bound {
			u.fact1(r, decFacts(row, lo, hi, r, w))
		}
		if n == "decr" {
			return intV(r)
		}
		return intV(w)
	case "cnt", "lastix", "cntall":
		return intV(mkApp(n, "Int", v.one(x.Args[0]), v.one(x.Args[1]), v.one(x.Args[2]), v.one(x.Args[3])))
	case "reserved":
		// reserved("w1 w2", x): x is one of the words
		s := v.one(x.Args[1])
		r := tFalse
		for _, w := range strings.Fields(v.strArg(x.Args[0])) {
			r = mkOr(r, mkEq(s, strConst(w)))
		}
		return boolV(r)
	case "oneof":
		a := v.one(x.Args[0])
		r := tFalse
		for _, y := range x.Args[1:] {
			r = mkOr(r, mkEq(a, v.one(y)))
		}
		return boolV(r)
	case "wf":
		return boolV(u.wfOf(v.st, v.ev(x.Args[0])))
	case "below":
		// below(y): y is a finished node and lies below the node whose invariant this is
		y := v.ev(x.Args[0])
		r := u.wfOf(v.st, y)
		if !v.noHeights && v.self != nil {
			ht := u.ghostField(v.st, "ht")
			r = mkAnd(r, mkLt(mkSelect(ht, nodeRef(y)), mkSelect(ht, v.self.one())))
		}
		return boolV(r)
	case "ht", "sa", "sb":
		return intV(mkSelect(u.ghostField(v.st, n), nodeRef(v.ev(x.Args[0]))))
	case "nodesok":
		return boolV(v.nodesOK())
	case "frozen":
		// the element array of a finished node: never written again
		y := v.ev(x.Args[0])
		if v.packing {
			return boolV(tTrue) // finishing the node freezes its arrays
		}
		return boolV(mkOr(mkEq(y.t[0], mkInt(0)), mkAnd(mkLt(y.t[0], u.bound(v.st, frozenBound)), mkSelect(u.get(v.st, "O|$node|.fz", "Bool"), y.t[0]))))
	case "thawed":
		y := v.ev(x.Args[0])
		return boolV(mkOr(mkEq(y.t[0], mkInt(0)), mkNot(mkSelect(u.get(v.st, "O|$node|.fz", "Bool"), y.t[0]))))
	case "built":
		// built("ast.T"): the object of that type which the function built last
		t := u.eng.parseType(v.strArg(x.Args[0]), v.pkg)
		for i := len(u.madeObjs) - 1; i >= 0; i-- {
			if types.Identical(u.madeObjs[i].typ, t) {
				return Value{typ: types.NewPointer(t), t: []*Term{u.madeObjs[i].ref}}
			}
		}
		evfail("no %s is built here", t)
	case "owner":
		t := u.eng.parseType(v.strArg(x.Args[0]), v.pkg)
		o := ownerOf(v.vars["self"].one())
		return Value{typ: t, t: []*Term{o}}
	case "capstrs":
		return intV(mkApp("capstrs", "Int", v.one(x.Args[0])))
	case "capstr":
		return Value{typ: types.Typ[types.String], t: []*Term{mkApp("capstr", "Str", v.one(x.Args[0]))}}
	case "asbuilt":
		return boolV(v.asBuilt(x.Args[0]))
	case "handles":
		tab, f, p, _ := v.ctorField(x.Args[0])
		if tab == nil {
			return boolV(tTrue)
		}
		return boolV(u.entryCond(tab, f, v.one(x.Args[1]), v.one(x.Args[2]), p.one()))
	case "extra":
		return boolV(v.extra(v.strArg(x.Args[0]), v.one(x.Args[1])))
	case "capok":
		var ow *Term
		if len(x.Args) > 2 {
			ow = v.one(x.Args[2])
		}
		return boolV(v.capOK(v.strArg(x.Args[0]), v.one(x.Args[1]), ow))
	case "isNaN":
		return boolV(mkOp("fp.isNaN", "Bool", v.one(x.Args[0])))
	case "result":
		evfail("use the result names")
	case "zero":
		a := v.ev(x.Args[0])
		r := tTrue
		z := u.zero(a.typ)
		r = v.equal(a, z)
		return boolV(r)
	case "unchanged":
		r := tTrue
		for _, y := range x.Args {
			r = mkAnd(r, v.equal(v.ev(y), v.with(v.old).ev(y)))
		}
		return boolV(r)
	}
	if p, ok := u.eng.specs.preds[n]; ok {
		if len(p.parms) != len(x.Args) {
			evfail("%s wants %d arguments", n, len(p.parms))
		}
		if v.depth > 30 {
			evfail("predicate recursion")
		}
		nv := v.bindPred(p, x)
		if p.opaque && u.fn != nil && u.fn.Pkg != nil && u.fn.Pkg.Pkg.Name() != p.pkg {
			return v.opaquePred(p, nv)
		}
		return nv.ev(p.def)
	}
	if d, ok := u.eng.specs.defs[n]; ok {
		var ts []*Term
		for _, a := range x.Args {
			av := v.ev(a)
			if av.addr != nil {
				ts = append(ts, av.one())
			} else {
				ts = append(ts, av.t...)
			}
		}
		if len(ts) != len(d.args) {
			evfail("%s wants %d arguments, got %d", n, len(d.args), len(ts))
		}
		for i := range ts {
			if ts[i].sort != d.args[i] {
				evfail("%s argument %d has sort %s", n, i, ts[i].sort)
			}
		}
		return pure(mkApp(n, d.ret, ts...))
	}
	if len(x.Args) == 1 {
		// conversion
		switch n {
		case "int", "rune", "byte", "string", "uint64", "int64", "uint", "float64":
			return v.ev(x.Args[0])
		}
		if v.pkg != nil {
			if _, ok := v.pkg.Scope().Lookup(n).(*types.TypeName); ok {
				return v.ev(x.Args[0])
			}
		}
	}
	evfail("unknown function %s", n)
	return Value{}
}

func (v *Env) bindPred(p *SpecFunc, x *ast.CallExpr) *Env {
	nv := *v
	nv.depth++
	nv.vars = map[string]Value{}
	for k, y := range v.vars {
		nv.vars[k] = y
	}
	for i, a := range x.Args {
		nv.vars[p.parms[i]] = v.ev(a)
	}
	if pk := v.u.eng.findPkg(p.pkg); pk != nil {
		nv.pkg = pk
	}
	return &nv
}

// opaquePred is a predicate of another package: an atom over its arguments and the heap parts it reads.
func (v *Env) opaquePred(p *SpecFunc, nv *Env) Value {
	u := v.u
	saved := u.track
	u.track = map[string]bool{}
	r := nv.ev(p.def)
	names := sortedKeys(u.track)
	u.track = saved
	for _, k := range names {
		if saved != nil {
			saved[k] = true
		}
	}
	if p.parts == nil {
		p.parts = append([]string{}, names...)
	} else if fmt.Sprint(p.parts) != fmt.Sprint(names) {
		evfail("%s reads different parts of the heap", p.name)
	}
	var args []*Term
	for _, n := range p.parms {
		y := nv.vars[n]
		if y.addr != nil {
			args = append(args, y.one())
		} else {
			args = append(args, y.t...)
		}
	}
	for _, k := range names {
		args = append(args, u.get(nv.st, k, u.leafSort[k]))
	}
	if len(r.t) != 1 {
		evfail("%s is not scalar", p.name)
	}
	return Value{typ: r.typ, t: []*Term{mkApp("pred$"+p.name, r.t[0].sort, args...)}}
}

// conjPaths lists the conjuncts of a condition, looking through predicates.
func (e *Engine) conjPaths(x ast.Expr, depth int) (out [][]int) {
	add := func(i int, ps [][]int) {
		for _, p := range ps {
			out = append(out, append([]int{i}, p...))
		}
	}
	switch y := x.(type) {
	case *ast.ParenExpr:
		return e.conjPaths(y.X, depth)
	case *ast.BinaryExpr:
		if y.Op == token.LAND {
			add(0, e.conjPaths(y.X, depth))
			add(1, e.conjPaths(y.Y, depth))
			return
		}
	case *ast.CallExpr:
		id, ok := y.Fun.(*ast.Ident)
		if !ok {
			break
		}
		if p, ok := e.specs.preds[id.Name]; ok && depth < 8 && !p.opaque {
			return e.conjPaths(p.def, depth+1)
		}
	}
	return [][]int{{}}
}

// conjunct evaluates one of the conjuncts listed by conjPaths.
func (v *Env) conjunct(x ast.Expr, path []int) *Term {
	switch y := x.(type) {
	case *ast.ParenExpr:
		return v.conjunct(y.X, path)
	case *ast.BinaryExpr:
		if y.Op == token.LAND && len(path) > 0 {
			if path[0] == 0 {
				return v.conjunct(y.X, path[1:])
			}
			return v.conjunct(y.Y, path[1:])
		}
	case *ast.CallExpr:
		id, ok := y.Fun.(*ast.Ident)
		if !ok {
			break
		}
		if p, ok := v.u.eng.specs.preds[id.Name]; ok && v.depth < 8 && !p.opaque {
			return v.bindPred(p, y).conjunct(p.def, path)
		}
	}
	return v.boolean(x)
}

// autoPats picks the array reads and function applications indexed directly by the bound variable.
func autoPats(body, bv *Term) [][]*Term {
	var out [][]*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "forall" || t.op == "exists" {
			return
		}
		if t.op == "app" {
			direct := false
			okArgs := true
			for _, a := range t.args {
				if a == bv {
					direct = true
				} else if mentions(a, bv) {
					okArgs = false
				}
			}
			if direct && okArgs && (t.name == "select" || tt.decls[t.name] != "") {
				out = append(out, []*Term{t})
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	return out
}

var _ = constant.Bool

// boxed evaluates an expression to an interface value.
func (v *Env) boxed(e ast.Expr) Value {
	a := v.ev(e)
	if a.typ != nil {
		if _, ok := v.u.eng.under(a.typ).(*types.Interface); !ok {
			return v.u.makeIface(a, a.typ, types.NewInterfaceType(nil, nil))
		}
	}
	return a
}
