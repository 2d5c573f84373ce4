package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// instr executes one instruction; false means the path ended.
func (u *Unit) instr(fr *Frame, st *State, ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Alloc:
		fr.regs[x] = u.newObject(st, x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		fr.regs[x] = u.binop(st, x.Op, u.val(fr, x.X), u.val(fr, x.Y), x.Type(), x.X.Type())
	case *ssa.UnOp:
		v := u.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			if cv, ok := u.captured(fr, x.X); ok {
				fr.regs[x] = cv
				return true
			}
			if g, ok := x.X.(*ssa.Global); ok {
				if gv, ok := u.eng.globalVal(u, g); ok {
					fr.regs[x] = gv
					return true
				}
			}
			a := u.addrOf(v)
			u.nilCheck(st, a, "nil dereference")
			fr.regs[x] = u.load(st, a)
		case token.NOT:
			fr.regs[x] = Value{typ: x.Type(), t: []*Term{mkNot(v.one())}}
		case token.SUB:
			if v.one().sort == "Int" {
				fr.regs[x] = u.wrapInt(Value{typ: x.Type(), t: []*Term{mkSub(mkInt(0), v.one())}})
			} else {
				fr.regs[x] = Value{typ: x.Type(), t: []*Term{mkOp("fp.neg", v.one().sort, v.one())}}
			}
		default:
			unsupported("unary %s", x.Op)
		}
	case *ssa.Call:
		vs, ok := u.call(fr, st, &x.Call, x)
		if !ok {
			return false
		}
		fr.regs[x] = vs
	case *ssa.ChangeInterface:
		v := u.val(fr, x.X)
		fr.regs[x] = Value{typ: x.Type(), t: v.t}
	case *ssa.ChangeType:
		v := u.val(fr, x.X)
		nv := v
		nv.typ = x.Type()
		fr.regs[x] = nv
		u.onConvert(st, x, v)
	case *ssa.Convert:
		fr.regs[x] = u.convert(st, u.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.regs[x] = u.convert(st, u.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.Defer:
		var args []Value
		for _, a := range x.Call.Args {
			args = append(args, u.val(fr, a))
		}
		d := deferRec{pc: append([]*Term{}, st.pc...), call: x, args: args}
		if !x.Call.IsInvoke() {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = u.val(fr, x.Call.Value)
			}
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		return u.runDefers(fr, st)
	case *ssa.Extract:
		v := u.val(fr, x.Tuple)
		if v.tup != nil {
			fr.regs[x] = v.tup[x.Index]
			return true
		}
		lo, n := u.eng.tupleRange(x.Tuple.Type().(*types.Tuple), x.Index)
		fr.regs[x] = Value{typ: x.Type(), t: v.t[lo : lo+n]}
	case *ssa.Field:
		v := u.val(fr, x.X)
		lo, n := u.eng.fieldRange(x.X.Type(), x.Field)
		fr.regs[x] = Value{typ: x.Type(), t: v.t[lo : lo+n]}
	case *ssa.FieldAddr:
		v := u.val(fr, x.X)
		a := u.addrOf(v)
		u.nilCheck(st, a, "nil dereference")
		st0 := x.X.Type().Underlying().(*types.Pointer).Elem()
		lo, _ := u.eng.fieldRange(st0, x.Field)
		fr.regs[x] = Value{typ: x.Type(), addr: &Addr{elem: a.elem, root: a.root, ref: a.ref, idx: a.idx, lo: a.lo + lo, typ: x.Type().Underlying().(*types.Pointer).Elem()}}
	case *ssa.Index:
		v := u.val(fr, x.X)
		i := u.val(fr, x.Index).one()
		switch t := u.eng.under(x.X.Type()).(type) {
		case *types.Basic:
			u.safety(st, "index", mkAnd(mkLe(mkInt(0), i), mkLt(i, u.slen(v.one()))))
			r := Value{typ: x.Type(), t: []*Term{u.sat(v.one(), i)}}
			u.typeFacts(r)
			fr.regs[x] = r
		case *types.Array:
			u.safety(st, "index", mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(t.Len()))))
			var ts []*Term
			for _, l := range v.t {
				ts = append(ts, mkSelect(l, i))
			}
			fr.regs[x] = Value{typ: x.Type(), t: ts}
		default:
			unsupported("index of %s", x.X.Type())
		}
	case *ssa.IndexAddr:
		v := u.val(fr, x.X)
		i := u.val(fr, x.Index).one()
		switch t := u.eng.under(x.X.Type()).(type) {
		case *types.Slice:
			u.safety(st, "index", mkAnd(mkLe(mkInt(0), i), mkLt(i, v.t[2])))
			fr.regs[x] = Value{typ: x.Type(), addr: &Addr{elem: true, root: u.eng.subst(t.Elem()), ref: v.t[0], idx: mkAdd(v.t[1], i), typ: t.Elem()}}
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			a := u.addrOf(v)
			u.nilCheck(st, a, "nil dereference")
			if a.idx != nil || !a.elem {
				unsupported("array inside another object")
			}
			u.safety(st, "index", mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(at.Len()))))
			fr.regs[x] = Value{typ: x.Type(), addr: &Addr{elem: true, root: at.Elem(), ref: a.ref, idx: i, typ: at.Elem()}}
		default:
			unsupported("index address of %s", x.X.Type())
		}
	case *ssa.Lookup:
		u.lookup(fr, st, x)
	case *ssa.MakeClosure:
		fr.regs[x] = u.makeClosure(fr, st, x)
	case *ssa.MakeInterface:
		fr.regs[x] = u.makeIface(u.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeMap:
		fr.regs[x] = u.makeMap(st, x.Type())
	case *ssa.MakeSlice:
		n := u.val(fr, x.Len).one()
		c := u.val(fr, x.Cap).one()
		u.safety(st, "makeslice", mkAnd(mkLe(mkInt(0), n), mkLe(n, c)))
		el := x.Type().Underlying().(*types.Slice).Elem()
		r := u.newAlloc("mk")
		for _, l := range u.eng.leaves(el) {
			u.put(st, elemArr(el, l), l.sort, r, mkConstArr(arrSort("Int", l.sort), zeroTerm(l.sort)))
		}
		fr.regs[x] = Value{typ: x.Type(), t: []*Term{r, mkInt(0), n, c}}
	case *ssa.MapUpdate:
		u.mapUpdate(fr, st, x)
	case *ssa.Slice:
		u.slice(fr, st, x)
	case *ssa.Store:
		a := u.addrOf(u.val(fr, x.Addr))
		u.nilCheck(st, a, "nil dereference")
		u.store(st, a, u.val(fr, x.Val))
	case *ssa.TypeAssert:
		fr.regs[x] = u.typeAssert(st, u.val(fr, x.X), x.AssertedType, x.CommaOk, x.Type())
	case *ssa.Range:
		fr.regs[x] = u.val(fr, x.X)
	case *ssa.Next:
		u.next(fr, st, x)
	default:
		unsupported("instruction %T", ins)
	}
	return true
}

func (u *Unit) nilCheck(st *State, a *Addr, what string) {
	if a.ref.newRef {
		return
	}
	if a.ref.op == "int" && a.ref.iv.Sign() != 0 {
		return
	}
	if a.elem && a.idx != nil {
		return // checked by the bounds check
	}
	u.safety(st, "nil", mkNot(mkEq(a.ref, mkInt(0))))
}

// ---- strings ----

func (u *Unit) slen(s *Term) *Term {
	if s.hasSC {
		return mkInt(int64(len(s.sc)))
	}
	if s.op == "app" && s.name == "ite" {
		return mkIte(s.args[0], u.slen(s.args[1]), u.slen(s.args[2]))
	}
	l := mkApp("slen", "Int", s)
	return l
}

func (u *Unit) sat(s, i *Term) *Term {
	if s.hasSC && i.op == "int" && i.iv.IsInt64() && i.iv.Int64() >= 0 && i.iv.Int64() < int64(len(s.sc)) {
		return mkInt(int64(s.sc[i.iv.Int64()]))
	}
	if s.op == "app" && s.name == "ite" {
		return mkIte(s.args[0], u.sat(s.args[1], i), u.sat(s.args[2], i))
	}
	return mkApp("sat", "Int", s, i)
}

func mkConcat(a, b *Term) *Term {
	if a.hasSC && a.sc == "" {
		return b
	}
	if b.hasSC && b.sc == "" {
		return a
	}
	if a.hasSC && b.hasSC {
		return strConst(a.sc + b.sc)
	}
	// grouped to the left, neighbouring constants joined
	if b.op == "app" && b.name == "sconcat" {
		return mkConcat(mkConcat(a, b.args[0]), b.args[1])
	}
	if b.hasSC && a.op == "app" && a.name == "sconcat" && a.args[1].hasSC {
		return mkConcat(a.args[0], strConst(a.args[1].sc+b.sc))
	}
	return mkApp("sconcat", "Str", a, b)
}

// strOf is the string made of n bytes of a byte row starting at lo.
func strOf(row, lo, n *Term) *Term { return mkApp("strof", "Str", row, lo, n) }

func (u *Unit) sprintPart(tag, dat *Term, verb string) *Term {
	// %s / %v of a string prints the string itself
	if tag.op == "int" {
		t := u.eng.tagTypes[int(tag.iv.Int64())]
		if t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !hasStringMethod(t) && (verb == "s" || verb == "v") {
				return unboxLeaf(t, 0, "Str", dat)
			}
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !hasStringMethod(t) && (verb == "d" || verb == "v") {
				return mkApp("itoa", "Str", unboxLeaf(t, 0, "Int", dat))
			}
		}
	}
	return mkApp("sprint", "Str", tag, dat)
}

func hasStringMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
}

// ---- arithmetic ----

func (u *Unit) wrapInt(v Value) Value {
	// integers are mathematical; only unsigned subtraction and narrowing wrap
	return v
}

func wrapTo(t *Term, b *types.Basic) *Term {
	lo, hi := intRange(b)
	if t.op == "int" {
		if t.iv.Cmp(lo) >= 0 && t.iv.Cmp(hi) <= 0 {
			return t
		}
	}
	size := new(big.Int).Sub(hi, lo)
	size.Add(size, big.NewInt(1))
	// ((t - lo) mod size) + lo
	m := mkOp("mod", "Int", mkSub(t, mkBig(lo)), mkBig(size))
	return mkIte(mkAnd(mkLe(mkBig(lo), t), mkLe(t, mkBig(hi))), t, mkAdd(m, mkBig(lo)))
}

func (u *Unit) binop(st *State, op token.Token, a, b Value, typ, opTyp types.Type) Value {
	ret := func(t *Term) Value { return Value{typ: typ, t: []*Term{t}} }
	ot := u.eng.under(opTyp)
	if a.addr != nil && !(!a.addr.elem && a.addr.lo == 0 && types.Identical(a.addr.root, a.addr.typ)) || b.addr != nil && !(!b.addr.elem && b.addr.lo == 0) {
		// interior pointers are never nil
		if op == token.EQL || op == token.NEQ {
			isNil := func(v Value) bool { return v.addr == nil && v.t[0] == mkInt(0) }
			if isNil(a) || isNil(b) {
				return ret(mkBool(op == token.NEQ))
			}
		}
		unsupported("pointer comparison")
	}
	switch op {
	case token.EQL, token.NEQ:
		e := u.equal(ot, a, b)
		if op == token.NEQ {
			e = mkNot(e)
		}
		return ret(e)
	}
	x, y := a.one(), b.one()
	bt, _ := ot.(*types.Basic)
	if bt == nil {
		unsupported("operator %s on %s", op, opTyp)
	}
	if x.sort == "F64" || x.sort == "F32" {
		switch op {
		case token.LSS:
			return ret(mkOp("fp.lt", "Bool", x, y))
		case token.LEQ:
			return ret(mkOp("fp.leq", "Bool", x, y))
		case token.GTR:
			return ret(mkOp("fp.gt", "Bool", x, y))
		case token.GEQ:
			return ret(mkOp("fp.geq", "Bool", x, y))
		case token.ADD, token.SUB, token.MUL, token.QUO:
			n := map[token.Token]string{token.ADD: "fp.add RNE", token.SUB: "fp.sub RNE", token.MUL: "fp.mul RNE", token.QUO: "fp.div RNE"}[op]
			return ret(mkOp(n, x.sort, x, y))
		}
	}
	if x.sort == "Str" {
		switch op {
		case token.ADD:
			return ret(mkConcat(x, y))
		case token.LSS:
			return ret(mkApp("strlt", "Bool", x, y))
		case token.GTR:
			return ret(mkApp("strlt", "Bool", y, x))
		case token.LEQ:
			return ret(mkNot(mkApp("strlt", "Bool", y, x)))
		case token.GEQ:
			return ret(mkNot(mkApp("strlt", "Bool", x, y)))
		}
	}
	uns := bt.Info()&types.IsUnsigned != 0
	switch op {
	case token.LSS:
		return ret(mkLt(x, y))
	case token.LEQ:
		return ret(mkLe(x, y))
	case token.GTR:
		return ret(mkGt(x, y))
	case token.GEQ:
		return ret(mkGe(x, y))
	case token.ADD:
		if bt.Kind() != types.Int && bt.Kind() != types.Int64 {
			return ret(wrapTo(mkAdd(x, y), bt))
		}
		return ret(mkAdd(x, y))
	case token.SUB:
		if uns || bt.Kind() != types.Int && bt.Kind() != types.Int64 {
			return ret(wrapTo(mkSub(x, y), bt))
		}
		return ret(mkSub(x, y))
	case token.MUL:
		if bt.Kind() != types.Int && bt.Kind() != types.Int64 {
			return ret(wrapTo(mkMul(x, y), bt))
		}
		return ret(mkMul(x, y))
	case token.QUO:
		u.safety(st, "div", mkNot(mkEq(y, mkInt(0))))
		if uns {
			return ret(mkOp("div", "Int", x, y))
		}
		ab := func(t *Term) *Term { return mkIte(mkLe(mkInt(0), t), t, mkSub(mkInt(0), t)) }
		q := mkOp("div", "Int", ab(x), ab(y))
		return ret(mkIte(mkEq(mkLe(mkInt(0), x), mkLe(mkInt(0), y)), q, mkSub(mkInt(0), q)))
	case token.REM:
		u.safety(st, "div", mkNot(mkEq(y, mkInt(0))))
		ab := func(t *Term) *Term { return mkIte(mkLe(mkInt(0), t), t, mkSub(mkInt(0), t)) }
		m := mkOp("mod", "Int", ab(x), ab(y))
		return ret(mkIte(mkLe(mkInt(0), x), m, mkSub(mkInt(0), m)))
	case token.SHL:
		if y.op == "int" && y.iv.IsInt64() && y.iv.Int64() < 64 && y.iv.Int64() >= 0 {
			return ret(wrapTo(mkMul(mkBig(new(big.Int).Lsh(big.NewInt(1), uint(y.iv.Int64()))), x), bt))
		}
	case token.SHR:
		if y.op == "int" && y.iv.IsInt64() && y.iv.Int64() < 64 && y.iv.Int64() >= 0 {
			return ret(mkOp("div", "Int", x, mkBig(new(big.Int).Lsh(big.NewInt(1), uint(y.iv.Int64())))))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if x.sort == "Bool" {
			if op == token.AND {
				return ret(mkAnd(x, y))
			}
			return ret(mkOr(x, y))
		}
		// bits: an uninterpreted result within the type's range
		r := mkApp("bit"+clean(op.String())+bt.Name(), "Int", x, y)
		v := Value{typ: typ, t: []*Term{r}}
		u.typeFacts(v)
		if op == token.AND && uns {
			u.fact1(r, mkAnd(mkLe(r, x), mkLe(r, y)))
		}
		return v
	}
	unsupported("operator %s on %s", op, opTyp)
	return Value{}
}

func (u *Unit) equal(ot types.Type, a, b Value) *Term {
	switch t := ot.(type) {
	case *types.Slice:
		// only comparison with nil
		if b.t[0] == mkInt(0) {
			return mkEq(a.t[0], mkInt(0))
		}
		return mkEq(b.t[0], mkInt(0))
	case *types.Interface:
		if len(a.t) == 2 && len(b.t) == 2 {
			if b.t[0] == mkInt(0) {
				return mkEq(a.t[0], mkInt(0))
			}
			if a.t[0] == mkInt(0) {
				return mkEq(b.t[0], mkInt(0))
			}
			return mkAnd(mkEq(a.t[0], b.t[0]), mkEq(a.t[1], b.t[1]))
		}
		unsupported("comparison of an interface with a concrete value")
	case *types.Struct:
		r := tTrue
		for i := 0; i < t.NumFields(); i++ {
			lo, n := u.eng.fieldRange(a.typ, i)
			r = mkAnd(r, u.equal(u.eng.under(t.Field(i).Type()), Value{typ: t.Field(i).Type(), t: a.t[lo : lo+n]}, Value{typ: t.Field(i).Type(), t: b.t[lo : lo+n]}))
		}
		return r
	}
	x, y := a.one(), b.one()
	if x.sort == "F64" || x.sort == "F32" {
		return mkOp("fp.eq", "Bool", x, y)
	}
	return mkEq(x, y)
}

func (u *Unit) convert(st *State, v Value, from, to types.Type) Value {
	f, t := u.eng.under(from), u.eng.under(to)
	ret := func(x *Term) Value { return Value{typ: to, t: []*Term{x}} }
	fb, fok := f.(*types.Basic)
	tb, tok := t.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			flo, fhi := intRange(fb)
			tlo, thi := intRange(tb)
			if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
				return ret(v.one())
			}
			return ret(wrapTo(v.one(), tb))
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return ret(u.runeStr(v.one()))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return ret(v.one())
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return ret(mkApp("int2"+sortOfBasic(tb), sortOfBasic(tb), v.one()))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if v.one().sort == sortOfBasic(tb) {
				return ret(v.one())
			}
			return ret(mkApp(v.one().sort+"to"+sortOfBasic(tb), sortOfBasic(tb), v.one()))
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			r := ret(mkApp(v.one().sort+"toInt"+tb.Name(), "Int", v.one()))
			u.typeFacts(r)
			return r
		}
	}
	if fs, ok := f.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		if l := u.eng.leaves(fs.Elem()); len(l) == 1 && fs.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
			row := mkSelect(u.get(st, elemArr(fs.Elem(), l[0]), "Int"), v.t[0])
			return ret(u.mkStrOf(row, v.t[1], v.t[2]))
		}
	}
	if ts, ok := t.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		el := ts.Elem()
		if el.Underlying().(*types.Basic).Kind() == types.Uint8 {
			r := u.newAlloc("bytes")
			l := u.eng.leaves(el)[0]
			s := v.one()
			row := mkApp("rowofstr", arrSort("Int", "Int"), s)
			u.put(st, elemArr(el, l), "Int", r, row)
			n := u.slen(s)
			c := tt.fresh("cap", "Int")
			u.assume(nil, mkLe(n, c))
			return Value{typ: to, t: []*Term{r, mkInt(0), n, c}}
		}
	}
	if types.Identical(f, t) {
		nv := v
		nv.typ = to
		return nv
	}
	unsupported("conversion %s to %s", from, to)
	return Value{}
}

func (u *Unit) runeStr(r *Term) *Term {
	if r.op == "int" && r.iv.IsInt64() {
		return strConst(string(rune(r.iv.Int64())))
	}
	if r.op == "app" && r.name == "ite" && valueLike(r) {
		return mkIte(r.args[0], u.runeStr(r.args[1]), u.runeStr(r.args[2]))
	}
	return mkApp("runestr", "Str", r)
}

func (u *Unit) mkStrOf(row, lo, n *Term) *Term {
	if n == mkInt(0) {
		return strConst("")
	}
	return strOf(row, lo, n)
}

// ---- slices ----

func (u *Unit) slice(fr *Frame, st *State, x *ssa.Slice) {
	v := u.val(fr, x.X)
	lo := mkInt(0)
	if x.Low != nil {
		lo = u.val(fr, x.Low).one()
	}
	var hi, max *Term
	if x.High != nil {
		hi = u.val(fr, x.High).one()
	}
	if x.Max != nil {
		max = u.val(fr, x.Max).one()
	}
	switch t := u.eng.under(x.X.Type()).(type) {
	case *types.Basic: // string
		s := v.one()
		if hi == nil {
			hi = u.slen(s)
		}
		u.safety(st, "slice", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, u.slen(s))))
		if s.hasSC && lo.op == "int" && hi.op == "int" {
			a, b := lo.iv.Int64(), hi.iv.Int64()
			if a >= 0 && a <= b && b <= int64(len(s.sc)) {
				fr.regs[x] = Value{typ: x.Type(), t: []*Term{strConst(s.sc[a:b])}}
				return
			}
		}
		fr.regs[x] = Value{typ: x.Type(), t: []*Term{mkApp("substr", "Str", s, lo, mkSub(hi, lo))}}
	case *types.Slice:
		if hi == nil {
			hi = v.t[2]
		}
		m := v.t[3]
		if max != nil {
			m = max
			u.safety(st, "slice", mkLe(max, v.t[3]))
		}
		u.safety(st, "slice", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, m)))
		fr.regs[x] = Value{typ: x.Type(), t: []*Term{v.t[0], mkAdd(v.t[1], lo), mkSub(hi, lo), mkSub(m, lo)}}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		a := u.addrOf(v)
		n := mkInt(at.Len())
		if hi == nil {
			hi = n
		}
		m := n
		if max != nil {
			m = max
		}
		u.nilCheck(st, &Addr{ref: a.ref}, "nil")
		u.safety(st, "slice", mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, m), mkLe(m, n)))
		fr.regs[x] = Value{typ: x.Type(), t: []*Term{a.ref, lo, mkSub(hi, lo), mkSub(m, lo)}}
	default:
		unsupported("slice of %s", x.X.Type())
	}
}

// appendVals models append(s, elems...) for n known elements.
func (u *Unit) appendVals(st *State, s Value, el types.Type, elems []Value) Value {
	if len(elems) == 0 {
		return s
	}
	arr, off, ln, cp := s.t[0], s.t[1], s.t[2], s.t[3]
	n := mkAdd(ln, mkInt(int64(len(elems))))
	inplace := mkLe(n, cp)
	nr := u.newAlloc("app")
	u.onNewArray(st, nr, el)
	ncap := tt.fresh("cap", "Int")
	u.assumeDef(ncap, mkAnd(mkLe(n, ncap), mkLe(mkAdd(off, ncap), mkBig(new(big.Int).Lsh(big.NewInt(1), 62)))))
	ls := u.eng.leaves(el)
	for i, l := range ls {
		name := elemArr(el, l)
		row := mkSelect(u.get(st, name, l.sort), arr)
		for k, e := range elems {
			et := e.t
			if e.addr != nil {
				et = []*Term{e.one()}
			}
			row = mkStore(row, mkAdd(mkAdd(off, ln), mkInt(int64(k))), et[i])
		}
		// in place: the old array changes; otherwise only the new one
		if inplace != tFalse {
			a := u.get(st, name, l.sort)
			st.heap[name] = mkStore(a, arr, mkIte(inplace, row, mkSelect(a, arr)))
			u.noteWriteIf(st, name, l.sort, arr, inplace)
		}
		u.put(st, name, l.sort, nr, row)
	}
	return Value{typ: s.typ, t: []*Term{mkIte(inplace, arr, nr), off, n, mkIte(inplace, cp, ncap)}}
}

func (u *Unit) noteWriteIf(st *State, name, leafSort string, ref, cond *Term) {
	if u.writes != nil {
		*u.writes = append(*u.writes, write{name, ref, leafSort})
	}
	if u.eng.nodePart(name) {
		u.checkArr(st, ref, cond)
	}
	if u.anyWrite || u.isInit || u.wholeOK[name] {
		return
	}
	if ref.newRef && ref.serial > u.entrySerial() {
		return
	}
	ok := mkLe(u.alloc0, ref)
	for _, t := range u.targets[name] {
		ok = mkOr(ok, mkEq(ref, t))
	}
	u.assert(st, "frame", "writes only what modifies allows: "+name, nil, mkImp(cond, ok))
}

// appendSlice models append(s, t...) for a slice (or string) of unknown length.
func (u *Unit) appendSlice(st *State, s, t Value, el types.Type, tIsString bool) Value {
	arr, off, ln, cp := s.t[0], s.t[1], s.t[2], s.t[3]
	var tl *Term
	if tIsString {
		tl = u.slen(t.one())
	} else {
		tl = t.t[2]
	}
	if tl.op == "int" && tl.iv.IsInt64() && tl.iv.Int64() <= 8 && !tIsString {
		var es []Value
		for k := int64(0); k < tl.iv.Int64(); k++ {
			es = append(es, u.load(st, &Addr{elem: true, root: el, ref: t.t[0], idx: mkAdd(t.t[1], mkInt(k)), typ: el}))
		}
		return u.appendVals(st, s, el, es)
	}
	n := mkAdd(ln, tl)
	inplace := mkAnd(mkLe(n, cp))
	nr := u.newAlloc("app")
	u.onNewArray(st, nr, el)
	ncap := tt.fresh("cap", "Int")
	u.assumeDef(ncap, mkAnd(mkLe(n, ncap), mkLe(mkAdd(off, ncap), mkBig(new(big.Int).Lsh(big.NewInt(1), 62)))))
	for _, l := range u.eng.leaves(el) {
		name := elemArr(el, l)
		a := u.get(st, name, l.sort)
		row := mkSelect(a, arr)
		nrow := tt.fresh("row", row.sort)
		i := mkBound("i", "Int")
		var src *Term
		k := mkSub(i, mkAdd(off, ln))
		if tIsString {
			src = u.sat(t.one(), k)
		} else {
			src = mkSelect(mkSelect(a, t.t[0]), mkAdd(t.t[1], k))
		}
		sel := tt.mk("app", "select", l.sort, []*Term{nrow, i})
		sel.bound = true
		u.assumeDef(nrow, mkForall([]*Term{i}, mkEq(sel, mkIte(mkAnd(mkLe(mkAdd(off, ln), i), mkLt(i, mkAdd(off, n))), src, mkSelect(row, i))), []*Term{sel}))
		st.heap[name] = mkStore(a, arr, mkIte(inplace, nrow, row))
		u.noteWriteIf(st, name, l.sort, arr, mkAnd(inplace, mkLt(mkInt(0), tl)))
		u.put(st, name, l.sort, nr, nrow)
	}
	return Value{typ: s.typ, t: []*Term{mkIte(inplace, arr, nr), off, n, mkIte(inplace, cp, ncap)}}
}

// ---- maps ----

func (u *Unit) mapNames(t types.Type) (has string, val []string, ks string, vls []Leaf, mt *types.Map) {
	mt = u.eng.under(t).(*types.Map)
	kl := u.eng.leaves(mt.Key())
	if len(kl) != 1 {
		unsupported("map key %s", mt.Key())
	}
	ks = kl[0].sort
	base := "M|" + tname(mt) + "|"
	has = base + "has"
	vls = u.eng.leaves(mt.Elem())
	for _, l := range vls {
		val = append(val, base+"val"+l.path)
	}
	return
}

func (u *Unit) mapHas(st *State, t types.Type, m, k *Term) *Term {
	has, _, ks, _, _ := u.mapNames(t)
	return mkSelect(mkSelect(u.get(st, has, arrSort("Int", arrSort(ks, "Bool"))), m), k)
}

func (u *Unit) mapVal(st *State, t types.Type, m, k *Term) Value {
	_, val, ks, vls, mt := u.mapNames(t)
	var ts []*Term
	for i, l := range vls {
		ts = append(ts, mkSelect(mkSelect(u.get(st, val[i], arrSort("Int", arrSort(ks, l.sort))), m), k))
	}
	return Value{typ: mt.Elem(), t: ts}
}

func (u *Unit) lookup(fr *Frame, st *State, x *ssa.Lookup) {
	v := u.val(fr, x.X)
	if b, ok := u.eng.under(x.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		i := u.val(fr, x.Index).one()
		u.safety(st, "index", mkAnd(mkLe(mkInt(0), i), mkLt(i, u.slen(v.one()))))
		r := Value{typ: x.Type(), t: []*Term{u.sat(v.one(), i)}}
		u.typeFacts(r)
		fr.regs[x] = r
		return
	}
	k := u.val(fr, x.Index).one()
	m := v.one()
	has := mkAnd(mkNot(mkEq(m, mkInt(0))), u.mapHas(st, x.X.Type(), m, k))
	raw := u.mapVal(st, x.X.Type(), m, k)
	z := u.zero(raw.typ)
	var ts []*Term
	for i := range raw.t {
		ts = append(ts, mkIte(has, raw.t[i], z.t[i]))
	}
	rv := Value{typ: raw.typ, t: ts}
	u.typeFacts(rv)
	u.onMapLoad(st, x.X.Type(), m, k, has, raw)
	if x.CommaOk {
		fr.regs[x] = Value{typ: x.Type(), tup: []Value{rv, {typ: types.Typ[types.Bool], t: []*Term{has}}}}
		return
	}
	fr.regs[x] = rv
}

func (u *Unit) makeMap(st *State, t types.Type) Value {
	has, val, ks, vls, _ := u.mapNames(t)
	r := u.newAlloc("map")
	hs := arrSort(ks, "Bool")
	u.put(st, has, arrSort("Int", hs), r, mkConstArr(hs, tFalse))
	for i, l := range vls {
		vs := arrSort(ks, l.sort)
		u.put(st, val[i], arrSort("Int", vs), r, mkConstArr(vs, zeroTerm(l.sort)))
	}
	return Value{typ: t, t: []*Term{r}}
}

func (u *Unit) mapUpdate(fr *Frame, st *State, x *ssa.MapUpdate) {
	m := u.val(fr, x.Map).one()
	k := u.val(fr, x.Key).one()
	v := u.val(fr, x.Value)
	vt := v.t
	if v.addr != nil {
		vt = []*Term{v.one()}
	}
	if !m.newRef {
		u.safety(st, "nilmap", mkNot(mkEq(m, mkInt(0))))
	}
	u.onMapStore(st, x.Map.Type(), m, k, v)
	has, val, ks, vls, _ := u.mapNames(x.Map.Type())
	hs := arrSort("Int", arrSort(ks, "Bool"))
	a := u.get(st, has, hs)
	u.put(st, has, hs, m, mkStore(mkSelect(a, m), k, tTrue))
	for i, l := range vls {
		s := arrSort("Int", arrSort(ks, l.sort))
		a := u.get(st, val[i], s)
		u.put(st, val[i], s, m, mkStore(mkSelect(a, m), k, vt[i]))
	}
}

// next models one step of ranging over a string or a map.
func (u *Unit) next(fr *Frame, st *State, x *ssa.Next) {
	unsupported("range over a string or map")
}

// ---- interfaces ----

func (u *Unit) makeIface(v Value, from, to types.Type) Value {
	from = u.eng.subst(from)
	tag := mkInt(int64(u.eng.typeTag(from)))
	switch from.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if v.addr != nil && (v.addr.elem || v.addr.lo != 0 || !types.Identical(v.addr.root, v.addr.typ)) {
			return Value{typ: to, t: []*Term{tag, u.newAlloc("iptr")}}
		}
		return Value{typ: to, t: []*Term{tag, v.one()}}
	case *types.Interface:
		return Value{typ: to, t: v.t}
	}
	n := tname(from)
	b := mkApp("box$"+clean(n), "Int", v.t...)
	for i := range v.t {
		ub := mkApp("unbox$"+n+"$"+fmt.Sprint(i), v.t[i].sort, b)
		if v.t[i].sort == "F64" || v.t[i].sort == "F32" {
			u.items = append(u.items, &Item{kind: "assume", t: mkOp("=", "Bool", ub, v.t[i]), cand: -1})
			continue
		}
		u.fact1(b, mkEq(ub, v.t[i]))
	}
	return Value{typ: to, t: []*Term{tag, b}}
}

func (u *Unit) unbox(t types.Type, dat *Term) Value {
	t = u.eng.subst(t)
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Value{typ: t, t: []*Term{dat}}
	}
	var ts []*Term
	for i, l := range u.eng.leaves(t) {
		ts = append(ts, unboxLeaf(t, i, l.sort, dat))
	}
	v := Value{typ: t, t: ts}
	u.typeFacts(v)
	return v
}

// unboxLeaf is the i-th component of a boxed value.
func unboxLeaf(t types.Type, i int, sort string, dat *Term) *Term {
	if dat.op == "app" && dat.name == "box$"+clean(tname(t)) && i < len(dat.args) && dat.args[i].sort == sort {
		return dat.args[i]
	}
	return mkApp("unbox$"+tname(t)+"$"+fmt.Sprint(i), sort, dat)
}

// implTags is the condition that a dynamic type implements an interface.
func (u *Unit) implCond(tag *Term, it types.Type) *Term {
	iface := it.Underlying().(*types.Interface)
	if iface.NumMethods() == 0 {
		return mkNot(mkEq(tag, mkInt(0)))
	}
	closed := false
	for i := 0; i < iface.NumMethods(); i++ {
		if !iface.Method(i).Exported() {
			closed = true
		}
	}
	r := tFalse
	for _, t := range u.eng.prog.implementers(iface) {
		r = mkOr(r, mkEq(tag, mkInt(int64(u.eng.typeTag(t)))))
	}
	if !closed {
		// types outside the repository may implement it as well
		known := tFalse
		for _, t := range u.eng.prog.allConcrete {
			known = mkOr(known, mkEq(tag, mkInt(int64(u.eng.typeTag(t)))))
		}
		r = mkOr(r, mkAnd(mkNot(known), mkNot(mkEq(tag, mkInt(0))), mkApp("impl$"+clean(tname(it)), "Bool", tag)))
	}
	return r
}

func (u *Unit) typeAssert(st *State, v Value, at types.Type, commaOk bool, rt types.Type) Value {
	at = u.eng.subst(at)
	var ok *Term
	var res Value
	if _, isI := at.Underlying().(*types.Interface); isI {
		ok = u.implCond(v.t[0], at)
		res = Value{typ: at, t: v.t}
	} else {
		ok = mkEq(v.t[0], mkInt(int64(u.eng.typeTag(at))))
		res = u.unbox(at, v.t[1])
		u.onAssert(st, ok, v, at)
	}
	if !commaOk {
		u.assert(st, "safety:typeassert", "type assertion holds", nil, ok)
		u.assume(st, ok)
		return res
	}
	z := u.zero(at)
	var ts []*Term
	for i := range res.t {
		ts = append(ts, mkIte(ok, res.t[i], z.t[i]))
	}
	return Value{typ: rt, tup: []Value{{typ: at, t: ts}, {typ: types.Typ[types.Bool], t: []*Term{ok}}}}
}

// ---- closures ----

func (u *Unit) makeClosure(fr *Frame, st *State, x *ssa.MakeClosure) Value {
	fn := x.Fn.(*ssa.Function)
	var bind []Value
	for _, b := range x.Bindings {
		bind = append(bind, u.val(fr, b))
	}
	ref := u.newAlloc("clo")
	u.closures[ref] = &Closure{fn: fn, bind: bind}
	u.assumeDef(nil, mkEq(mkApp("fnid", "Int", ref), mkInt(int64(u.eng.fnID(fn)))))
	for i, b := range x.Bindings {
		cv, ok := u.captureValue(fr, st, b, fn.FreeVars[i])
		if !ok {
			continue
		}
		for j, t := range cv.t {
			u.assume(st, capEq(ref, fn, i, j, t))
		}
	}
	u.onClosure(fr, st, ref, fn, x)
	return Value{typ: x.Type(), t: []*Term{ref}}
}

func (e *Engine) capName(fn *ssa.Function, i, j int) string {
	return fmt.Sprintf("cap$%d$%d$%d", e.fnID(fn), i, j)
}

func capEq(ref *Term, fn *ssa.Function, i, j int, t *Term) *Term {
	c := mkApp(theEngine.capName(fn, i, j), t.sort, ref)
	if t.sort == "F64" || t.sort == "F32" {
		return mkOp("=", "Bool", c, t)
	}
	return mkEq(c, t)
}

// captureValue: the constant value of a captured variable, if it is never changed after capture.
func (u *Unit) captureValue(fr *Frame, st *State, b ssa.Value, fv *ssa.FreeVar) (Value, bool) {
	if al, ok := b.(*ssa.Alloc); ok {
		if !immutableCell(al) {
			return Value{}, false
		}
		return u.load(st, u.addrOf(u.val(fr, b))), true
	}
	if ofv, ok := b.(*ssa.FreeVar); ok {
		if cv, ok := u.captured(fr, ofv); ok {
			return cv, true
		}
	}
	if _, ok := fv.Type().Underlying().(*types.Pointer); ok && !strings.HasSuffix(fv.Parent().Name(), "$bound") {
		return Value{}, false
	}
	v := u.val(fr, b)
	if v.addr != nil {
		v = Value{typ: v.typ, t: []*Term{v.one()}}
	}
	return v, true
}

// immutableCell: the variable is stored once, in the block structure before any closure captures it.
func immutableCell(al *ssa.Alloc) bool {
	var stores int
	var store *ssa.Store
	var clos []*ssa.MakeClosure
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == al {
				stores++
				store = x
			} else {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			clos = append(clos, x)
		default:
			// field reads of a captured struct are allowed, writes are not
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, rr := range *fa.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == fa {
						return false
					}
				}
				continue
			}
			return false
		}
	}
	if stores != 1 {
		return false
	}
	for _, c := range clos {
		if !(store.Block() == c.Block() || store.Block().Dominates(c.Block())) {
			return false
		}
		if store.Block() == c.Block() {
			for _, ins := range c.Block().Instrs {
				if ins == store {
					break
				}
				if ins == c {
					return false
				}
			}
		}
		for i, b := range c.Bindings {
			if b != al {
				continue
			}
			if !readOnlyFree(c.Fn.(*ssa.Function).FreeVars[i]) {
				return false
			}
		}
	}
	return true
}

func readOnlyFree(fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, rr := range *x.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == x {
					return false
				}
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == fv && !readOnlyFree(x.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// captured gives the by-value content of a captured variable read through its cell.
func (u *Unit) captured(fr *Frame, v ssa.Value) (Value, bool) {
	fv, ok := v.(*ssa.FreeVar)
	if !ok || fr.capByVal == nil {
		return Value{}, false
	}
	for i, f := range fr.fn.FreeVars {
		if f == fv {
			cv, ok := fr.capByVal[i]
			return cv, ok
		}
	}
	return Value{}, false
}

func (u *Unit) runDefers(fr *Frame, st *State) bool {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		// is the defer executed on this path?
		n := commonPrefix(d.pc, st.pc)
		if n == len(d.pc) {
			if !u.callDefer(fr, st, d) {
				return false
			}
			continue
		}
		cond := mkAnd(d.pc[n:]...)
		// contradiction with the path?
		g := mkAnd(append(append([]*Term{}, st.pc...), cond)...)
		if g == tFalse || impossible(st.pc, d.pc[n:]) {
			continue
		}
		s1 := st.with(cond)
		s2 := st.with(mkNot(cond))
		if !u.callDefer(fr, s1, d) {
			return false
		}
		m, _ := u.merge([]*State{s1, s2})
		st.pc, st.heap = m.pc, m.heap
	}
	return true
}

// impossible reports that the path condition syntactically excludes cs.
func impossible(pc, cs []*Term) bool {
	set := map[*Term]bool{}
	for _, p := range pc {
		for _, c := range conjuncts(p) {
			set[c] = true
		}
	}
	for _, c := range cs {
		for _, x := range conjuncts(c) {
			if set[mkNot(x)] {
				return true
			}
		}
	}
	return false
}

func (u *Unit) callDefer(fr *Frame, st *State, d deferRec) bool {
	c := &d.call.Call
	if c.IsInvoke() {
		_, ok := u.invoke(fr, st, c, d.fnv, d.args, nil)
		return ok
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return true
	}
	if f := c.StaticCallee(); f != nil {
		var clo *Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			clo = u.val(fr, mc).one()
		}
		_, ok := u.callFunc(fr, st, f, clo, d.args, nil)
		return ok
	}
	_, ok := u.dynCall(fr, st, c, d.fnv, d.args)
	return ok
}

// ---- calls ----

func (u *Unit) call(fr *Frame, st *State, c *ssa.CallCommon, site ssa.Instruction) (Value, bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return u.builtin(fr, st, b, c, site)
	}
	var args []Value
	for _, a := range c.Args {
		v := u.val(fr, a)
		if v.typ == nil {
			v.typ = a.Type()
		}
		args = append(args, v)
	}
	if c.IsInvoke() {
		return u.invoke(fr, st, c, u.val(fr, c.Value), args, site)
	}
	if f := c.StaticCallee(); f != nil {
		var clo *Term
		if _, ok := c.Value.(*ssa.MakeClosure); ok {
			clo = u.val(fr, c.Value).one()
		}
		return u.callFunc(fr, st, f, clo, args, site)
	}
	return u.dynCall(fr, st, c, u.val(fr, c.Value), args)
}

func (u *Unit) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, site ssa.Instruction) (Value, bool) {
	arg := func(i int) Value { return u.val(fr, c.Args[i]) }
	switch b.Name() {
	case "len", "cap":
		v := arg(0)
		switch t := u.eng.under(c.Args[0].Type()).(type) {
		case *types.Slice:
			i := 2
			if b.Name() == "cap" {
				i = 3
			}
			return Value{typ: types.Typ[types.Int], t: []*Term{v.t[i]}}, true
		case *types.Basic:
			n := u.slen(v.one())
			if n.op != "int" {
				u.fact1(n, mkLe(mkInt(0), n))
			}
			return Value{typ: types.Typ[types.Int], t: []*Term{n}}, true
		case *types.Array:
			return Value{typ: types.Typ[types.Int], t: []*Term{mkInt(t.Len())}}, true
		case *types.Pointer:
			return Value{typ: types.Typ[types.Int], t: []*Term{mkInt(t.Elem().Underlying().(*types.Array).Len())}}, true
		case *types.Map:
			n := u.freshVal("maplen", types.Typ[types.Int])
			u.assume(nil, mkLe(mkInt(0), n.one()))
			return n, true
		}
	case "append":
		s := arg(0)
		el := u.eng.subst(u.eng.under(c.Args[0].Type()).(*types.Slice).Elem())
		s.typ = c.Args[0].Type()
		_, isStr := u.eng.under(c.Args[1].Type()).(*types.Basic)
		return u.appendSlice(st, s, arg(1), el, isStr), true
	case "copy":
		d, s := arg(0), arg(1)
		el := u.eng.subst(u.eng.under(c.Args[0].Type()).(*types.Slice).Elem())
		_, isStr := u.eng.under(c.Args[1].Type()).(*types.Basic)
		sl := tTrue
		_ = sl
		var n *Term
		if isStr {
			n = u.slen(s.one())
		} else {
			n = s.t[2]
		}
		n = mkIte(mkLe(n, d.t[2]), n, d.t[2])
		for _, l := range u.eng.leaves(el) {
			name := elemArr(el, l)
			a := u.get(st, name, l.sort)
			row := mkSelect(a, d.t[0])
			nrow := tt.fresh("row", row.sort)
			i := mkBound("i", "Int")
			k := mkSub(i, d.t[1])
			var src *Term
			if isStr {
				src = u.sat(s.one(), k)
			} else {
				src = mkSelect(mkSelect(a, s.t[0]), mkAdd(s.t[1], k))
			}
			sel := tt.mk("app", "select", l.sort, []*Term{nrow, i})
			u.assumeDef(nrow, mkForall([]*Term{i}, mkEq(sel, mkIte(mkAnd(mkLe(d.t[1], i), mkLt(i, mkAdd(d.t[1], n))), src, mkSelect(row, i))), []*Term{sel}))
			st.heap[name] = mkStore(a, d.t[0], nrow)
			u.noteWriteIf(st, name, l.sort, d.t[0], mkLt(mkInt(0), n))
		}
		return Value{typ: types.Typ[types.Int], t: []*Term{n}}, true
	case "print", "println":
		return Value{}, true
	case "min", "max":
		x, y := arg(0).one(), arg(1).one()
		if len(c.Args) == 2 && x.sort == "Int" {
			if b.Name() == "min" {
				return Value{typ: site.(ssa.Value).Type(), t: []*Term{mkIte(mkLe(x, y), x, y)}}, true
			}
			return Value{typ: site.(ssa.Value).Type(), t: []*Term{mkIte(mkLe(x, y), y, x)}}, true
		}
	case "ssa:wrapnilchk":
		return arg(0), true
	}
	unsupported("builtin %s", b.Name())
	return Value{}, false
}

// bindFrame prepares a frame for a callee.
func (u *Unit) bindFrame(f *ssa.Function, clo *Term, args []Value) *Frame {
	fr := &Frame{fn: f, regs: map[ssa.Value]Value{}, self: clo, args: args}
	for i, p := range f.Params {
		a := args[i]
		if a.addr == nil {
			a.typ = p.Type()
		}
		fr.regs[p] = a
	}
	if len(f.FreeVars) > 0 {
		fr.capByVal = map[int]Value{}
		if c, ok := u.closures[clo]; ok && c.bind != nil {
			fr.free = c.bind
		} else {
			for i, fv := range f.FreeVars {
				pt, isPtr := fv.Type().Underlying().(*types.Pointer)
				bound := strings.HasSuffix(f.Name(), "$bound")
				typ := fv.Type()
				if isPtr && !bound {
					typ = pt.Elem()
				}
				var ts []*Term
				for j, l := range u.eng.leaves(typ) {
					c := mkApp(u.eng.capName(f, i, j), l.sort, clo)
					if o := u.capSubst[c]; o != nil {
						c = o
					}
					ts = append(ts, c)
				}
				v := Value{typ: typ, t: ts}
				u.typeFacts(v)
				if bound {
					fr.free = append(fr.free, v)
				} else {
					if !u.eng.prog.immutableFree(fv) {
						unsupported("closure %s writes a captured variable", f)
					}
					fr.capByVal[i] = v
					fr.free = append(fr.free, Value{typ: fv.Type(), t: []*Term{mkApp(u.eng.capName(f, i, 0)+"cell", "Int", clo)}})
				}
			}
		}
	}
	return fr
}

func (u *Unit) packResults(f *ssa.Function, rets []retRec) (*State, Value, bool) {
	if len(rets) == 0 {
		return nil, Value{}, false
	}
	var sts []*State
	for _, r := range rets {
		sts = append(sts, r.st)
	}
	m, res := u.merge(sts)
	n := f.Signature.Results().Len()
	var out []Value
	for i := 0; i < n; i++ {
		var vs []Value
		for _, r := range rets {
			vs = append(vs, r.vals[i])
		}
		v := mergeVals(res, vs)
		v.typ = f.Signature.Results().At(i).Type()
		out = append(out, v)
	}
	switch n {
	case 0:
		return m, Value{}, true
	case 1:
		return m, out[0], true
	}
	return m, Value{typ: f.Signature.Results(), tup: out}, true
}

func (u *Unit) inlineCall(st *State, f *ssa.Function, clo *Term, args []Value) (Value, bool) {
	for _, s := range u.stack {
		if s.fn == f {
			unsupported("recursive function %s has no contract", f)
		}
	}
	fr := u.bindFrame(f, clo, args)
	pos := u.pos
	rets := u.execFunc(fr, st.clone())
	u.pos = pos
	m, v, ok := u.packResults(f, rets)
	if !ok {
		return Value{}, false
	}
	st.pc, st.heap = m.pc, m.heap
	return v, true
}

func (u *Unit) callFunc(fr *Frame, st *State, f *ssa.Function, clo *Term, args []Value, site ssa.Instruction) (Value, bool) {
	if o := f.Origin(); o != nil && o != f && len(f.TypeArgs()) > 0 {
		// generic instance without a body of its own: use the origin under the substitution
		save := u.eng.tsub
		saveL := u.eng.leafMemo
		ns := map[*types.TypeParam]types.Type{}
		tps := o.TypeParams()
		for i := 0; i < tps.Len(); i++ {
			ns[tps.At(i)] = u.eng.subst(f.TypeArgs()[i])
		}
		u.eng.tsub = ns
		u.eng.leafMemo = map[types.Type][]Leaf{}
		v, ok := u.inlineCall(st, o, clo, args)
		u.eng.tsub, u.eng.leafMemo = save, saveL
		if v.tup == nil && v.typ != nil {
			v.typ = f.Signature.Results().At(0).Type()
		}
		return v, ok
	}
	if con := u.eng.specs.forFunc(f); con != nil && !con.inline {
		return u.callContract(fr, st, con, f, f.Signature, clo, args)
	}
	if v, done, ok := u.intrinsic(fr, st, f, args, site); done {
		return v, ok
	}
	if u.eng.prog.inRepo(f) && len(f.Blocks) > 0 || f.Synthetic != "" && len(f.Blocks) > 0 {
		return u.inlineCall(st, f, clo, args)
	}
	return u.externCall(st, f.String(), f.Signature, args)
}

func (u *Unit) externCall(st *State, name string, sig *types.Signature, args []Value) (Value, bool) {
	u.eng.noteExtern(name)
	return u.freshResults(sig, clean(name)), true
}

func (u *Unit) freshResults(sig *types.Signature, name string) Value {
	n := sig.Results().Len()
	a := u.alloc
	u.bumpAlloc()
	u.noNodesSince(a)
	switch n {
	case 0:
		return Value{}
	case 1:
		return u.freshVal("r_"+name, sig.Results().At(0).Type())
	}
	v := Value{typ: sig.Results()}
	for i := 0; i < n; i++ {
		v.tup = append(v.tup, u.freshVal("r_"+name, sig.Results().At(i).Type()))
	}
	return v
}

func (u *Unit) invoke(fr *Frame, st *State, c *ssa.CallCommon, recv Value, args []Value, site ssa.Instruction) (Value, bool) {
	u.safety(st, "nil", mkNot(mkEq(recv.t[0], mkInt(0))))
	// known dynamic type: dispatch statically
	if recv.t[0].op == "int" {
		if t := u.eng.tagTypes[int(recv.t[0].iv.Int64())]; t != nil {
			if m := u.eng.prog.method(t, c.Method); m != nil {
				rv := u.unbox(t, recv.t[1])
				return u.callFunc(fr, st, m, nil, append([]Value{rv}, args...), site)
			}
		}
	}
	key := tname(c.Value.Type()) + "." + c.Method.Name()
	if u.eng.specs.iface[key] == nil {
		// the method may be declared in an embedded interface
		if r := c.Method.Type().(*types.Signature).Recv(); r != nil {
			key = tname(r.Type()) + "." + c.Method.Name()
		}
	}
	if con := u.eng.specs.iface[key]; con != nil {
		return u.callContract(fr, st, con, nil, c.Method.Type().(*types.Signature), nil, append([]Value{recv}, args...))
	}
	return u.externCall(st, key, c.Method.Type().(*types.Signature), args)
}

func (u *Unit) dynCall(fr *Frame, st *State, c *ssa.CallCommon, fv Value, args []Value) (Value, bool) {
	f := fv.one()
	sig := c.Signature()
	if con := u.eng.specs.functypes[tname(c.Value.Type())]; con != nil && con.always {
		u.safety(st, "nilfunc", mkNot(mkEq(f, mkInt(0))))
		return u.callContract(fr, st, con, nil, sig, f, args)
	}
	if cl, ok := u.closures[f]; ok {
		return u.callFunc(fr, st, cl.fn, f, args, nil)
	}
	// a choice of known functions: split
	if f.op == "app" && f.name == "ite" {
		s1, s2 := st.with(f.args[0]), st.with(mkNot(f.args[0]))
		v1, ok1 := u.dynCall(fr, s1, c, Value{typ: fv.typ, t: []*Term{f.args[1]}}, args)
		v2, ok2 := u.dynCall(fr, s2, c, Value{typ: fv.typ, t: []*Term{f.args[2]}}, args)
		switch {
		case ok1 && ok2:
			m, res := u.merge([]*State{s1, s2})
			st.pc, st.heap = m.pc, m.heap
			if v1.typ == nil && v1.t == nil && v1.tup == nil {
				return Value{}, true
			}
			return mergeVals(res, []Value{v1, v2}), true
		case ok1:
			st.pc, st.heap = s1.pc, s1.heap
			return v1, true
		case ok2:
			st.pc, st.heap = s2.pc, s2.heap
			return v2, true
		}
		return Value{}, false
	}
	u.safety(st, "nilfunc", mkNot(mkEq(f, mkInt(0))))
	if f == mkInt(0) {
		return Value{}, false
	}
	// a function held in a field that only the constructor sets
	if v, done, ok := u.constFieldCall(fr, st, f, args); done {
		return v, ok
	}
	key := tname(c.Value.Type())
	if con := u.eng.specs.functypes[key]; con != nil {
		return u.callContract(fr, st, con, nil, sig, f, args)
	}
	unsupported("call of an unknown function value of type %s", key)
	return Value{}, false
}

func constStringArg(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// intrinsic gives a meaning to a few library functions on known arguments.
func (u *Unit) intrinsic(fr *Frame, st *State, f *ssa.Function, args []Value, site ssa.Instruction) (Value, bool, bool) {
	switch f.String() {
	case "fmt.Sprintf":
		call, ok := site.(*ssa.Call)
		if !ok {
			return Value{}, false, false
		}
		format, ok := constStringArg(call.Call.Args[0])
		if !ok {
			break
		}
		va := args[1]
		n, ok := constLen(va)
		if !ok {
			break
		}
		ift := types.NewInterfaceType(nil, nil)
		part := func(i int, verb string) *Term {
			if i >= n {
				return strConst("%!" + verb + "(MISSING)")
			}
			e := u.load(st, &Addr{elem: true, root: sliceElem(va.typ, ift), ref: va.t[0], idx: mkAdd(va.t[1], mkInt(int64(i))), typ: sliceElem(va.typ, ift)})
			return u.sprintPart(e.t[0], e.t[1], verb)
		}
		out := strConst("")
		rest := format
		k := 0
		bad := false
		for rest != "" {
			i := strings.IndexByte(rest, '%')
			if i < 0 {
				out = mkConcat(out, strConst(rest))
				break
			}
			if i > 0 {
				out = mkConcat(out, strConst(rest[:i]))
			}
			if i+1 >= len(rest) {
				bad = true
				break
			}
			verb := rest[i+1 : i+2]
			if verb == "%" {
				out = mkConcat(out, strConst("%"))
			} else if verb == "*" && i+2 < len(rest) && rest[i+2] == 's' && k+1 < n {
				// padded on the left to a width given as an argument
				e := u.load(st, &Addr{elem: true, root: sliceElem(va.typ, ift), ref: va.t[0], idx: mkAdd(va.t[1], mkInt(int64(k))), typ: sliceElem(va.typ, ift)})
				if e.t[0].op != "int" || u.eng.tagTypes[int(e.t[0].iv.Int64())] != types.Typ[types.Int] {
					bad = true
					break
				}
				w := u.unbox(types.Typ[types.Int], e.t[1]).one()
				out = mkConcat(out, mkApp("padl", "Str", w, part(k+1, "s")))
				k += 2
				i++
			} else if strings.Contains("sdv", verb) {
				out = mkConcat(out, part(k, verb))
				k++
			} else {
				bad = true
				break
			}
			rest = rest[i+2:]
		}
		if bad || k != n {
			break
		}
		u.eng.noteExtern("fmt.Sprintf (modelled: constant format, %s %d %v %*s of strings and integers)")
		return Value{typ: types.Typ[types.String], t: []*Term{out}}, true, true
	case "unicode/utf8.DecodeRune":
		s := args[0]
		row := mkSelect(u.get(st, "E|byte|", "Int"), s.t[0])
		lo, hi := s.t[1], mkAdd(s.t[1], s.t[2])
		r, w := mkApp("decr", "Int", row, lo, hi), mkApp("decw", "Int", row, lo, hi)
		u.fact1(r, decFacts(row, lo, hi, r, w))
		u.eng.noteExtern("utf8.DecodeRune (modelled by decr/decw axioms)")
		return Value{typ: f.Signature.Results(), tup: []Value{{typ: types.Typ[types.Int32], t: []*Term{r}}, {typ: types.Typ[types.Int], t: []*Term{w}}}}, true, true
	}
	return Value{}, false, false
}

// decFacts is what the UTF-8 decoder guarantees about row[lo:hi].
func decFacts(row, lo, hi, r, w *Term) *Term {
	b0 := mkSelect(row, lo)
	n := mkSub(hi, lo)
	ne := mkLt(mkInt(0), n)
	f := mkAnd(
		mkLe(mkInt(0), r), mkLe(r, mkInt(0x10FFFF)),
		mkImp(mkNot(ne), mkAnd(mkEq(r, mkInt(0xFFFD)), mkEq(w, mkInt(0)))),
		mkImp(ne, mkAnd(mkLe(mkInt(1), w), mkLe(w, mkInt(4)), mkLe(w, n))),
		mkImp(mkAnd(ne, mkLt(b0, mkInt(128))), mkAnd(mkEq(r, b0), mkEq(w, mkInt(1)))),
		mkImp(mkAnd(ne, mkLe(mkInt(128), b0)), mkAnd(mkLe(mkInt(128), r), mkLe(r, mkInt(0x10FFFF)), mkImp(mkEq(w, mkInt(1)), mkEq(r, mkInt(0xFFFD))))),
	)
	for j := int64(1); j < 4; j++ {
		f = mkAnd(f, mkImp(mkLt(mkInt(j), w), mkLe(mkInt(128), mkSelect(row, mkAdd(lo, mkInt(j))))))
	}
	return f
}

func sliceElem(t types.Type, def types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return def
}

func constLen(v Value) (int, bool) {
	if len(v.t) == 4 && v.t[2].op == "int" {
		return int(v.t[2].iv.Int64()), true
	}
	return 0, false
}
