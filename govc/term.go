package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id     int
	op     string // "int" "true" "false" "sym" "app" "forall" "exists"
	name   string // symbol / function name / SMT operator
	args   []*Term
	sort   string
	iv     *big.Int
	serial int  // for symbols: creation serial (maximum over args for applications)
	bound  bool // mentions a bound variable
	// quantifiers
	vars   []*Term
	pats   [][]*Term
	weight int // how reluctantly it is instantiated
	// symbol kinds
	newRef bool // allocation symbol, distinct from every other allocation and from everything older
	isRef  bool // an opaque reference symbol known to be older than its serial
	sc     string
	hasSC  bool
}

type TermTable struct {
	tab     map[string]*Term
	n       int
	serial  int
	decls   map[string]string // uninterpreted function name -> declaration
	strs    map[string]*Term  // string constants
	strList []*Term
	selMemo map[[2]int]*Term
}

var tt = &TermTable{tab: map[string]*Term{}, decls: map[string]string{}, strs: map[string]*Term{}, selMemo: map[[2]int]*Term{}}

func (t *TermTable) mk(op, name string, sort string, args []*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if x, ok := t.tab[k]; ok {
		return x
	}
	t.n++
	x := &Term{id: t.n, op: op, name: name, args: args, sort: sort}
	for _, a := range args {
		if a.bound {
			x.bound = true
		}
		if a.serial > x.serial {
			x.serial = a.serial
		}
	}
	t.tab[k] = x
	return x
}

var tTrue = tt.mk("true", "true", "Bool", nil)
var tFalse = tt.mk("false", "false", "Bool", nil)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkInt(n int64) *Term { return mkBig(big.NewInt(n)) }

func mkBig(b *big.Int) *Term {
	x := tt.mk("int", b.String(), "Int", nil)
	if x.iv == nil {
		x.iv = new(big.Int).Set(b)
	}
	return x
}

func (t *TermTable) fresh(prefix, sort string) *Term {
	t.serial++
	name := fmt.Sprintf("%s!%d", clean(prefix), t.serial)
	x := t.mk("sym", name, sort, nil)
	x.serial = t.serial
	return x
}

func mkSym(name, sort string) *Term { return tt.mk("sym", name, sort, nil) }

func mkBound(name, sort string) *Term {
	x := tt.mk("sym", "?"+name, sort, nil)
	x.bound = true
	return x
}

func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func isConst(t *Term) bool { return t.op == "int" }

func mkNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "app" && a.name == "not":
		return a.args[0]
	}
	return tt.mk("app", "not", "Bool", []*Term{a})
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tFalse {
			return false
		}
		if a == tTrue || seen[a.id] {
			return true
		}
		if a.op == "app" && a.name == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk("app", "and", "Bool", out)
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tTrue {
			return false
		}
		if a == tFalse || seen[a.id] {
			return true
		}
		if a.op == "app" && a.name == "or" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk("app", "or", "Bool", out)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	return tt.mk("app", "=>", "Bool", []*Term{a, b})
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "app" && c.name == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.sort == "Bool" {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts differ: %s %s (%s / %s)", a.sort, b.sort, a, b))
	}
	if a.op == "app" && a.name == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "app" && b.name == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	return tt.mk("app", "ite", a.sort, []*Term{c, a, b})
}

// refDistinct reports that two reference terms surely differ.
func refDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "int" && b.op == "int" {
		return true
	}
	if a.newRef && b.newRef {
		return true
	}
	if a.newRef && b.op == "int" || b.newRef && a.op == "int" {
		return true
	}
	if a.newRef && b.isRef && b.serial < a.serial {
		return true
	}
	if b.newRef && a.isRef && a.serial < b.serial {
		return true
	}
	return false
}

func isStrConst(t *Term) bool { return t.op == "sym" && strings.HasPrefix(t.name, "str$") }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("= sorts differ: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if a.sort == "Int" {
		if a.op == "int" && b.op == "int" {
			return tFalse
		}
		if refDistinct(a, b) {
			return tFalse
		}
		d := linOf(a).sub(linOf(b))
		if len(d.c) == 0 {
			return mkBool(d.k.Sign() == 0)
		}
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
		if a == mkNot(b) {
			return tFalse
		}
	}
	if isStrConst(a) && isStrConst(b) {
		return tFalse
	}
	// ite against a constant
	for i := 0; i < 2; i++ {
		if (b.op == "int" || isStrConst(b)) && a.op == "app" && a.name == "ite" && (valueLike(a.args[1]) || valueLike(a.args[2])) {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.sort == "F64" || a.sort == "F32" {
		panic("use fpeq")
	}
	return tt.mk("app", "=", "Bool", []*Term{a, b})
}

func valueLike(t *Term) bool {
	return t.op == "int" || isStrConst(t) || t.op == "app" && t.name == "ite" && (valueLike(t.args[1]) || valueLike(t.args[2]))
}

// linear integer arithmetic normal form
type lin struct {
	c map[*Term]*big.Int
	k *big.Int
}

func linOf(t *Term) *lin {
	l := &lin{c: map[*Term]*big.Int{}, k: new(big.Int)}
	l.addTerm(t, big.NewInt(1))
	return l
}

func (l *lin) addTerm(t *Term, m *big.Int) {
	switch {
	case t.op == "int":
		l.k.Add(l.k, new(big.Int).Mul(t.iv, m))
	case t.op == "app" && t.name == "+":
		for _, a := range t.args {
			l.addTerm(a, m)
		}
	case t.op == "app" && t.name == "*" && len(t.args) == 2 && t.args[0].op == "int":
		l.addTerm(t.args[1], new(big.Int).Mul(m, t.args[0].iv))
	default:
		c, ok := l.c[t]
		if !ok {
			c = new(big.Int)
			l.c[t] = c
		}
		c.Add(c, m)
		if c.Sign() == 0 {
			delete(l.c, t)
		}
	}
}

func (l *lin) sub(o *lin) *lin {
	r := &lin{c: map[*Term]*big.Int{}, k: new(big.Int).Sub(l.k, o.k)}
	for t, c := range l.c {
		r.c[t] = new(big.Int).Set(c)
	}
	for t, c := range o.c {
		x, ok := r.c[t]
		if !ok {
			x = new(big.Int)
			r.c[t] = x
		}
		x.Sub(x, c)
		if x.Sign() == 0 {
			delete(r.c, t)
		}
	}
	return r
}

func (l *lin) term() *Term {
	var ts []*Term
	for t := range l.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	one := big.NewInt(1)
	for _, t := range ts {
		c := l.c[t]
		if c.Cmp(one) == 0 {
			args = append(args, t)
		} else {
			args = append(args, tt.mk("app", "*", "Int", []*Term{mkBig(c), t}))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, mkBig(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return tt.mk("app", "+", "Int", args)
}

func mkAdd(a, b *Term) *Term {
	l := linOf(a)
	l.addTerm(b, big.NewInt(1))
	return l.term()
}

func mkSub(a, b *Term) *Term {
	l := linOf(a)
	l.addTerm(b, big.NewInt(-1))
	return l.term()
}

func mkMul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return mkBig(new(big.Int).Mul(a.iv, b.iv))
	}
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		l := &lin{c: map[*Term]*big.Int{}, k: new(big.Int)}
		l.addTerm(b, a.iv)
		return l.term()
	}
	return tt.mk("app", "*", "Int", []*Term{a, b})
}

func mkLe(a, b *Term) *Term {
	d := linOf(a).sub(linOf(b))
	if len(d.c) == 0 {
		return mkBool(d.k.Sign() <= 0)
	}
	for i := 0; i < 2; i++ {
		if b.op == "int" && a.op == "app" && a.name == "ite" && (valueLike(a.args[1]) && valueLike(a.args[2])) {
			if i == 0 {
				return mkIte(a.args[0], mkLe(a.args[1], b), mkLe(a.args[2], b))
			}
			return mkIte(a.args[0], mkLe(b, a.args[1]), mkLe(b, a.args[2]))
		}
		a, b = b, a
	}
	return tt.mk("app", "<=", "Bool", []*Term{a, b})
}

func mkLt(a, b *Term) *Term { return mkNot(mkLe(b, a)) }
func mkGe(a, b *Term) *Term { return mkLe(b, a) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

func arrSort(idx, elem string) string { return "(Array " + idx + " " + elem + ")" }

// elemSort returns the element sort of an array sort.
func elemSort(s string) (string, string) {
	// (Array I E)
	body := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("not an array sort " + s)
}

func mkSelect(a, i *Term) *Term {
	_, es := elemSort(a.sort)
	key := [2]int{a.id, i.id}
	if r, ok := tt.selMemo[key]; ok {
		return r
	}
	var r *Term
	switch {
	case a.op == "app" && a.name == "store":
		if a.args[1] == i {
			r = a.args[2]
		} else if a.args[1].sort == "Int" && distinctIdx(a.args[1], i) || isStrConst(a.args[1]) && isStrConst(i) {
			r = mkSelect(a.args[0], i)
		} else if !i.bound && !a.args[1].bound && (a.args[1].sort == "Int" || a.args[1].sort == "Str") {
			r = mkIte(mkEq(a.args[1], i), a.args[2], mkSelect(a.args[0], i))
		}
	case a.op == "app" && a.name == "ite":
		r = mkIte(a.args[0], mkSelect(a.args[1], i), mkSelect(a.args[2], i))
	case a.op == "app" && a.name == "const":
		r = a.args[0]
	}
	if r == nil {
		r = tt.mk("app", "select", es, []*Term{a, i})
	}
	tt.selMemo[key] = r
	return r
}

func distinctIdx(a, b *Term) bool {
	if refDistinct(a, b) {
		return true
	}
	d := linOf(a).sub(linOf(b))
	return len(d.c) == 0 && d.k.Sign() != 0
}

func mkStore(a, i, v *Term) *Term {
	if a.op == "app" && a.name == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v == mkSelect(a, i) {
		return a
	}
	return tt.mk("app", "store", a.sort, []*Term{a, i, v})
}

func mkConstArr(sort string, v *Term) *Term {
	return tt.mk("app", "const", sort, []*Term{v})
}

// mkApp builds an application of an uninterpreted function (declared on first use).
func mkApp(name, sort string, args ...*Term) *Term {
	if _, ok := tt.decls[name]; !ok {
		var b strings.Builder
		b.WriteString("(declare-fun " + name + " (")
		for i, a := range args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.sort)
		}
		b.WriteString(") " + sort + ")")
		tt.decls[name] = b.String()
	}
	return tt.mk("app", name, sort, args)
}

// mkOp builds an application of a builtin SMT operator.
func mkOp(name, sort string, args ...*Term) *Term { return tt.mk("app", name, sort, args) }

func mkForall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue {
		return tTrue
	}
	return mkQuant("forall", vars, body, pats...)
}

func mkExists(vars []*Term, body *Term) *Term { return mkQuant("exists", vars, body) }

func mkQuant(q string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	// key by printing
	name := q
	for _, v := range vars {
		name += " " + v.name + ":" + v.sort
	}
	args := []*Term{body}
	for _, p := range pats {
		name += "{"
		for _, x := range p {
			name += fmt.Sprint(x.id, ",")
		}
	}
	x := tt.mk(q, name, "Bool", args)
	x.vars = vars
	x.pats = pats
	x.bound = hasFreeBound(body, vars)
	return x
}

func hasFreeBound(t *Term, vars []*Term) bool {
	vs := map[*Term]bool{}
	for _, v := range vars {
		vs[v] = true
	}
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if !t.bound || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == "sym" {
			return !vs[t]
		}
		if t.op == "forall" || t.op == "exists" {
			return true // has free bound variables of its own; treat conservatively
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// substitute replaces symbols by terms.
func substTerm(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = substTerm(a, m, memo)
		if args[i] != a {
			same = false
		}
	}
	r := t
	if !same {
		if t.op == "forall" || t.op == "exists" {
			var pats [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, substTerm(x, m, memo))
				}
				pats = append(pats, q)
			}
			if t.op == "forall" && args[0] == tTrue {
				memo[t] = tTrue
				return tTrue
			}
			r = mkQuant(t.op, t.vars, args[0], pats...)
			if len(r.vars) > 0 {
				r.weight = t.weight
			}
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.name {
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "=":
		return mkEq(args[0], args[1])
	case "<=":
		return mkLe(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = mkAdd(r, a)
		}
		return r
	case "*":
		return mkMul(args[0], args[1])
	case "select":
		return mkSelect(args[0], args[1])
	case "store":
		return mkStore(args[0], args[1], args[2])
	}
	return tt.mk(t.op, t.name, t.sort, args)
}

// strConst returns the constant for a Go string.
func strConst(s string) *Term {
	if t, ok := tt.strs[s]; ok {
		return t
	}
	t := mkSym(fmt.Sprintf("str$%d", len(tt.strs)), "Str")
	tt.strs[s] = t
	t.sc, t.hasSC = s, true
	tt.strList = append(tt.strList, t)
	return t
}

func (t *Term) String() string {
	var b strings.Builder
	writeTerm(&b, t, 0)
	return b.String()
}

func writeTerm(b *strings.Builder, t *Term, depth int) {
	if depth > 8 {
		b.WriteString("…")
		return
	}
	switch t.op {
	case "int", "true", "false":
		b.WriteString(t.name)
	case "sym":
		if t.hasSC {
			b.WriteString(strconv.Quote(t.sc))
		} else {
			b.WriteString(t.name)
		}
	case "forall", "exists":
		b.WriteString("(" + t.op)
		for _, v := range t.vars {
			b.WriteString(" " + v.name)
		}
		b.WriteString(". ")
		writeTerm(b, t.args[0], depth+1)
		b.WriteString(")")
	default:
		b.WriteString("(" + t.name)
		for _, a := range t.args {
			b.WriteByte(' ')
			writeTerm(b, a, depth+1)
		}
		b.WriteByte(')')
	}
}
