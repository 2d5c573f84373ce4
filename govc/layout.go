package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Leaf struct {
	path string
	sort string
	typ  types.Type // Go type of the leaf's owner (slice, interface, pointer, int ...)
	part string     // "", "arr","off","len","cap","tag","dat"
}

type Engine struct {
	nodesUsed   bool
	nodeParts   []string // heap parts that nodesok() reads
	prog        *Program
	tsub        map[*types.TypeParam]types.Type // current generic substitution
	leafMemo    map[types.Type][]Leaf
	tagMemo     map[string]int
	tagTypes    map[int]types.Type
	fnIDs       map[string]int
	fnByID      map[int]any
	specs       *Specs
	stringTyp   types.Type
	globalRefs  map[string]int
	externs     map[string]bool
	constVals   map[*ssa.Global]Value
	overlays    map[string][]overlay
	initItems   []*Item
	initAsserts []*Item
	initRefs    []*Term
	prop        string
	needed      map[*Contract]bool
	missing     []string
	work        []*Contract
	ctors       map[string]*ctorTable
	inCtor      bool
	ctorErr     error // the constructors could not be executed
	ctorFailed  bool  // and contracts of theirs are needed
	ctorNeeds   []*Contract
	callEdges   map[[2]*Contract]bool
}

func qual(p *types.Package) string { return p.Name() }

// tname is the short, stable name of a type.
func tname(t types.Type) string { return types.TypeString(t, qual) }

func (e *Engine) subst(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		if r, ok := e.tsub[tp]; ok {
			return r
		}
		unsupported("type parameter %s without a substitution", tp)
	}
	return t
}

func unsupported(format string, args ...any) {
	panic(&Unsupported{fmt.Sprintf(format, args...)})
}

type Unsupported struct{ msg string }

func (u *Unsupported) Error() string { return u.msg }

func (e *Engine) under(t types.Type) types.Type {
	t = e.subst(t)
	return t.Underlying()
}

func sortOfBasic(b *types.Basic) string {
	switch {
	case b.Info()&types.IsInteger != 0, b.Kind() == types.UnsafePointer:
		return "Int"
	case b.Info()&types.IsBoolean != 0:
		return "Bool"
	case b.Info()&types.IsString != 0:
		return "Str"
	case b.Kind() == types.Float64, b.Kind() == types.UntypedFloat:
		return "F64"
	case b.Kind() == types.Float32:
		return "F32"
	case b.Kind() == types.UntypedNil, b.Kind() == types.Invalid:
		return "Int"
	}
	unsupported("basic type %s", b)
	return ""
}

func (e *Engine) leaves(t types.Type) []Leaf {
	t = e.subst(t)
	if l, ok := e.leafMemo[t]; ok {
		return l
	}
	var out []Leaf
	switch u := t.Underlying().(type) {
	case *types.Basic:
		out = []Leaf{{"", sortOfBasic(u), t, ""}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		out = []Leaf{{"", "Int", t, ""}}
	case *types.Slice:
		for _, p := range []string{"arr", "off", "len", "cap"} {
			out = append(out, Leaf{"#" + p, "Int", t, p})
		}
	case *types.Interface:
		out = []Leaf{{"#tag", "Int", t, "tag"}, {"#dat", "Int", t, "dat"}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range e.leaves(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.path, l.sort, l.typ, l.part})
			}
		}
	case *types.Array:
		for _, l := range e.leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + l.path, arrSort("Int", l.sort), l.typ, l.part})
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range e.leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf("@%d", i) + l.path, l.sort, l.typ, l.part})
			}
		}
	default:
		unsupported("type %s", t)
	}
	e.leafMemo[t] = out
	return out
}

// fieldRange gives the leaf interval of field i of struct type t.
func (e *Engine) fieldRange(t types.Type, i int) (lo, n int) {
	st := e.under(t).(*types.Struct)
	for j := 0; j < i; j++ {
		lo += len(e.leaves(st.Field(j).Type()))
	}
	return lo, len(e.leaves(st.Field(i).Type()))
}

func (e *Engine) tupleRange(t *types.Tuple, i int) (lo, n int) {
	for j := 0; j < i; j++ {
		lo += len(e.leaves(t.At(j).Type()))
	}
	return lo, len(e.leaves(t.At(i).Type()))
}

// typeTag is the dynamic-type number of a concrete type.
func (e *Engine) typeTag(t types.Type) int {
	t = e.subst(t)
	k := types.TypeString(t, nil)
	if n, ok := e.tagMemo[k]; ok {
		return n
	}
	n := len(e.tagMemo) + 1
	e.tagMemo[k] = n
	e.tagTypes[n] = t
	return n
}

func isPtrToStruct(t types.Type) (types.Type, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return p.Elem(), ok
}

// ---- values ----

type Addr struct {
	elem bool // element heap (ref = array, idx) or object heap
	root types.Type
	ref  *Term
	idx  *Term
	lo   int // first leaf within root
	typ  types.Type
}

type Value struct {
	typ  types.Type
	t    []*Term
	addr *Addr // for pointer values known as interior addresses
	tup  []Value
	fn   any // *FuncVal for known functions
}

func (v Value) one() *Term {
	if v.addr != nil {
		if !v.addr.elem && v.addr.lo == 0 && types.Identical(v.addr.root, v.addr.typ) {
			return v.addr.ref
		}
		unsupported("interior pointer used as a value (%s)", tname(v.addr.root))
	}
	if len(v.t) != 1 {
		panic(fmt.Sprintf("value of %v has %d parts", v.typ, len(v.t)))
	}
	return v.t[0]
}

func objArr(root types.Type, l Leaf) string  { return "O|" + tname(root) + "|" + l.path }
func elemArr(root types.Type, l Leaf) string { return "E|" + tname(root) + "|" + l.path }

func heapSort(name string, leafSort string) string {
	switch {
	case strings.HasPrefix(name, "O|"):
		return arrSort("Int", leafSort)
	case strings.HasPrefix(name, "E|"):
		return arrSort("Int", arrSort("Int", leafSort))
	}
	panic(name)
}
