package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	prog        *ssa.Program
	pkgs        []*ssa.Package // repository packages, dependencies first
	byName      map[string]*ssa.Package
	root        string
	modPath     string
	verbose     bool
	allConcrete []types.Type
	implMemo    map[string][]types.Type
	funcs       map[string]*ssa.Function
	allFuncs    []*ssa.Function
}

const loadMode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
	packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule

func loadProgram(root string) (*Program, error) {
	pk, err := packages.Load(&packages.Config{Mode: loadMode, Dir: root}, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.Packages(pk, ssa.BuilderMode(0))
	prog.Build()
	p := &Program{prog: prog, root: root, byName: map[string]*ssa.Package{}, implMemo: map[string][]types.Type{}, funcs: map[string]*ssa.Function{}}
	for _, x := range pk {
		if x.Module != nil {
			p.modPath = x.Module.Path
		}
	}
	// dependency order
	seen := map[*packages.Package]bool{}
	idx := map[*packages.Package]*ssa.Package{}
	for i, x := range pk {
		idx[x] = pkgs[i]
	}
	var visit func(x *packages.Package)
	visit = func(x *packages.Package) {
		if seen[x] {
			return
		}
		seen[x] = true
		var ks []string
		for k := range x.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(x.Imports[k])
		}
		if sp := idx[x]; sp != nil && !strings.Contains(x.PkgPath, "/examples/") {
			p.pkgs = append(p.pkgs, sp)
			if _, dup := p.byName[x.Name]; !dup || x.Name != "main" {
				p.byName[x.Name] = sp
			}
		}
	}
	for _, x := range pk {
		visit(x)
	}
	for _, sp := range p.pkgs {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Type:
				t := m.Type()
				if named, ok := t.(*types.Named); ok && named.TypeParams().Len() > 0 {
					continue
				}
				if _, ok := t.Underlying().(*types.Interface); ok {
					continue
				}
				p.allConcrete = append(p.allConcrete, t, types.NewPointer(t))
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							p.addFunc(f)
						}
					}
				}
			case *ssa.Function:
				p.addFunc(m)
			}
		}
	}
	return p, nil
}

func (p *Program) addFunc(f *ssa.Function) {
	k := fnKey(f)
	if _, ok := p.funcs[k]; ok {
		return
	}
	p.funcs[k] = f
	p.allFuncs = append(p.allFuncs, f)
	for _, a := range f.AnonFuncs {
		p.addFunc(a)
	}
}

func (p *Program) pos(x token.Pos) string {
	if !x.IsValid() {
		return ""
	}
	ps := p.prog.Fset.Position(x)
	f := ps.Filename
	if r, err := filepath.Rel(p.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func fnPkg(f *ssa.Function) *ssa.Package {
	if f.Pkg != nil {
		return f.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if f.Parent() != nil {
		return fnPkg(f.Parent())
	}
	return nil
}

func (p *Program) inRepo(f *ssa.Function) bool {
	k := fnPkg(f)
	if k == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return p.inRepoPkg(f.Object().Pkg())
		}
		return false
	}
	return p.inRepoPkg(k.Pkg)
}

func (p *Program) inRepoPkg(k *types.Package) bool {
	return k.Path() == p.modPath || strings.HasPrefix(k.Path(), p.modPath+"/")
}

func fnKey(f *ssa.Function) string {
	if f.Parent() != nil {
		return fnKey(f.Parent()) + "$" + f.Name()[strings.LastIndex(f.Name(), "$")+1:]
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + tname(r.Type()) + ")." + f.Name()
	}
	if k := fnPkg(f); k != nil {
		return k.Pkg.Name() + "." + f.Name()
	}
	return f.String()
}

func (p *Program) implementers(it *types.Interface) []types.Type {
	k := types.TypeString(it, nil)
	if r, ok := p.implMemo[k]; ok {
		return r
	}
	var out []types.Type
	for _, t := range p.allConcrete {
		if !types.Implements(t, it) {
			continue
		}
		out = append(out, t)
	}
	p.implMemo[k] = out
	return out
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	s := ms.Lookup(m.Pkg(), m.Name())
	if s == nil {
		return nil
	}
	return p.prog.MethodValue(s)
}

// immutableFree: a captured variable that nobody changes after capture.
func (p *Program) immutableFree(fv *ssa.FreeVar) bool {
	if !readOnlyFree(fv) {
		return false
	}
	fn := fv.Parent()
	par := fn.Parent()
	if par == nil {
		return false
	}
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	found := false
	for _, b := range par.Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			found = true
			switch x := mc.Bindings[idx].(type) {
			case *ssa.Alloc:
				if !immutableCell(x) {
					return false
				}
			case *ssa.FreeVar:
				if !p.immutableFree(x) {
					return false
				}
			default:
				return false
			}
		}
	}
	return found
}

// ---- globals ----

type overlay struct {
	name string
	ref  *Term
	val  *Term
}

var theEngine *Engine

func newEngine(p *Program) *Engine {
	e := &Engine{prog: p, leafMemo: map[types.Type][]Leaf{}, tagMemo: map[string]int{}, tagTypes: map[int]types.Type{},
		fnIDs: map[string]int{}, fnByID: map[int]any{}, globalRefs: map[string]int{}, externs: map[string]bool{},
		constVals: map[*ssa.Global]Value{}, overlays: map[string][]overlay{}}
	theEngine = e
	return e
}

func (e *Engine) noteExtern(name string) { e.externs[name] = true }

func (e *Engine) globalRef(g *ssa.Global) int {
	k := g.Pkg.Pkg.Path() + "." + g.Name()
	if r, ok := e.globalRefs[k]; ok {
		return r
	}
	r := -1 - len(e.globalRefs)
	e.globalRefs[k] = r
	return r
}

func (e *Engine) globalVal(u *Unit, g *ssa.Global) (Value, bool) {
	if u.isInit {
		if g.Name() == "init$guard" {
			return Value{typ: types.Typ[types.Bool], t: []*Term{tFalse}}, true
		}
		return Value{}, false
	}
	v, ok := e.constVals[g]
	return v, ok
}

func (e *Engine) initialHeap(name, sort string, isInit bool) *Term {
	if isInit {
		return mkSym("I@"+clean(name), sort)
	}
	t := mkSym(clean(name)+"@0", sort)
	for _, o := range e.overlays[name] {
		t = mkStore(t, o.ref, o.val)
	}
	return t
}

// constGlobals determines which package variables keep the value the initialiser gives them.
func (e *Engine) constGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	isInit := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	var seenF = map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if seenF[f] {
			return
		}
		seenF[f] = true
		for _, a := range f.AnonFuncs {
			scan(a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var rands [12]*ssa.Value
				for _, op := range ins.Operands(rands[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					out[g] = true
					if isInit(f) {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
						if _, isMap := x.Type().Underlying().(*types.Map); isMap {
							for _, r := range *x.Referrers() {
								switch y := r.(type) {
								case *ssa.Lookup, *ssa.DebugRef, *ssa.Range:
								case *ssa.Call:
									if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
										bad[g] = true
									}
								default:
									bad[g] = true
								}
							}
						}
					case *ssa.IndexAddr:
						for _, r := range *x.Referrers() {
							if y, ok := r.(*ssa.UnOp); !ok || y.X != x {
								bad[g] = true
							}
						}
					case *ssa.DebugRef:
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for _, f := range e.prog.allFuncs {
		scan(f)
	}
	for _, p := range e.prog.pkgs {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				scan(f)
			}
		}
	}
	for g := range bad {
		delete(out, g)
	}
	return out
}

// runInit executes the package initialisers of the packages whose variables the proofs read.
func (e *Engine) runInit(pkgs ...string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(*Unsupported); ok {
				err = fmt.Errorf("package initialiser: %s", u.msg)
				return
			}
			panic(r)
		}
	}()
	consts := e.constGlobals()
	for _, name := range pkgs {
		p := e.prog.byName[name]
		if p == nil {
			continue
		}
		f := p.Func("init")
		u := e.newUnit("init " + name)
		u.isInit = true
		u.fn = f
		st := &State{heap: map[string]*Term{}}
		u.entry = st
		fr := &Frame{fn: f, regs: map[ssa.Value]Value{}}
		rets := u.execFunc(fr, st)
		if len(rets) != 1 || len(rets[0].st.pc) != 0 {
			return fmt.Errorf("initialiser of %s is not straight-line", name)
		}
		end := rets[0].st
		e.initItems = append(e.initItems, u.items...)
		for _, it := range u.items {
			if it.kind == "assert" && it.t != tTrue {
				e.initAsserts = append(e.initAsserts, it)
			}
		}
		for g := range consts {
			if g.Pkg != p || g.Name() == "init$guard" {
				continue
			}
			el := g.Type().Underlying().(*types.Pointer).Elem()
			ref := mkInt(int64(e.globalRef(g)))
			switch t := el.Underlying().(type) {
			case *types.Array:
				for _, l := range e.leaves(t.Elem()) {
					n := elemArr(t.Elem(), l)
					e.overlays[n] = append(e.overlays[n], overlay{n, ref, mkSelect(u.get(end, n, l.sort), ref)})
				}
			default:
				v := u.load(end, &Addr{root: el, ref: ref, typ: el})
				e.constVals[g] = v
				if _, ok := t.(*types.Map); ok {
					has, val, ks, vls, _ := u.mapNames(el)
					r := v.one()
					if r.newRef {
						e.overlays[has] = append(e.overlays[has], overlay{has, r, mkSelect(u.get(end, has, arrSort("Int", arrSort(ks, "Bool"))), r)})
						for i, l := range vls {
							e.overlays[val[i]] = append(e.overlays[val[i]], overlay{val[i], r, mkSelect(u.get(end, val[i], arrSort("Int", arrSort(ks, l.sort))), r)})
						}
					} else {
						delete(e.constVals, g)
					}
				}
			}
		}
		e.initRefs = append(e.initRefs, u.alloc)
	}
	return nil
}
