package main

import (
	"go/ast"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (u *Unit) onConvert(st *State, x *ssa.ChangeType, v Value)              {}
func (u *Unit) onAssert(st *State, ok *Term, v Value, at types.Type)         {}
func (u *Unit) onMapLoad(st *State, mt types.Type, m, k, has *Term, v Value) {}
func (u *Unit) onMapStore(st *State, mt types.Type, m, k *Term, v Value)     {}
func (u *Unit) beforeCall(st *State, con *Contract, env *Env)                {}
func (u *Unit) afterCall(st *State, con *Contract, env *Env, res Value)      {}
func (u *Unit) atEntry(st *State, env *Env, clo *Term)                       {}

// modTarget evaluates one modifies entry to heap cells.
func (u *Unit) modTarget(m *Clause, env *Env) (out []write) {
	cells := func(x Value, pt types.Type, lo, n int) {
		a := u.addrOf(x)
		ls := u.eng.leaves(a.root)
		for i := a.lo + lo; i < a.lo+lo+n; i++ {
			nm := objArr(a.root, ls[i])
			u.leafSort[nm] = ls[i].sort
			out = append(out, write{nm, a.ref, ls[i].sort})
		}
	}
	switch x := m.expr.(type) {
	case *ast.SelectorExpr:
		b := env.ev(x.X)
		pt, ok := isPtrToStruct(u.eng.subst(b.typ))
		if !ok {
			evfail("modifies wants a field of a pointer")
		}
		st := pt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == x.Sel.Name {
				lo, n := u.eng.fieldRange(pt, i)
				cells(b, pt, lo, n)
				return
			}
		}
		evfail("no field %s", x.Sel.Name)
	case *ast.StarExpr:
		b := env.ev(x.X)
		pt, ok := isPtrToStruct(u.eng.subst(b.typ))
		if !ok {
			evfail("modifies wants a pointer")
		}
		cells(b, pt, 0, len(u.eng.leaves(pt)))
		return
	case *ast.Ident:
		if s, ok := u.eng.specs.ghosts[x.Name]; ok {
			u.leafSort["G|"+x.Name] = s
			out = append(out, write{"G|" + x.Name, nil, s})
			return
		}
	case *ast.CallExpr:
		id := x.Fun.(*ast.Ident)
		switch id.Name {
		case "elems":
			b := env.ev(x.Args[0])
			s := u.eng.under(b.typ).(*types.Slice)
			el := u.eng.subst(s.Elem())
			for _, l := range u.eng.leaves(el) {
				nm := elemArr(el, l)
				u.leafSort[nm] = l.sort
				out = append(out, write{nm, b.t[0], l.sort})
			}
			return
		case "mapof":
			b := env.ev(x.Args[0])
			has, val, ks, vls, _ := u.mapNames(b.typ)
			hs := arrSort("Int", arrSort(ks, "Bool"))
			u.leafSort[has] = hs
			out = append(out, write{has, b.one(), hs})
			for i, l := range vls {
				s := arrSort("Int", arrSort(ks, l.sort))
				u.leafSort[val[i]] = s
				out = append(out, write{val[i], b.one(), s})
			}
			return
		}
	}
	evfail("cannot modify %s", m.text)
	return
}
