# Contracts for package golang (transforms/codegen/golang).
package gogen

extern go/format.Node(dst, fset, node) (err)
  modifies bad, printed
  ensures Fails(err) && printed == store(old(printed), dat(dst), ite(err == nil, dat(node), 0))

func gogen.NewGenerator(pkgName) (g)
  nonodes
  safety C16
  ensures "a generator of its own" g != nil && fresh(g) && g.file != nil && fresh(g.file)
  ensures "without imports yet" len(g.imports) == 0 && len(g.file.Imports) == 0 && len(g.file.Decls) == 0 && arr(g.file.Imports) == 0

# Visit is not verified: it writes no memory but its generator's, and either adds what the node stands for or panics.
func (*gogen.Generator).Visit(g, node) (v)
  trusted
  modifies visited
  ensures visited == store(old(visited), ref(g.file), dat(node))

func (*gogen.Generator).String(g, output) (err)
  nonodes
  safety C16
  requires g != nil && g.file != nil && output != nil
  modifies bad, printed, g.file.Imports, g.file.Decls, elems(g.file.Imports)
  ensures [C16] "an error unless the file is printed" err == nil ==> bad == old(bad) && printed == store(old(printed), dat(output), ref(old(g.file)))
