# Contracts for package main (cmd/cddlc).
package main

func main.errorStringer(src, errs) (outs)
  safety C08
  nonodes
  requires 0 <= off(src) && len(src) <= cap(src) && 0 <= off(errs) && len(errs) <= cap(errs)
  requires [C08] srclines == 1 + cntall(row(src), 10, off(src), off(src)+len(src))
  requires [C08] forall(i, off(errs), off(errs)+len(errs), isa(at(errs, i), "*parser.Error") && dat(at(errs, i)) != 0 && PosOK(as(at(errs, i), "*parser.Error").Range.Start))
  ensures [C08] "every diagnostic is shown once" len(outs) == len(errs)
  ensures [C08] "in order, each with the line it starts at" forall(i, 0, len(errs), outs[i] == Shown(src, errs[i]))
  inv [C08] len(phi0) == phi1 + 1
  inv [C08] forall(i, 0, len(phi0), phi0[i] == Shown(src, errs[i]))
  inv [C08] 0 <= off(phi0) && len(phi0) <= cap(phi0)
  inv [C08] len(phi1) == phi0 + 1
  inv [C08] forall(i, 0, len(phi1), phi1[i] == Shown(src, errs[i]))
  inv [C08] 0 <= off(phi1) && len(phi1) <= cap(phi1)
