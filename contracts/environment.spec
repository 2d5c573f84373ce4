# Contracts for package environment: a table from names to nodes.
package environment

pred EnvOK(e) = e != nil && e.symbols != nil

func (*environment.Environment).Add(e, ident, value) (err)
  nonodes
  safety C06, C12
  requires EnvOK(e)
  modifies mapof(e.symbols)
  ensures [C12] "succeeds exactly if the name is new" (err == nil) == !old(has(e.symbols, ident))
  ensures [C12] "reports a name that is there already" err != nil ==> err == ErrSymbolExists
  ensures "the name is there afterwards" has(e.symbols, ident)
  ensures "a new name gets the value" !old(has(e.symbols, ident)) ==> e.symbols[ident] == value
  ensures "a name that is there keeps its value" old(has(e.symbols, ident)) ==> e.symbols[ident] == old(e.symbols[ident])
  ensures "no other name changes" forallv(k, "Str", k != ident ==> has(e.symbols, k) == old(has(e.symbols, k)) && e.symbols[k] == old(e.symbols[k]))

func (*environment.Environment).Exists(e, ident) (ok)
  nonodes
  safety C06, C12
  requires EnvOK(e)
  ensures "exactly the added names exist" ok == has(e.symbols, ident)

func (*environment.Environment).Get(e, ident) (v)
  nonodes
  safety C06, C12
  requires EnvOK(e)
  ensures "what was added, else nothing" ite(has(e.symbols, ident), v == e.symbols[ident], v == nil)

func environment.NewEnvironment() (e)
  nonodes
  safety C06, C12
  ensures "a new table of its own" EnvOK(e) && fresh(e) && fresh(e.symbols)
  ensures "empty" forallv(k, "Str", !has(e.symbols, k))

extern errors.New(text) (err)
  ensures [C16] forall(t, forall(d, wraps(tag(err), dat(err), t, d) == (t == tag(err) && d == dat(err)))) && fresh(err)
  ensures "never nil" err != nil
