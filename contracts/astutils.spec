# Contracts for package astutils (ast/astutils/walk.go).
#
# The ghosts record the calls that one activation of Walk makes: a call of Visit or of Walk is one event, whatever
# happens inside it.  Walk's own events are numbered from the value nev has on entry; towards its caller it is one.
package astutils

ghost nev Int
# how many events the activation that ended last made
ghost inner Int
# event k: 0 a call of Visit, 1 a call of Walk
ghost kind (Array Int Int)
# the node and the visitor of a call of Visit, and the visitor that it returned
ghost vnT (Array Int Int)
ghost vnD (Array Int Int)
ghost vvT (Array Int Int)
ghost vvD (Array Int Int)
ghost rT (Array Int Int)
ghost rD (Array Int Int)
# the node and the visitor of a call of Walk
ghost wnT (Array Int Int)
ghost wnD (Array Int Int)
ghost wvT (Array Int Int)
ghost wvD (Array Int Int)

pred EvKept() = forall(k, k < old(nev) ==> kind[k] == old(kind)[k]) && forall(k, k < old(nev) ==> vnT[k] == old(vnT)[k]) && forall(k, k < old(nev) ==> vnD[k] == old(vnD)[k]) && forall(k, k < old(nev) ==> vvT[k] == old(vvT)[k]) && forall(k, k < old(nev) ==> vvD[k] == old(vvD)[k]) && forall(k, k < old(nev) ==> rT[k] == old(rT)[k]) && forall(k, k < old(nev) ==> rD[k] == old(rD)[k]) && forall(k, k < old(nev) ==> wnT[k] == old(wnT)[k]) && forall(k, k < old(nev) ==> wnD[k] == old(wnD)[k]) && forall(k, k < old(nev) ==> wvT[k] == old(wvT)[k]) && forall(k, k < old(nev) ==> wvD[k] == old(wvD)[k])
# the visitor that Visit(node) returned
pred First(v, node) = vnT[old(nev)] == tag(node) && vnD[old(nev)] == dat(node) && vvT[old(nev)] == tag(v) && vvD[old(nev)] == dat(v)
# the i-th call after Visit(node) walks the child x with that visitor
pred Child(i, x) = kind[old(nev)+i] == 1 && wnT[old(nev)+i] == tag(x) && wnD[old(nev)+i] == dat(x) && wvT[old(nev)+i] == rT[old(nev)] && wvD[old(nev)+i] == rD[old(nev)]
# after n children comes Visit(nil), and nothing more
pred Last(n) = inner == n + 2 && kind[old(nev)+n+1] == 0 && vnT[old(nev)+n+1] == 0 && vvT[old(nev)+n+1] == rT[old(nev)] && vvD[old(nev)+n+1] == rD[old(nev)]
pred Opt(x) = ite(x != nil, 1, 0)

iface astutils.Visitor.Visit(v, node) (w)
  nonodes
  modifies nev, kind, vnT, vnD, vvT, vvD, rT, rD
  update kind == store(kind, old(nev), 0)
  update vnT == store(vnT, old(nev), tag(node))
  update vnD == store(vnD, old(nev), dat(node))
  update vvT == store(vvT, old(nev), tag(v))
  update vvD == store(vvD, old(nev), dat(v))
  update rT == store(rT, old(nev), tag(w))
  update rD == store(rD, old(nev), dat(w))
  update nev == old(nev) + 1
  ensures "one event" nev == old(nev)+1 && kind == store(old(kind), old(nev), 0)
  ensures "recorded" vnT == store(old(vnT), old(nev), tag(node))
  ensures "recorded" vnD == store(old(vnD), old(nev), dat(node))
  ensures "recorded" vvT == store(old(vvT), old(nev), tag(v))
  ensures "recorded" vvD == store(old(vvD), old(nev), dat(v))
  ensures "recorded" rT == store(old(rT), old(nev), tag(w))
  ensures "recorded" rD == store(old(rD), old(nev), dat(w))

func astutils.Walk(v, node) ()
  safety C13
  split node
  nonodes
  requires v != nil
  requires [C13] wf(node) && nodesok()
  modifies nev, inner, kind, vnT, vnD, vvT, vvD, rT, rD, wnT, wnD, wvT, wvD
  decreases walk: ht(node)
  update inner == nev - old(nev)
  update kind == store(kind, old(nev), 1)
  update wnT == store(wnT, old(nev), tag(node))
  update wnD == store(wnD, old(nev), dat(node))
  update wvT == store(wvT, old(nev), tag(v))
  update wvD == store(wvD, old(nev), dat(v))
  update nev == old(nev) + 1
  ensures [C13] "one event" nev == old(nev)+1 && kind[old(nev)] == 1 && wnT[old(nev)] == tag(node) && wnD[old(nev)] == dat(node) && wvT[old(nev)] == tag(v) && wvD[old(nev)] == dat(v)
  ensures [C13] "earlier events stay" EvKept()
  shows [C13] "the node is visited first" First(v, node)
  shows [C13] "nothing below it if Visit returned nil" rT[old(nev)] == 0 ==> inner == 1
  shows [C13] "every element of Array, in order" rT[old(nev)] != 0 && isa(node, "*ast.Array") ==> forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.Array").Rules), kind[k] == 1) && forall(i, off(as(node, "*ast.Array").Rules), off(as(node, "*ast.Array").Rules)+len(as(node, "*ast.Array").Rules), wnT[old(nev)+1+i-off(as(node, "*ast.Array").Rules)] == tag(at(as(node, "*ast.Array").Rules, i))) && forall(i, off(as(node, "*ast.Array").Rules), off(as(node, "*ast.Array").Rules)+len(as(node, "*ast.Array").Rules), wnD[old(nev)+1+i-off(as(node, "*ast.Array").Rules)] == dat(at(as(node, "*ast.Array").Rules, i))) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.Array").Rules), wvT[k] == rT[old(nev)]) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.Array").Rules), wvD[k] == rD[old(nev)]) && Last(len(as(node, "*ast.Array").Rules))
  shows [C13] "every element of CDDL, in order" rT[old(nev)] != 0 && isa(node, "*ast.CDDL") ==> forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.CDDL").Rules), kind[k] == 1) && forall(i, off(as(node, "*ast.CDDL").Rules), off(as(node, "*ast.CDDL").Rules)+len(as(node, "*ast.CDDL").Rules), wnT[old(nev)+1+i-off(as(node, "*ast.CDDL").Rules)] == tag(at(as(node, "*ast.CDDL").Rules, i))) && forall(i, off(as(node, "*ast.CDDL").Rules), off(as(node, "*ast.CDDL").Rules)+len(as(node, "*ast.CDDL").Rules), wnD[old(nev)+1+i-off(as(node, "*ast.CDDL").Rules)] == dat(at(as(node, "*ast.CDDL").Rules, i))) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.CDDL").Rules), wvT[k] == rT[old(nev)]) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.CDDL").Rules), wvD[k] == rD[old(nev)]) && Last(len(as(node, "*ast.CDDL").Rules))
  shows [C13] "every element of Group, in order" rT[old(nev)] != 0 && isa(node, "*ast.Group") ==> forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.Group").Entries), kind[k] == 1) && forall(i, off(as(node, "*ast.Group").Entries), off(as(node, "*ast.Group").Entries)+len(as(node, "*ast.Group").Entries), wnT[old(nev)+1+i-off(as(node, "*ast.Group").Entries)] == tag(at(as(node, "*ast.Group").Entries, i))) && forall(i, off(as(node, "*ast.Group").Entries), off(as(node, "*ast.Group").Entries)+len(as(node, "*ast.Group").Entries), wnD[old(nev)+1+i-off(as(node, "*ast.Group").Entries)] == dat(at(as(node, "*ast.Group").Entries, i))) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.Group").Entries), wvT[k] == rT[old(nev)]) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.Group").Entries), wvD[k] == rD[old(nev)]) && Last(len(as(node, "*ast.Group").Entries))
  shows [C13] "every element of Map, in order" rT[old(nev)] != 0 && isa(node, "*ast.Map") ==> forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.Map").Rules), kind[k] == 1) && forall(i, off(as(node, "*ast.Map").Rules), off(as(node, "*ast.Map").Rules)+len(as(node, "*ast.Map").Rules), wnT[old(nev)+1+i-off(as(node, "*ast.Map").Rules)] == tag(at(as(node, "*ast.Map").Rules, i))) && forall(i, off(as(node, "*ast.Map").Rules), off(as(node, "*ast.Map").Rules)+len(as(node, "*ast.Map").Rules), wnD[old(nev)+1+i-off(as(node, "*ast.Map").Rules)] == dat(at(as(node, "*ast.Map").Rules, i))) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.Map").Rules), wvT[k] == rT[old(nev)]) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.Map").Rules), wvD[k] == rD[old(nev)]) && Last(len(as(node, "*ast.Map").Rules))
  shows [C13] "every element of CommentGroup, in order" rT[old(nev)] != 0 && isa(node, "*ast.CommentGroup") ==> forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.CommentGroup").List), kind[k] == 1) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.CommentGroup").List), wnT[k] == typetag("*ast.Comment")) && forall(i, off(as(node, "*ast.CommentGroup").List), off(as(node, "*ast.CommentGroup").List)+len(as(node, "*ast.CommentGroup").List), wnD[old(nev)+1+i-off(as(node, "*ast.CommentGroup").List)] == dat(at(as(node, "*ast.CommentGroup").List, i))) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.CommentGroup").List), wvT[k] == rT[old(nev)]) && forall(k, old(nev)+1, old(nev)+1+len(as(node, "*ast.CommentGroup").List), wvD[k] == rD[old(nev)]) && Last(len(as(node, "*ast.CommentGroup").List))
  shows [C13] "the parts of Bits, in order" rT[old(nev)] != 0 && isa(node, "*ast.Bits") ==> Child(1, as(node, "*ast.Bits").Base) && Child(2, as(node, "*ast.Bits").Contstraint) && Last(2)
  shows [C13] "the parts of ComparatorOpControl, in order" rT[old(nev)] != 0 && isa(node, "*ast.ComparatorOpControl") ==> Child(1, as(node, "*ast.ComparatorOpControl").Left) && Child(2, as(node, "*ast.ComparatorOpControl").Right) && Last(2)
  shows [C13] "the parts of Regexp, in order" rT[old(nev)] != 0 && isa(node, "*ast.Regexp") ==> Child(1, as(node, "*ast.Regexp").Base) && Child(2, as(node, "*ast.Regexp").Regex) && Last(2)
  shows [C13] "the parts of SizeOperatorControl, in order" rT[old(nev)] != 0 && isa(node, "*ast.SizeOperatorControl") ==> Child(1, as(node, "*ast.SizeOperatorControl").Type) && Child(2, as(node, "*ast.SizeOperatorControl").Size) && Last(2)
  shows [C13] "the parts of Enumeration, in order" rT[old(nev)] != 0 && isa(node, "*ast.Enumeration") ==> Child(1, as(node, "*ast.Enumeration").Value) && Last(1)
  shows [C13] "the parts of GroupChoice, in order" rT[old(nev)] != 0 && isa(node, "*ast.GroupChoice") ==> Child(1, as(node, "*ast.GroupChoice").First) && Child(2, as(node, "*ast.GroupChoice").Second) && Last(2)
  shows [C13] "the parts of Optional, in order" rT[old(nev)] != 0 && isa(node, "*ast.Optional") ==> Child(1, as(node, "*ast.Optional").Item) && Last(1)
  shows [C13] "the parts of Range, in order" rT[old(nev)] != 0 && isa(node, "*ast.Range") ==> Child(1, as(node, "*ast.Range").From) && Child(2, as(node, "*ast.Range").To) && Last(2)
  shows [C13] "the parts of TypeChoice, in order" rT[old(nev)] != 0 && isa(node, "*ast.TypeChoice") ==> Child(1, as(node, "*ast.TypeChoice").First) && Child(2, as(node, "*ast.TypeChoice").Second) && Last(2)
  shows [C13] "the parts of Unwrap, in order" rT[old(nev)] != 0 && isa(node, "*ast.Unwrap") ==> Child(1, as(node, "*ast.Unwrap").Item) && Last(1)
  shows [C13] "the parts of Entry, in order" rT[old(nev)] != 0 && isa(node, "*ast.Entry") ==> (as(node, "*ast.Entry").Name != nil ==> Child(1, as(node, "*ast.Entry").Name)) && (as(node, "*ast.Entry").Value != nil ==> Child(1+Opt(as(node, "*ast.Entry").Name), as(node, "*ast.Entry").Value)) && (as(node, "*ast.Entry").TrailingComment != nil ==> Child(1+Opt(as(node, "*ast.Entry").Name)+Opt(as(node, "*ast.Entry").Value), as(node, "*ast.Entry").TrailingComment)) && Last(Opt(as(node, "*ast.Entry").Name)+Opt(as(node, "*ast.Entry").Value)+Opt(as(node, "*ast.Entry").TrailingComment))
  shows [C13] "the parts of Rule, in order" rT[old(nev)] != 0 && isa(node, "*ast.Rule") ==> (as(node, "*ast.Rule").Name != nil ==> Child(1, as(node, "*ast.Rule").Name)) && (as(node, "*ast.Rule").Value != nil ==> Child(1+Opt(as(node, "*ast.Rule").Name), as(node, "*ast.Rule").Value)) && (as(node, "*ast.Rule").TrailingComment != nil ==> Child(1+Opt(as(node, "*ast.Rule").Name)+Opt(as(node, "*ast.Rule").Value), as(node, "*ast.Rule").TrailingComment)) && Last(Opt(as(node, "*ast.Rule").Name)+Opt(as(node, "*ast.Rule").Value)+Opt(as(node, "*ast.Rule").TrailingComment))
  shows [C13] "the parts of NMOccurrence, in order" rT[old(nev)] != 0 && isa(node, "*ast.NMOccurrence") ==> (as(node, "*ast.NMOccurrence").N != nil ==> Child(1, as(node, "*ast.NMOccurrence").N)) && (as(node, "*ast.NMOccurrence").M != nil ==> Child(1+Opt(as(node, "*ast.NMOccurrence").N), as(node, "*ast.NMOccurrence").M)) && (as(node, "*ast.NMOccurrence").Item != nil ==> Child(1+Opt(as(node, "*ast.NMOccurrence").N)+Opt(as(node, "*ast.NMOccurrence").M), as(node, "*ast.NMOccurrence").Item)) && Last(Opt(as(node, "*ast.NMOccurrence").N)+Opt(as(node, "*ast.NMOccurrence").M)+Opt(as(node, "*ast.NMOccurrence").Item))
  shows [C13] "the parts of Tag, in order" rT[old(nev)] != 0 && isa(node, "*ast.Tag") ==> (as(node, "*ast.Tag").Major != nil ==> Child(1, as(node, "*ast.Tag").Major)) && (as(node, "*ast.Tag").TagNumber != nil ==> Child(1+Opt(as(node, "*ast.Tag").Major), as(node, "*ast.Tag").TagNumber)) && (as(node, "*ast.Tag").Item != nil ==> Child(1+Opt(as(node, "*ast.Tag").Major)+Opt(as(node, "*ast.Tag").TagNumber), as(node, "*ast.Tag").Item)) && Last(Opt(as(node, "*ast.Tag").Major)+Opt(as(node, "*ast.Tag").TagNumber)+Opt(as(node, "*ast.Tag").Item))
  shows [C13] "a leaf has nothing below it" (rT[old(nev)] != 0 && (isa(node, "*ast.BooleanLiteral") || isa(node, "*ast.BooleanType") || isa(node, "*ast.BytesType") || isa(node, "*ast.BstrType") || isa(node, "*ast.Comment") || isa(node, "*ast.FloatType") || isa(node, "*ast.FloatLiteral") || isa(node, "*ast.Identifier") || isa(node, "*ast.IntegerType") || isa(node, "*ast.NegativeIntegerType") || isa(node, "*ast.IntegerLiteral") || isa(node, "*ast.NullType") || isa(node, "*ast.TextLiteral") || isa(node, "*ast.TstrType") || isa(node, "*ast.UintLiteral") || isa(node, "*ast.UintType"))) ==> Last(0)
  inv [C13] EvKept() && First(v, node) && rT[old(nev)] != 0
  inv [C13] nev == old(nev) + 2 + phi0
  inv [C13] rT[old(nev)] == pre(rT)[old(nev)] && rD[old(nev)] == pre(rD)[old(nev)]
  inv [C13] forall(k, old(nev)+1, old(nev)+2+phi0, kind[k] == 1)
  inv [C13] forall(k, old(nev)+1, old(nev)+2+phi0, wvT[k] == rT[old(nev)])
  inv [C13] forall(k, old(nev)+1, old(nev)+2+phi0, wvD[k] == rD[old(nev)])
  inv [C13] isa(node, "*ast.Array") ==> forall(i, off(as(node, "*ast.Array").Rules), off(as(node, "*ast.Array").Rules)+phi0+1, wnT[old(nev)+1+i-off(as(node, "*ast.Array").Rules)] == tag(at(as(node, "*ast.Array").Rules, i)))
  inv [C13] isa(node, "*ast.Array") ==> forall(i, off(as(node, "*ast.Array").Rules), off(as(node, "*ast.Array").Rules)+phi0+1, wnD[old(nev)+1+i-off(as(node, "*ast.Array").Rules)] == dat(at(as(node, "*ast.Array").Rules, i)))
  inv [C13] isa(node, "*ast.CDDL") ==> forall(i, off(as(node, "*ast.CDDL").Rules), off(as(node, "*ast.CDDL").Rules)+phi0+1, wnT[old(nev)+1+i-off(as(node, "*ast.CDDL").Rules)] == tag(at(as(node, "*ast.CDDL").Rules, i)))
  inv [C13] isa(node, "*ast.CDDL") ==> forall(i, off(as(node, "*ast.CDDL").Rules), off(as(node, "*ast.CDDL").Rules)+phi0+1, wnD[old(nev)+1+i-off(as(node, "*ast.CDDL").Rules)] == dat(at(as(node, "*ast.CDDL").Rules, i)))
  inv [C13] isa(node, "*ast.Group") ==> forall(i, off(as(node, "*ast.Group").Entries), off(as(node, "*ast.Group").Entries)+phi0+1, wnT[old(nev)+1+i-off(as(node, "*ast.Group").Entries)] == tag(at(as(node, "*ast.Group").Entries, i)))
  inv [C13] isa(node, "*ast.Group") ==> forall(i, off(as(node, "*ast.Group").Entries), off(as(node, "*ast.Group").Entries)+phi0+1, wnD[old(nev)+1+i-off(as(node, "*ast.Group").Entries)] == dat(at(as(node, "*ast.Group").Entries, i)))
  inv [C13] isa(node, "*ast.Map") ==> forall(i, off(as(node, "*ast.Map").Rules), off(as(node, "*ast.Map").Rules)+phi0+1, wnT[old(nev)+1+i-off(as(node, "*ast.Map").Rules)] == tag(at(as(node, "*ast.Map").Rules, i)))
  inv [C13] isa(node, "*ast.Map") ==> forall(i, off(as(node, "*ast.Map").Rules), off(as(node, "*ast.Map").Rules)+phi0+1, wnD[old(nev)+1+i-off(as(node, "*ast.Map").Rules)] == dat(at(as(node, "*ast.Map").Rules, i)))
  inv [C13] isa(node, "*ast.CommentGroup") ==> forall(k, old(nev)+1, old(nev)+2+phi0, wnT[k] == typetag("*ast.Comment"))
  inv [C13] isa(node, "*ast.CommentGroup") ==> forall(i, off(as(node, "*ast.CommentGroup").List), off(as(node, "*ast.CommentGroup").List)+phi0+1, wnD[old(nev)+1+i-off(as(node, "*ast.CommentGroup").List)] == dat(at(as(node, "*ast.CommentGroup").List, i)))
