# Node invariants: what a finished node of each type looks like.
# below(x): x is a finished node below this one; wf(x): x is a finished node.
package ast

# binding strength of the operator at the root of a tree, 9 if there is no infix operator
pred Lvl(n) = ite(isa(n, "*ast.TypeChoice"), ite(as(n, "*ast.TypeChoice").Token == token.GROUP_CHOICE, 2, 6), ite(isa(n, "*ast.Entry"), 5, ite(CtlNode(n), 7, 9)))
pred CtlNode(n) = isa(n, "*ast.Range") || isa(n, "*ast.SizeOperatorControl") || isa(n, "*ast.Regexp") || isa(n, "*ast.Bits") || isa(n, "*ast.ComparatorOpControl")
# strength of the tightest operator that may follow the tree
pred LL(n) = ite(isa(n, "*ast.TypeChoice"), ite(as(n, "*ast.TypeChoice").Token == token.GROUP_CHOICE, 1, 5), ite(isa(n, "*ast.Entry"), 5, ite(CtlNode(n), 7, 9)))

node ast.Identifier(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.BooleanType(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.BooleanLiteral(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Range.Start)
node ast.BstrType(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.BytesType(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.TstrType(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.TextLiteral(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.FloatType(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.FloatLiteral(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Range.Start)
node ast.UintType(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Range.Start)
node ast.UintLiteral(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.IntegerType(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.NegativeIntegerType(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.IntegerLiteral(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.NullType(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
node ast.Comment(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)

node ast.BadNode(x)
  nodeinv [C06,C08,C09,C10,C11,C13] "never part of a finished tree" false

node ast.CommentGroup(x)
  nodeinv [C06,C08,C09,C10,C11,C13] "at least one comment" 1 <= len(x.List) && 0 <= off(x.List) && len(x.List) <= cap(x.List) && frozen(x.List)
  nodeinv [C06,C08,C09,C10,C11,C13] "no comment missing" forall(i, off(x.List), off(x.List)+len(x.List), below(at(x.List, i)))

node ast.TypeChoice(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "both alternatives" below(x.First) && below(x.Second)
  nodeinv [C11] "a choice operator" oneof(x.Token, token.TYPE_CHOICE, token.GROUP_CHOICE)
  nodeinv [C11] "nothing looser inside, the chain to the right" ite(x.Token == token.GROUP_CHOICE, Lvl(x.First) >= 3 && Lvl(x.Second) >= 2, Lvl(x.First) >= 7 && Lvl(x.Second) >= 6)

node ast.GroupChoice(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "both alternatives" below(x.First) && below(x.Second)
  nodeinv [C11] "not built by the parser" false

node ast.Range(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "both bounds" below(x.From) && below(x.To)
  nodeinv [C11] "nothing looser inside" Lvl(x.From) >= 7 && Lvl(x.To) > 7

node ast.SizeOperatorControl(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "type and size" below(x.Type) && below(x.Size)
  nodeinv [C11] "nothing looser inside" Lvl(x.Type) >= 7 && Lvl(x.Size) > 7

node ast.Regexp(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "base and expression" below(x.Base) && below(x.Regex)
  nodeinv [C11] "nothing looser inside" Lvl(x.Regex) > 7

node ast.Bits(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "base and constraint" below(x.Base) && below(x.Contstraint)
  nodeinv [C11] "nothing looser inside" Lvl(x.Base) >= 7 && Lvl(x.Contstraint) > 7

node ast.ComparatorOpControl(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "both sides" below(x.Left) && below(x.Right)
  nodeinv [C11] "nothing looser inside" Lvl(x.Left) >= 7 && Lvl(x.Right) > 7

node ast.Entry(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "name and value" below(x.Name) && below(x.Value)
  nodeinv [C06,C08,C09,C10,C11,C13] "a trailing comment is complete" x.TrailingComment != nil ==> below(x.TrailingComment)
  nodeinv [C11] "nothing looser inside" Lvl(x.Value) > 5

node ast.Rule(x)
  nodeinv [C06,C08,C09,C10,C11,C13] "name and value" below(x.Name) && below(x.Value)
  nodeinv [C06,C08,C09,C10,C11,C13] "a trailing comment is complete" x.TrailingComment != nil ==> below(x.TrailingComment)

node ast.Optional(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "item" below(x.Item)
  nodeinv [C11] "nothing looser inside" Lvl(x.Item) > 4

node ast.NMOccurrence(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "lower bound and item" below(x.N) && below(x.Item)
  nodeinv [C06,C08,C09,C10,C11,C13] "an upper bound is complete" x.M != nil ==> below(x.M)
  nodeinv [C11] "nothing looser inside" Lvl(x.Item) > 4

node ast.Unwrap(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "item" below(x.Item)
  nodeinv [C11] "nothing looser inside" Lvl(x.Item) > 8

node ast.Enumeration(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "item" below(x.Value)
  nodeinv [C11] "nothing looser inside" Lvl(x.Value) > 8

node ast.Tag(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "its parts, if there, are complete" (x.Major != nil ==> below(x.Major)) && (x.TagNumber != nil ==> below(x.TagNumber)) && (x.Item != nil ==> below(x.Item))

node ast.Group(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "entries are its own" 0 <= off(x.Entries) && len(x.Entries) <= cap(x.Entries) && frozen(x.Entries)
  nodeinv [C06,C08,C09,C10,C11,C13] "no entry missing" forall(i, off(x.Entries), off(x.Entries)+len(x.Entries), below(at(x.Entries, i)))

node ast.Array(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "entries are its own" 0 <= off(x.Rules) && len(x.Rules) <= cap(x.Rules) && frozen(x.Rules)
  nodeinv [C06,C08,C09,C10,C11,C13] "no entry missing" forall(i, off(x.Rules), off(x.Rules)+len(x.Rules), below(at(x.Rules, i)))

node ast.Map(x)
  nodeinv [C08] "its position is in the source" PosOK(x.Pos)
  nodeinv [C06,C08,C09,C10,C11,C13] "entries are its own" 0 <= off(x.Rules) && len(x.Rules) <= cap(x.Rules) && frozen(x.Rules)
  nodeinv [C06,C08,C09,C10,C11,C13] "no entry missing" forall(i, off(x.Rules), off(x.Rules)+len(x.Rules), below(at(x.Rules, i)))

node ast.CDDL(x)
  nodeinv [C08] "the root has no position and is below nothing" false
  nodeinv [C06,C08,C09,C10,C11,C13] "rules are its own" 0 <= off(x.Rules) && len(x.Rules) <= cap(x.Rules) && frozen(x.Rules)
  nodeinv [C06,C08,C09,C10,C11,C13] "no rule missing" forall(i, off(x.Rules), off(x.Rules)+len(x.Rules), below(at(x.Rules, i)))

iface ast.Node.Start(n) (pos)
  safety C06, C09
  requires [C06,C08,C09,C10,C11,C13] wf(n) && nodesok()
  nonodes
  decreases pos: ht(n)
  ensures [C08] "starts in the source" PosOK(pos)

iface ast.Node.End(n) (pos)
  safety C06, C09
  requires [C06,C08,C09,C10,C11,C13] wf(n) && nodesok()
  nonodes
  decreases pos: ht(n)
