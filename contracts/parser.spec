# Contracts for package parser.
package parser

ctor parser.Parser parser.NewParser

# diags counts the diagnostics created
count [C07] parser.Error diags

pred LexSt(l) = l != nil && LexOK(l) && LinesMem(l) && ErrMem(l) && 1 <= Rem(l) && (AtEOF(l) ==> Rem(l) == 1)
# symbols hold finished nodes only
pred EnvNodes(e) = forallv(k, "Str", has(e.symbols, k) ==> wf(e.symbols[k]))
pred TasksOK(p) = off(p.tasks) == 0 && forall(i, 0, len(p.tasks), capok("parser.taskFn", at(p.tasks, i), p))
pred PInv(p) = p != nil && LexSt(p.lexer) && asbuilt(p.nuds) && asbuilt(p.leds) && asbuilt(p.error) && asbuilt(p.errorHandler)
   && EnvOK(p.environment) && TasksOK(p)
   && (p.currToken == token.EOF ==> p.peekToken == token.EOF) && (p.peekToken == token.EOF ==> AtEOF(p.lexer))
pred NInv(p) = nodesok() && EnvNodes(p.environment)
pred IInv(p) = (p.currToken == token.IDENT ==> 1 <= len(p.currliteral)) && (p.peekToken == token.IDENT ==> 1 <= len(p.peekLiteral))
# the source that is parsed has srclines lines
pred SInv(p) = srclines == LN(p.lexer) && LexLines(p.lexer) && ErrPos(p.lexer) && PosOK(p.pos) && PosOK(p.peekPos)
pred ErrOK(e) = isa(e, "*parser.Error") && dat(e) != 0 && there(as(e, "*parser.Error")) && PosOK(as(e, "*parser.Error").Range.Start)
pred ErrsOK(p) = off(p.errors) == 0 && forall(i, 0, len(p.errors), isa(at(p.errors, i), "*parser.Error")) && forall(i, 0, len(p.errors), there(as(at(p.errors, i), "*parser.Error")))
   && forall(i, 0, len(p.errors), PosOK(as(at(p.errors, i), "*parser.Error").Range.Start))
# what is left to parse
pred R(p) = Rem(p.lexer) + ite(p.currToken == token.EOF, 0, 1) + ite(p.peekToken == token.EOF, 0, 1)
pred ArrOwn(p) = (arr(p.tasks) == old(arr(p.tasks)) || fresh(p.tasks)) && (arr(p.lexer.lineOffsets) == old(arr(p.lexer.lineOffsets)) || fresh(p.lexer.lineOffsets)) && (arr(p.lexer.Errors) == old(arr(p.lexer.Errors)) || fresh(p.lexer.Errors))
pred TasksKept(p) = old(len(p.tasks)) <= len(p.tasks) && forall(i, 0, old(len(p.tasks)), at(p.tasks, i) == old(at(p.tasks, i)))
# the first task added since then checks that the name is declared
pred Checks(p, name) = old(len(p.tasks)) < len(p.tasks) && capstrs(at(p.tasks, old(len(p.tasks)))) == 1 && capstr(at(p.tasks, old(len(p.tasks)))) == name
# why an entry ends: its comma or comment, no operator, or one that binds no tighter than b
pred Ended(p) = p.currToken == token.COMMA || (p.currToken == token.COMMENT && p.peekToken != token.COMMA)
pred Stop(p, b) = Ended(p) || !has(p.leds, p.peekToken) || Prec(p.peekToken) <= b
pred ErrOwn(p) = arr(p.errors) == old(arr(p.errors)) || fresh(p.errors)

# ---- C10: what was written ----
# every parsed entry is numbered in the order in which its parse began, and recorded under its number
ghost nent Int
ghost elogT (Array Int Int)
ghost elogD (Array Int Int)
# the result of the handler that ran last
ghost curT Int
ghost curD Int
# every rule or comment of the file, in order
ghost nrule Int
ghost rlogT (Array Int Int)
ghost rlogD (Array Int Int)
pred E(x, k) = tag(x) == elogT[k] && dat(x) == elogD[k]
pred LogKept() = old(nent) <= nent && forall(k, k < old(nent) ==> elogT[k] == old(elogT)[k] && elogD[k] == old(elogD)[k])
pred At0(q, r) = q.Line == r.Line && q.Column == r.Column
pred Leaf(n, pos, t) = At0(n.Pos, pos) && n.Token == t
# an upper bound written after the operator
pred OccM(n, t, lit) = ite(t == token.INT && lit != "int", n.M != nil && n.M.Literal == parseuint(lit, 0), n.M == nil)
pred OccN(n, left) = ite(isa(left, "*ast.UintLiteral"), n.N == as(left, "*ast.UintLiteral"), isa(left, "*ast.IntegerLiteral") && n.N.Literal == as(left, "*ast.IntegerLiteral").Literal)
pred EntryName(x, left) = ite(isa(left, "*ast.Identifier"), x == as(left, "*ast.Identifier"), isa(left, "*ast.IntegerLiteral") && x.Name == itoa(as(left, "*ast.IntegerLiteral").Literal))
pred TagNo(n, t, lit) = ite(t == token.INT, n.Major != nil && n.Major.Literal == parseuint(lit, 0) && n.TagNumber == nil, ite(t == token.FLOAT, n.Major != nil && n.TagNumber != nil && npieces(lit, ".") == 2 && n.Major.Literal == parseuint(piece(lit, ".", 0), 0) && n.TagNumber.Literal == parseuint(piece(lit, ".", 1), 0), n.Major == nil && n.TagNumber == nil))
fun parseuint(Str, Int) Int
fun parseint(Str, Int) Int
fun parsefloat(Str, Int) F64
fun piece(Str, Str, Int) Str
fun npieces(Str, Str) Int

extern strconv.ParseUint(s, base, bits) (v, err)
  ensures "the value written" err == nil ==> v == parseuint(s, base)
extern strconv.ParseInt(s, base, bits) (v, err)
  ensures "the value written" err == nil ==> v == parseint(s, base)
extern strconv.ParseFloat(s, bits) (v, err)
  ensures "the value written" err == nil ==> same(v, parsefloat(s, bits))
extern strings.Split(s, sep) (parts)
  ensures "pieces in order" len(parts) == npieces(s, sep) && 0 <= off(parts) && len(parts) <= cap(parts) && forall(i, off(parts), off(parts)+len(parts), at(parts, i) == piece(s, sep, i - off(parts)))
  ensures "the first pieces" (1 <= len(parts) ==> parts[0] == piece(s, sep, 0)) && (2 <= len(parts) ==> parts[1] == piece(s, sep, 1))

functype parser.nudParseFn() (node, err)
  always
  noauto
  safety C06
  let p = owner("*parser.Parser")
  requires handles(p.nuds, p.currToken, self) || (extra("parser.nudParseFn", self) && p.currToken == token.IDENT && p.peekToken == token.COLON)
  requires PInv(p)
  requires [C06,C08,C09,C10,C11] NInv(p)
  requires [C06,C12] IInv(p)
  requires [C08] SInv(p)
  modifies diags, nent, elogT, elogD, curT, curD, p.pos, p.peekPos, p.currToken, p.peekToken, p.currliteral, p.peekLiteral, p.tasks, elems(p.tasks), p.lexer.chr, p.lexer.offset, p.lexer.rdOffset, p.lexer.lineOffsets, elems(p.lexer.lineOffsets), p.lexer.Errors, elems(p.lexer.Errors), p.lexer.ErrCount
  decreases parse: R(p), 0
  ensures "the parser stays well-formed" PInv(p) && ArrOwn(p)
  ensures [C07] "no diagnostic is dropped" diags == old(diags) + ite(err == nil, 0, 1)
  ensures [C07] "what the lexer recorded stays recorded" old(len(p.lexer.Errors)) <= len(p.lexer.Errors)
  ensures [C12] "no check is dropped" TasksKept(p)
  ensures [C12] "an identifier is checked at the end" (old(handles(p.nuds, p.currToken, self)) && old(p.currToken) == token.IDENT && sat(old(p.currliteral), 0) != 36 && err == nil) ==> Checks(p, old(p.currliteral))
  ensures [C07] "brackets are closed" err == nil ==> (old(p.currToken) == token.LBRACK ==> p.currToken == token.RBRACK) && (old(p.currToken) == token.LBRACE ==> p.currToken == token.RBRACE) && (old(p.currToken) == token.LPAREN ==> p.currToken == token.RPAREN)
  ensures [C07] "the bracket of a tag is closed" (err == nil && isa(node, "*ast.Tag") && as(node, "*ast.Tag").Item != nil) ==> p.currToken == token.RPAREN
  ensures [C06,C08,C09,C10,C11] "finished nodes stay finished" NInv(p)
  ensures [C06,C12] "identifiers have names" IInv(p)
  ensures [C08] "positions stay in the source" SInv(p)
  ensures [C08] "a diagnostic starts in the source" err == nil || ErrOK(err)
  ensures [C06] "what is left shrinks" R(p) <= old(R(p))
  ensures [C06,C08,C09,C10,C11] "success yields a finished node" err == nil ==> wf(node)
  ensures [C06,C07] "success yields a node before the end" err == nil ==> node != nil && p.currToken != token.EOF
  ensures [C11] "no infix operator" err == nil ==> Lvl(node) == 9
  update [C10] curT == tag(node)
  update [C10] curD == dat(node)
  ensures [C10] "the record grows" LogKept()
  ensures [C10] "its result is recorded" curT == tag(node) && curD == dat(node)
  ensures [C10] "success yields an entry" err == nil ==> isa(node, "ast.GroupEntry")
  ensures [C10] "an identifier" (err == nil && old(p.currToken) == token.IDENT) ==> isa(node, "*ast.Identifier") && At0(as(node, "*ast.Identifier").Pos, old(p.pos)) && as(node, "*ast.Identifier").Name == old(p.currliteral)
  ensures [C10] "bool" (err == nil && old(p.currToken) == token.BOOL) ==> isa(node, "*ast.BooleanType") && At0(as(node, "*ast.BooleanType").Pos, old(p.pos)) && as(node, "*ast.BooleanType").Token == old(p.currToken)
  ensures [C10] "true and false" (err == nil && oneof(old(p.currToken), token.TRUE, token.FALSE)) ==> isa(node, "*ast.BooleanLiteral") && At0(as(node, "*ast.BooleanLiteral").Range.Start, old(p.pos)) && (as(node, "*ast.BooleanLiteral").Bool == (old(p.currliteral) == "true")) && (as(node, "*ast.BooleanLiteral").Bool || old(p.currliteral) == "false")
  ensures [C10] "tstr" (err == nil && oneof(old(p.currToken), token.TSTR, token.TEXT)) ==> isa(node, "*ast.TstrType") && At0(as(node, "*ast.TstrType").Pos, old(p.pos)) && as(node, "*ast.TstrType").Token == old(p.currToken)
  ensures [C10] "a text literal" (err == nil && old(p.currToken) == token.TEXT_LITERAL) ==> isa(node, "*ast.TextLiteral") && At0(as(node, "*ast.TextLiteral").Pos, old(p.pos)) && as(node, "*ast.TextLiteral").Token == old(p.currToken) && as(node, "*ast.TextLiteral").Literal == old(p.currliteral)
  ensures [C10] "float" (err == nil && old(p.currToken) == token.FLOAT) ==> ite(old(p.currliteral) == "float", isa(node, "*ast.FloatType") && At0(as(node, "*ast.FloatType").Pos, old(p.pos)) && as(node, "*ast.FloatType").Token == old(p.currToken), isa(node, "*ast.FloatLiteral") && At0(as(node, "*ast.FloatLiteral").Range.Start, old(p.pos)) && as(node, "*ast.FloatLiteral").Token == old(p.currToken) && same(as(node, "*ast.FloatLiteral").Literal, parsefloat(old(p.currliteral), 64)))
  ensures [C10] "float16" (err == nil && old(p.currToken) == token.FLOAT16) ==> ite(old(p.currliteral) == "float16", isa(node, "*ast.FloatType") && At0(as(node, "*ast.FloatType").Pos, old(p.pos)) && as(node, "*ast.FloatType").Token == old(p.currToken), isa(node, "*ast.FloatLiteral") && At0(as(node, "*ast.FloatLiteral").Range.Start, old(p.pos)) && as(node, "*ast.FloatLiteral").Token == old(p.currToken) && same(as(node, "*ast.FloatLiteral").Literal, parsefloat(old(p.currliteral), 64)))
  ensures [C10] "float32" (err == nil && old(p.currToken) == token.FLOAT32) ==> ite(old(p.currliteral) == "float32", isa(node, "*ast.FloatType") && At0(as(node, "*ast.FloatType").Pos, old(p.pos)) && as(node, "*ast.FloatType").Token == old(p.currToken), isa(node, "*ast.FloatLiteral") && At0(as(node, "*ast.FloatLiteral").Range.Start, old(p.pos)) && as(node, "*ast.FloatLiteral").Token == old(p.currToken) && same(as(node, "*ast.FloatLiteral").Literal, parsefloat(old(p.currliteral), 64)))
  ensures [C10] "float64" (err == nil && old(p.currToken) == token.FLOAT64) ==> ite(old(p.currliteral) == "float64", isa(node, "*ast.FloatType") && At0(as(node, "*ast.FloatType").Pos, old(p.pos)) && as(node, "*ast.FloatType").Token == old(p.currToken), isa(node, "*ast.FloatLiteral") && At0(as(node, "*ast.FloatLiteral").Range.Start, old(p.pos)) && as(node, "*ast.FloatLiteral").Token == old(p.currToken) && same(as(node, "*ast.FloatLiteral").Literal, parsefloat(old(p.currliteral), 64)))
  ensures [C10] "uint" (err == nil && old(p.currToken) == token.UINT) ==> ite(old(p.currliteral) == "uint", isa(node, "*ast.UintType") && At0(as(node, "*ast.UintType").Range.Start, old(p.pos)) && as(node, "*ast.UintType").Token == token.UINT, isa(node, "*ast.UintLiteral") && At0(as(node, "*ast.UintLiteral").Pos, old(p.pos)) && as(node, "*ast.UintLiteral").Token == old(p.currToken) && as(node, "*ast.UintLiteral").Literal == parseuint(old(p.currliteral), 0))
  ensures [C10] "int" (err == nil && old(p.currToken) == token.INT) ==> ite(old(p.currliteral) == "int", isa(node, "*ast.IntegerType") && At0(as(node, "*ast.IntegerType").Pos, old(p.pos)) && as(node, "*ast.IntegerType").Token == old(p.currToken), isa(node, "*ast.IntegerLiteral") && At0(as(node, "*ast.IntegerLiteral").Pos, old(p.pos)) && as(node, "*ast.IntegerLiteral").Token == old(p.currToken) && as(node, "*ast.IntegerLiteral").Literal == parseint(old(p.currliteral), 0))
  ensures [C10] "nint" (err == nil && old(p.currToken) == token.NINT) ==> isa(node, "*ast.NegativeIntegerType") && At0(as(node, "*ast.NegativeIntegerType").Pos, old(p.pos)) && as(node, "*ast.NegativeIntegerType").Token == old(p.currToken)
  ensures [C10] "bstr" (err == nil && old(p.currToken) == token.BSTR) ==> isa(node, "*ast.BstrType") && At0(as(node, "*ast.BstrType").Pos, old(p.pos)) && as(node, "*ast.BstrType").Token == old(p.currToken)
  ensures [C10] "bytes" (err == nil && old(p.currToken) == token.BYTES) ==> isa(node, "*ast.BytesType") && At0(as(node, "*ast.BytesType").Pos, old(p.pos)) && as(node, "*ast.BytesType").Token == old(p.currToken)
  ensures [C10] "null" (err == nil && oneof(old(p.currToken), token.NULL, token.NIL)) ==> isa(node, "*ast.NullType") && At0(as(node, "*ast.NullType").Pos, old(p.pos)) && as(node, "*ast.NullType").Token == old(p.currToken)
  ensures [C10] "optional" (err == nil && old(p.currToken) == token.OPTIONAL) ==> isa(node, "*ast.Optional") && At0(as(node, "*ast.Optional").Pos, old(p.pos)) && as(node, "*ast.Optional").Token == old(p.currToken) && E(as(node, "*ast.Optional").Item, old(nent)) && nent == old(nent)+1
  ensures [C10] "unwrap" (err == nil && old(p.currToken) == token.UNWRAP) ==> isa(node, "*ast.Unwrap") && At0(as(node, "*ast.Unwrap").Pos, old(p.pos)) && as(node, "*ast.Unwrap").Token == old(p.currToken) && E(as(node, "*ast.Unwrap").Item, old(nent)) && nent == old(nent)+1
  ensures [C10] "enumeration" (err == nil && old(p.currToken) == token.AMPERSAND) ==> isa(node, "*ast.Enumeration") && At0(as(node, "*ast.Enumeration").Pos, old(p.pos)) && as(node, "*ast.Enumeration").Token == old(p.currToken) && E(as(node, "*ast.Enumeration").Value, old(nent)) && nent == old(nent)+1
  ensures [C10] "prefix occurrence" (err == nil && oneof(old(p.currToken), token.ZERO_OR_MORE, token.ONE_OR_MORE)) ==> isa(node, "*ast.NMOccurrence") && At0(as(node, "*ast.NMOccurrence").Pos, old(p.pos)) && as(node, "*ast.NMOccurrence").Token == old(p.currToken) && as(node, "*ast.NMOccurrence").N.Literal == ite(old(p.currToken) == token.ZERO_OR_MORE, 0, 1) && OccM(as(node, "*ast.NMOccurrence"), old(p.peekToken), old(p.peekLiteral)) && E(as(node, "*ast.NMOccurrence").Item, old(nent)) && nent == old(nent)+1
  ensures [C10] "tag" (err == nil && old(p.currToken) == token.HASH) ==> isa(node, "*ast.Tag") && At0(as(node, "*ast.Tag").Pos, old(p.pos)) && as(node, "*ast.Tag").Token == old(p.currToken)
  ensures [C10] "tag item" (err == nil && old(p.currToken) == token.HASH) ==> ite(nent == old(nent), as(node, "*ast.Tag").Item == nil, nent == old(nent)+1 && E(as(node, "*ast.Tag").Item, old(nent)))
  ensures [C10] "tag numbers" (err == nil && old(p.currToken) == token.HASH) ==> TagNo(as(node, "*ast.Tag"), old(p.peekToken), old(p.peekLiteral))
  ensures [C10] "group holds its entries in order" (err == nil && old(p.currToken) == token.LPAREN) ==> isa(node, "*ast.Group") && At0(as(node, "*ast.Group").Pos, old(p.pos)) && len(as(node, "*ast.Group").Entries) == nent - old(nent) && forall(i, off(as(node, "*ast.Group").Entries), off(as(node, "*ast.Group").Entries)+len(as(node, "*ast.Group").Entries), E(at(as(node, "*ast.Group").Entries, i), old(nent)+i-off(as(node, "*ast.Group").Entries)))
  ensures [C10] "array holds its entries in order" (err == nil && old(p.currToken) == token.LBRACK) ==> isa(node, "*ast.Array") && At0(as(node, "*ast.Array").Pos, old(p.pos)) && len(as(node, "*ast.Array").Rules) == nent - old(nent) && forall(i, off(as(node, "*ast.Array").Rules), off(as(node, "*ast.Array").Rules)+len(as(node, "*ast.Array").Rules), E(at(as(node, "*ast.Array").Rules, i), old(nent)+i-off(as(node, "*ast.Array").Rules)))
  ensures [C10] "map holds its entries in order" (err == nil && old(p.currToken) == token.LBRACE) ==> isa(node, "*ast.Map") && At0(as(node, "*ast.Map").Pos, old(p.pos)) && len(as(node, "*ast.Map").Rules) == nent - old(nent) && forall(i, off(as(node, "*ast.Map").Rules), off(as(node, "*ast.Map").Rules)+len(as(node, "*ast.Map").Rules), E(at(as(node, "*ast.Map").Rules, i), old(nent)+i-off(as(node, "*ast.Map").Rules)))
  inv PInv(p) && ArrOwn(p)
  inv [C07] diags == old(diags)
  inv [C07] old(len(p.lexer.Errors)) <= len(p.lexer.Errors)
  inv [C12] TasksKept(p)
  inv [C06,C08,C09,C10,C11] NInv(p)
  inv [C06,C12] IInv(p)
  inv [C08] SInv(p)
  inv [C06] R(p) <= old(R(p)) && R(p) <= pre(R(p))
  inv [C06] R(p) < old(R(p))
  inv p.currToken != token.EOF
  inv [C06,C08,C09,C10,C11] (arr(built("ast.Group").Entries) == 0 || fresh(built("ast.Group").Entries)) && thawed(built("ast.Group").Entries) && forall(i, off(built("ast.Group").Entries), off(built("ast.Group").Entries)+len(built("ast.Group").Entries), wf(at(built("ast.Group").Entries, i)))
  inv [C06,C08,C09,C10,C11] (arr(built("ast.Array").Rules) == 0 || fresh(built("ast.Array").Rules)) && thawed(built("ast.Array").Rules) && forall(i, off(built("ast.Array").Rules), off(built("ast.Array").Rules)+len(built("ast.Array").Rules), wf(at(built("ast.Array").Rules, i)))
  inv [C06,C08,C09,C10,C11] (arr(built("ast.Map").Rules) == 0 || fresh(built("ast.Map").Rules)) && thawed(built("ast.Map").Rules) && forall(i, off(built("ast.Map").Rules), off(built("ast.Map").Rules)+len(built("ast.Map").Rules), wf(at(built("ast.Map").Rules, i)))
  inv [C06,C08,C09,C10,C11] 1 <= len(built("ast.CommentGroup").List) && thawed(built("ast.CommentGroup").List) && forall(i, off(built("ast.CommentGroup").List), off(built("ast.CommentGroup").List)+len(built("ast.CommentGroup").List), wf(at(built("ast.CommentGroup").List, i)))
  inv [C10] LogKept()
  inv [C10] 0 <= off(built("ast.Group").Entries) && len(built("ast.Group").Entries) <= cap(built("ast.Group").Entries)
  inv [C10] nent == old(nent) + len(built("ast.Group").Entries)
  inv [C10] forall(i, off(built("ast.Group").Entries), off(built("ast.Group").Entries)+len(built("ast.Group").Entries), E(at(built("ast.Group").Entries, i), old(nent)+i-off(built("ast.Group").Entries)))
  inv [C10] 0 <= off(built("ast.Array").Rules) && len(built("ast.Array").Rules) <= cap(built("ast.Array").Rules)
  inv [C10] nent == old(nent) + len(built("ast.Array").Rules)
  inv [C10] forall(i, off(built("ast.Array").Rules), off(built("ast.Array").Rules)+len(built("ast.Array").Rules), E(at(built("ast.Array").Rules, i), old(nent)+i-off(built("ast.Array").Rules)))
  inv [C10] 0 <= off(built("ast.Map").Rules) && len(built("ast.Map").Rules) <= cap(built("ast.Map").Rules)
  inv [C10] nent == old(nent) + len(built("ast.Map").Rules)
  inv [C10] forall(i, off(built("ast.Map").Rules), off(built("ast.Map").Rules)+len(built("ast.Map").Rules), E(at(built("ast.Map").Rules, i), old(nent)+i-off(built("ast.Map").Rules)))
  measure R(p)

functype parser.ledParseFn(left) (node, err)
  always
  noauto
  safety C06
  let p = owner("*parser.Parser")
  requires handles(p.leds, p.currToken, self)
  requires PInv(p)
  requires [C06,C08,C09,C10,C11] NInv(p)
  requires [C06,C12] IInv(p)
  requires [C08] SInv(p)
  requires [C06,C08,C09,C10,C11] wf(left)
  requires [C06,C07] left != nil
  requires [C11] "the left operand binds tighter" Lvl(left) == 9 || Prec(p.currToken) <= LL(left)
  requires [C10] "the operand parsed before the operator" tag(left) == curT && dat(left) == curD
  requires [C10] isa(left, "ast.GroupEntry")
  modifies diags, nent, elogT, elogD, curT, curD, p.pos, p.peekPos, p.currToken, p.peekToken, p.currliteral, p.peekLiteral, p.tasks, elems(p.tasks), p.lexer.chr, p.lexer.offset, p.lexer.rdOffset, p.lexer.lineOffsets, elems(p.lexer.lineOffsets), p.lexer.Errors, elems(p.lexer.Errors), p.lexer.ErrCount
  decreases parse: R(p), 0
  ensures "the parser stays well-formed" PInv(p) && ArrOwn(p)
  ensures [C07] "no diagnostic is dropped" diags == old(diags) + ite(err == nil, 0, 1)
  ensures [C07] "what the lexer recorded stays recorded" old(len(p.lexer.Errors)) <= len(p.lexer.Errors)
  ensures [C12] "no check is dropped" TasksKept(p)
  ensures [C06,C08,C09,C10,C11] "finished nodes stay finished" NInv(p)
  ensures [C06,C12] "identifiers have names" IInv(p)
  ensures [C08] "positions stay in the source" SInv(p)
  ensures [C08] "a diagnostic starts in the source" err == nil || ErrOK(err)
  ensures [C06] "what is left shrinks" R(p) <= old(R(p))
  ensures [C06,C08,C09,C10,C11] "success yields a finished node" err == nil ==> wf(node)
  ensures [C06,C07] "success yields a node before the end" err == nil ==> node != nil && p.currToken != token.EOF
  ensures [C11] "the operator is the root of the tree" err == nil ==> (node == left && p.currToken == token.COMMA) || Lvl(node) >= Prec(old(p.currToken))
  ensures [C11] "the right operand is complete" err == nil ==> Lvl(node) == 9 || Stop(p, LL(node))
  update [C10] curT == tag(node)
  update [C10] curD == dat(node)
  ensures [C10] "the record grows" LogKept()
  ensures [C10] "its result is recorded" curT == tag(node) && curD == dat(node)
  ensures [C10] "success yields an entry" err == nil ==> isa(node, "ast.GroupEntry")
  ensures [C10] "a comma adds nothing" (err == nil && old(p.currToken) == token.COMMA) ==> node == left
  ensures [C10] "choice" (err == nil && oneof(old(p.currToken), token.TYPE_CHOICE, token.GROUP_CHOICE)) ==> isa(node, "*ast.TypeChoice") && At0(as(node, "*ast.TypeChoice").Pos, old(p.pos)) && as(node, "*ast.TypeChoice").Token == old(p.currToken) && as(node, "*ast.TypeChoice").First == left && E(as(node, "*ast.TypeChoice").Second, old(nent)) && nent == old(nent)+1
  ensures [C10] "entry" (err == nil && oneof(old(p.currToken), token.COLON, token.ARROW_MAP)) ==> isa(node, "*ast.Entry") && At0(as(node, "*ast.Entry").Pos, old(p.pos)) && E(as(node, "*ast.Entry").Value, old(nent)) && nent == old(nent)+1 && EntryName(as(node, "*ast.Entry").Name, left)
  ensures [C10] "range" (err == nil && oneof(old(p.currToken), token.INCLUSIVE_BOUND, token.EXCLUSIVE_BOUND)) ==> isa(node, "*ast.Range") && At0(as(node, "*ast.Range").Pos, old(p.pos)) && as(node, "*ast.Range").Token == old(p.currToken) && as(node, "*ast.Range").From == left && E(as(node, "*ast.Range").To, old(nent)) && nent == old(nent)+1
  ensures [C10] ".size" (err == nil && old(p.currToken) == token.SIZE) ==> isa(node, "*ast.SizeOperatorControl") && At0(as(node, "*ast.SizeOperatorControl").Pos, old(p.pos)) && as(node, "*ast.SizeOperatorControl").Token == old(p.currToken) && as(node, "*ast.SizeOperatorControl").Type == left && E(as(node, "*ast.SizeOperatorControl").Size, old(nent)) && nent == old(nent)+1
  ensures [C10] ".regexp" (err == nil && old(p.currToken) == token.REGEXP) ==> isa(node, "*ast.Regexp") && At0(as(node, "*ast.Regexp").Pos, old(p.pos)) && as(node, "*ast.Regexp").Token == old(p.currToken) && isa(left, "*ast.TstrType") && as(node, "*ast.Regexp").Base == as(left, "*ast.TstrType") && E(as(node, "*ast.Regexp").Regex, old(nent)) && nent == old(nent)+1
  ensures [C10] ".bits" (err == nil && old(p.currToken) == token.BITS) ==> isa(node, "*ast.Bits") && At0(as(node, "*ast.Bits").Pos, old(p.pos)) && as(node, "*ast.Bits").Token == old(p.currToken) && as(node, "*ast.Bits").Base == left && E(as(node, "*ast.Bits").Contstraint, old(nent)) && nent == old(nent)+1
  ensures [C10] "comparison" (err == nil && oneof(old(p.currToken), token.LT, token.LE, token.GT, token.GE, token.EQ, token.NE)) ==> isa(node, "*ast.ComparatorOpControl") && At0(as(node, "*ast.ComparatorOpControl").Pos, old(p.pos)) && as(node, "*ast.ComparatorOpControl").Token == old(p.currToken) && as(node, "*ast.ComparatorOpControl").Left == left && as(node, "*ast.ComparatorOpControl").Operator == old(p.currliteral) && E(as(node, "*ast.ComparatorOpControl").Right, old(nent)) && nent == old(nent)+1
  ensures [C10] "infix occurrence" (err == nil && oneof(old(p.currToken), token.ZERO_OR_MORE, token.ONE_OR_MORE)) ==> isa(node, "*ast.NMOccurrence") && At0(as(node, "*ast.NMOccurrence").Pos, old(p.pos)) && as(node, "*ast.NMOccurrence").Token == old(p.currToken) && OccN(as(node, "*ast.NMOccurrence"), left) && OccM(as(node, "*ast.NMOccurrence"), old(p.peekToken), old(p.peekLiteral)) && E(as(node, "*ast.NMOccurrence").Item, old(nent)) && nent == old(nent)+1
  measure R(p)

functype parser.taskFn() (err)
  always
  nonodes
  noauto
  safety C06
  let p = owner("*parser.Parser")
  requires PInv(p) && capok("parser.taskFn", self, p)
  requires [C06,C08,C09,C10,C11] NInv(p)
  requires [C06,C12] IInv(p)
  requires [C08] SInv(p)
  modifies diags
  ensures [C07] "no diagnostic is dropped" diags == old(diags) + ite(err == nil, 0, 1)
  ensures [C08] "a diagnostic starts in the source" err == nil || ErrOK(err)
  ensures [C12] "succeeds only if the name it checks is declared" (err == nil && capstrs(self) == 1) ==> has(p.environment.symbols, capstr(self))

func (*parser.Parser).parseEntry(p, precedence) (node, err)
  noauto
  safety C06
  requires PInv(p)
  requires [C06,C08,C09,C10,C11] NInv(p)
  requires [C06,C12] IInv(p)
  requires [C11] 0 <= precedence && precedence <= 8
  requires [C08] SInv(p)
  modifies diags, nent, elogT, elogD, curT, curD, p.pos, p.peekPos, p.currToken, p.peekToken, p.currliteral, p.peekLiteral, p.tasks, elems(p.tasks), p.lexer.chr, p.lexer.offset, p.lexer.rdOffset, p.lexer.lineOffsets, elems(p.lexer.lineOffsets), p.lexer.Errors, elems(p.lexer.Errors), p.lexer.ErrCount
  decreases parse: R(p), 1
  ensures "the parser stays well-formed" PInv(p) && ArrOwn(p)
  ensures [C07] "no diagnostic is dropped" diags == old(diags) + ite(err == nil, 0, 1)
  ensures [C07] "what the lexer recorded stays recorded" old(len(p.lexer.Errors)) <= len(p.lexer.Errors)
  ensures [C12] "no check is dropped" TasksKept(p)
  ensures [C12] "an identifier is checked at the end" (old(p.currToken) == token.IDENT && old(p.peekToken) != token.COLON && sat(old(p.currliteral), 0) != 36 && err == nil) ==> Checks(p, old(p.currliteral))
  ensures [C06,C08,C09,C10,C11] "finished nodes stay finished" NInv(p)
  ensures [C06,C12] "identifiers have names" IInv(p)
  ensures [C08] "positions stay in the source" SInv(p)
  ensures [C08] "a diagnostic starts in the source" err == nil || ErrOK(err)
  ensures [C06] "what is left shrinks" R(p) <= old(R(p))
  ensures [C06,C08,C09,C10,C11] "success yields a finished node" err == nil ==> wf(node)
  ensures [C06,C07] "success yields a node before the end" err == nil ==> node != nil && p.currToken != token.EOF
  ensures [C11] "binds tighter than asked" err == nil ==> Lvl(node) > precedence
  ensures [C11] "stops at an operator that binds no tighter" err == nil ==> Stop(p, precedence)
  update [C10] elogT == store(elogT, old(nent), tag(node))
  update [C10] elogD == store(elogD, old(nent), dat(node))
  update [C10] nent == old(nent) + 1
  ensures [C10] "the record grows" LogKept()
  ensures [C10] "the entry is recorded" nent == old(nent)+1 && E(node, old(nent))
  ensures [C10] "what the handlers built" err == nil ==> tag(node) == curT && dat(node) == curD
  ensures [C10] "success yields an entry" err == nil ==> isa(node, "ast.GroupEntry")
  inv [C11] Lvl(phi0) > precedence
  inv [C11] Lvl(phi0) == 9 || Stop(p, LL(phi0))
  inv PInv(p) && ArrOwn(p)
  inv [C07] diags == old(diags)
  inv [C07] old(len(p.lexer.Errors)) <= len(p.lexer.Errors)
  inv [C12] TasksKept(p)
  inv [C12] (old(p.currToken) == token.IDENT && old(p.peekToken) != token.COLON && sat(old(p.currliteral), 0) != 36) ==> Checks(p, old(p.currliteral))
  inv [C06,C08,C09,C10,C11] NInv(p)
  inv [C06,C12] IInv(p)
  inv [C08] SInv(p)
  inv [C06] R(p) <= old(R(p)) && R(p) <= pre(R(p))
  inv p.currToken != token.EOF
  inv [C06,C08,C09,C10,C11] wf(phi0)
  inv [C06,C07] phi0 != nil
  inv [C06,C08,C09,C10,C11] 1 <= len(built("ast.CommentGroup").List) && thawed(built("ast.CommentGroup").List) && forall(i, off(built("ast.CommentGroup").List), off(built("ast.CommentGroup").List)+len(built("ast.CommentGroup").List), wf(at(built("ast.CommentGroup").List, i)))
  inv [C10] LogKept()
  inv [C10] tag(phi0) == curT && dat(phi0) == curD
  inv [C10] isa(phi0, "ast.GroupEntry")
  measure R(p)

func (*parser.Parser).parseComment(p) (node, err)
  noauto
  safety C06
  requires PInv(p) && p.currToken == token.COMMENT
  requires [C06,C08,C09,C10,C11] NInv(p)
  requires [C06,C12] IInv(p)
  requires [C08] SInv(p)
  modifies diags, p.pos, p.peekPos, p.currToken, p.peekToken, p.currliteral, p.peekLiteral, p.lexer.chr, p.lexer.offset, p.lexer.rdOffset, p.lexer.lineOffsets, elems(p.lexer.lineOffsets), p.lexer.Errors, elems(p.lexer.Errors), p.lexer.ErrCount
  ensures "the parser stays well-formed" PInv(p) && ArrOwn(p)
  ensures [C07] "no diagnostic" diags == old(diags)
  ensures [C07] "what the lexer recorded stays recorded" old(len(p.lexer.Errors)) <= len(p.lexer.Errors)
  ensures [C06,C08,C09,C10,C11] "finished nodes stay finished" NInv(p)
  ensures [C06,C12] "identifiers have names" IInv(p)
  ensures [C08] "positions stay in the source" SInv(p)
  ensures [C08] "a diagnostic starts in the source" err == nil || ErrOK(err)
  ensures [C06] "what is left shrinks" R(p) <= old(R(p))
  ensures [C06,C08,C09,C10,C11] "success yields a finished node" wf(node)
  ensures "always succeeds" err == nil && node != nil && p.currToken == token.COMMENT
  ensures "a comment or a group of them" isa(node, "*ast.Comment") || isa(node, "*ast.CommentGroup")
  inv PInv(p) && ArrOwn(p)
  inv [C07] diags == old(diags)
  inv [C07] old(len(p.lexer.Errors)) <= len(p.lexer.Errors)
  inv [C06,C08,C09,C10,C11] NInv(p)
  inv [C06,C12] IInv(p)
  inv [C08] SInv(p)
  inv [C06] R(p) <= old(R(p)) && R(p) <= pre(R(p))
  inv p.currToken == token.COMMENT
  inv [C06,C08,C09,C10,C11] 1 <= len(built("ast.CommentGroup").List) && thawed(built("ast.CommentGroup").List) && forall(i, off(built("ast.CommentGroup").List), off(built("ast.CommentGroup").List)+len(built("ast.CommentGroup").List), wf(at(built("ast.CommentGroup").List, i)))
  measure R(p)

func (*parser.Parser).parseRule(p) (node, err)
  noauto
  safety C06
  requires PInv(p) && p.currToken != token.EOF
  requires [C06,C08,C09,C10,C11] NInv(p)
  requires [C06,C12] IInv(p)
  requires [C08] SInv(p) && ErrsOK(p)
  modifies diags, nent, elogT, elogD, curT, curD, nrule, rlogT, rlogD, p.errors, elems(p.errors), p.pos, p.peekPos, p.currToken, p.peekToken, p.currliteral, p.peekLiteral, p.tasks, elems(p.tasks), p.lexer.chr, p.lexer.offset, p.lexer.rdOffset, p.lexer.lineOffsets, elems(p.lexer.lineOffsets), p.lexer.Errors, elems(p.lexer.Errors), p.lexer.ErrCount, mapof(p.environment.symbols)
  ensures "the parser stays well-formed" PInv(p) && ArrOwn(p) && ErrOwn(p)
  ensures [C07] "no diagnostic is dropped" diags - old(diags) == len(p.errors) - old(len(p.errors)) + ite(err == nil, 0, 1)
  ensures [C07] "what the lexer recorded stays recorded" old(len(p.lexer.Errors)) <= len(p.lexer.Errors)
  ensures [C07] "a rule or comments, according to the first token" err == nil ==> ite(old(p.currToken) == token.COMMENT, isa(node, "*ast.Comment") || isa(node, "*ast.CommentGroup"), isa(node, "*ast.Rule") && old(p.currToken) == token.IDENT)
  ensures [C12] "no check is dropped" TasksKept(p)
  ensures [C12] "only an = rule declares" forallv(k, "Str", (k != old(p.currliteral) || old(p.currToken) != token.IDENT || old(p.peekToken) != token.ASSIGN || err != nil) ==> (has(p.environment.symbols, k) == old(has(p.environment.symbols, k)) && p.environment.symbols[k] == old(p.environment.symbols[k])))
  ensures [C12] "the first = rule declares its value" (err == nil && old(p.currToken) == token.IDENT && old(p.peekToken) == token.ASSIGN && !old(has(p.environment.symbols, p.currliteral))) ==> has(p.environment.symbols, old(p.currliteral)) && isa(node, "*ast.Rule") && p.environment.symbols[old(p.currliteral)] == as(node, "*ast.Rule").Value && len(p.errors) == old(len(p.errors))
  ensures [C12] "a second = rule is reported, the first stays" (err == nil && old(p.currToken) == token.IDENT && old(p.peekToken) == token.ASSIGN && old(has(p.environment.symbols, p.currliteral))) ==> len(p.errors) == old(len(p.errors)) + 1 && has(p.environment.symbols, old(p.currliteral)) && p.environment.symbols[old(p.currliteral)] == old(p.environment.symbols[p.currliteral])
  ensures [C06,C08,C09,C10,C11] "finished nodes stay finished" NInv(p)
  ensures [C06,C12] "identifiers have names" IInv(p)
  ensures [C08] "positions stay in the source" SInv(p) && ErrsOK(p)
  ensures [C08] "a diagnostic starts in the source" err == nil || ErrOK(err)
  ensures [C06] "what is left shrinks" R(p) <= old(R(p))
  ensures [C06,C08,C09,C10,C11] "success yields a finished node" err == nil ==> wf(node)
  ensures [C06,C07] "success yields a node before the end" err == nil ==> node != nil && p.currToken != token.EOF
  ensures [C07,C09,C12] "diagnostics only grow" old(len(p.errors)) <= len(p.errors)
  update [C07,C10] rlogT == store(rlogT, old(nrule), tag(node))
  update [C07,C10] rlogD == store(rlogD, old(nrule), dat(node))
  update [C07,C10] nrule == ite(node == nil, old(nrule), old(nrule) + 1)
  ensures [C07,C10] "the rule is recorded" nrule == ite(node == nil, old(nrule), old(nrule)+1) && rlogT[old(nrule)] == tag(node) && rlogD[old(nrule)] == dat(node) && forall(k, k < old(nrule) ==> rlogT[k] == old(rlogT)[k] && rlogD[k] == old(rlogD)[k])
  ensures [C10] "a rule with its name and value" (err == nil && old(p.currToken) == token.IDENT) ==> isa(node, "*ast.Rule") && as(node, "*ast.Rule").Name.Name == old(p.currliteral) && At0(as(node, "*ast.Rule").Name.Pos, old(p.pos)) && E(as(node, "*ast.Rule").Value, old(nent)) && nent == old(nent)+1
  inv PInv(p) && ArrOwn(p)
  inv [C06,C08,C09,C10,C11] NInv(p)
  inv [C06,C12] IInv(p)
  inv [C08] SInv(p) && ErrsOK(p)
  inv [C06] R(p) <= old(R(p)) && R(p) <= pre(R(p))
  inv p.currToken != token.EOF
  inv [C06,C08,C09,C10,C11] 1 <= len(built("ast.CommentGroup").List) && thawed(built("ast.CommentGroup").List) && forall(i, off(built("ast.CommentGroup").List), off(built("ast.CommentGroup").List)+len(built("ast.CommentGroup").List), wf(at(built("ast.CommentGroup").List, i)))
  measure R(p)

func (*parser.Parser).ParseFile(p) (cddl, errs)
  noauto
  safety C06
  requires PInv(p)
  requires [C06,C08,C09,C10,C11] NInv(p)
  requires [C06,C12] IInv(p)
  requires [C08] SInv(p) && ErrsOK(p)
  modifies bad, parsedSrc, parsedT
  defines [C16] bad == old(bad) + ite(len(errs) > 0, 1, 0) && parsedSrc == lexof(ref(p.lexer)) && parsedT == ref(cddl)
  modifies diags, nent, elogT, elogD, curT, curD, nrule, rlogT, rlogD, p.errors, elems(p.errors), p.pos, p.peekPos, p.currToken, p.peekToken, p.currliteral, p.peekLiteral, p.tasks, elems(p.tasks), p.lexer.chr, p.lexer.offset, p.lexer.rdOffset, p.lexer.lineOffsets, elems(p.lexer.lineOffsets), p.lexer.Errors, elems(p.lexer.Errors), p.lexer.ErrCount, mapof(p.environment.symbols)
  ensures "the parser stays well-formed" PInv(p)
  ensures [C06,C08,C09,C10,C11] "finished nodes stay finished" NInv(p)
  ensures [C06,C12] "identifiers have names" IInv(p)
  ensures [C08] "positions stay in the source" SInv(p) && ErrsOK(p)
  defines [C16] 0 <= off(errs) && 0 <= len(errs) && len(errs) <= cap(errs) && forall(i, off(errs), off(errs)+len(errs), isa(at(errs, i), "*parser.Error") && dat(at(errs, i)) != 0)
  ensures [C08] "every diagnostic starts in the source" forall(i, off(errs), off(errs)+len(errs), isa(at(errs, i), "*parser.Error")) && forall(i, off(errs), off(errs)+len(errs), PosOK(as(at(errs, i), "*parser.Error").Range.Start))
  ensures [C07] "every diagnostic is returned" len(errs) - old(len(p.errors)) == diags - old(diags)
  ensures [C07] "an error of the lexer becomes a diagnostic" len(errs) == 0 ==> len(p.lexer.Errors) == 0 && old(len(p.lexer.Errors)) == 0
  ensures [C07] "the whole source is read" p.currToken == token.EOF && AtEOF(p.lexer)
  ensures [C12] "declarations stay" forallv(k, "Str", old(has(p.environment.symbols, k)) ==> has(p.environment.symbols, k) && p.environment.symbols[k] == old(p.environment.symbols[k]))
  ensures [C12] "an unknown name is reported" len(errs) == 0 ==> forall(i, 0, len(p.tasks), capstrs(at(p.tasks, i)) == 1 ==> has(p.environment.symbols, capstr(at(p.tasks, i))))
  ensures [C12] "no check is dropped" TasksKept(p)
  ensures "a tree is returned" cddl != nil
  ensures [C09] "without diagnostics the tree is complete" len(errs) == 0 ==> wf(cddl)
  ensures [C07,C10] "every rule in order" len(cddl.Rules) == nrule - old(nrule) && forall(i, off(cddl.Rules), off(cddl.Rules)+len(cddl.Rules), tag(at(cddl.Rules, i)) == rlogT[old(nrule)+i-off(cddl.Rules)] && dat(at(cddl.Rules, i)) == rlogD[old(nrule)+i-off(cddl.Rules)])
  inv PInv(p) && ArrOwn(p) && ErrOwn(p)
  inv [C07] diags - old(diags) == len(p.errors) - old(len(p.errors))
  inv [C07,C12] old(len(p.errors)) <= len(p.errors)
  inv [C07] old(len(p.lexer.Errors)) <= len(p.lexer.Errors)
  inv [C07] len(p.errors) - pre(len(p.errors)) == phi0 + 1
  inv [C12] TasksKept(p)
  inv [C12] forallv(k, "Str", old(has(p.environment.symbols, k)) ==> has(p.environment.symbols, k) && p.environment.symbols[k] == old(p.environment.symbols[k]))
  inv [C12] len(p.errors) == 0 ==> forall(i, 0, phi0+1, capstrs(at(p.tasks, i)) == 1 ==> has(p.environment.symbols, capstr(at(p.tasks, i))))
  inv [C12] len(p.errors) == 0 ==> forall(i, 0, len(p.tasks), capstrs(at(p.tasks, i)) == 1 ==> has(p.environment.symbols, capstr(at(p.tasks, i))))
  inv [C06,C08,C09,C10,C11] NInv(p)
  inv [C06,C12] IInv(p)
  inv [C08] SInv(p) && ErrsOK(p)
  inv [C06,C08,C09,C10,C11] thawed(built("ast.CDDL").Rules)
  inv [C09] len(p.errors) == 0 ==> forall(i, off(built("ast.CDDL").Rules), off(built("ast.CDDL").Rules)+len(built("ast.CDDL").Rules), wf(at(built("ast.CDDL").Rules, i)))
  inv [C07,C10] 0 <= off(built("ast.CDDL").Rules) && len(built("ast.CDDL").Rules) <= cap(built("ast.CDDL").Rules)
  inv [C07,C10] nrule == old(nrule) + len(built("ast.CDDL").Rules)
  inv [C07,C10] forall(i, off(built("ast.CDDL").Rules), off(built("ast.CDDL").Rules)+len(built("ast.CDDL").Rules), tag(at(built("ast.CDDL").Rules, i)) == rlogT[old(nrule)+i-off(built("ast.CDDL").Rules)])
  inv [C07,C10] forall(i, off(built("ast.CDDL").Rules), off(built("ast.CDDL").Rules)+len(built("ast.CDDL").Rules), dat(at(built("ast.CDDL").Rules, i)) == rlogD[old(nrule)+i-off(built("ast.CDDL").Rules)])
  measure R(p)

functype parser.ConfigOpts(p) ()
  always
  nonodes
  noauto
  safety C06
  requires p != nil && capok("parser.ConfigOpts", self)
  requires [C06,C08,C09,C10,C11] nodesok()
  modifies p.environment
  ensures "a symbol table" p.environment == nil || EnvOK(p.environment)
  ensures [C06,C08,C09,C10,C11] "of finished nodes" p.environment == nil || EnvNodes(p.environment)

capture token.Position(q) [C08] PosOK(q)
capture *environment.Environment(e) e == nil || EnvOK(e)
capture *environment.Environment(e) [C06,C08,C09,C10,C11] e == nil || EnvNodes(e)

func parser.NewParser(lexer, opts) (p)
  safety C06
  requires LexSt(lexer)
  requires [C08] srclines == LN(lexer) && LexLines(lexer) && ErrPos(lexer)
  requires [C06,C08,C09,C10,C11] nodesok()
  requires forall(i, off(opts), off(opts)+len(opts), capok("parser.ConfigOpts", at(opts, i)))
  modifies lexer.chr, lexer.offset, lexer.rdOffset, lexer.lineOffsets, elems(lexer.lineOffsets), lexer.Errors, elems(lexer.Errors), lexer.ErrCount
  ensures "the parser is well-formed" PInv(p) && fresh(p) && p.lexer == lexer && len(p.errors) == 0
  ensures [C16] "arrays of its own" (fresh(p.tasks) || arr(p.tasks) == 0) && (fresh(p.errors) || arr(p.errors) == 0) && (arr(lexer.lineOffsets) == old(arr(lexer.lineOffsets)) || fresh(lexer.lineOffsets)) && (arr(lexer.Errors) == old(arr(lexer.Errors)) || fresh(lexer.Errors))
  ensures [C16] "a symbol table of its own" len(opts) == 0 ==> fresh(p.environment) && fresh(p.environment.symbols)
  ensures [C06,C08,C09,C10,C11] "its symbols are finished nodes" NInv(p)
  ensures [C06,C12] "identifiers have names" IInv(p)
  ensures [C08] "positions stay in the source" SInv(p)
  inv built("parser.Parser").environment == nil || EnvOK(built("parser.Parser").environment)
  inv [C16] len(opts) == 0 ==> built("parser.Parser").environment == nil
  inv [C06,C08,C09,C10,C11] built("parser.Parser").environment == nil || EnvNodes(built("parser.Parser").environment)

func parser.WithEnv(val) (f)
  safety C06
  nonodes
  requires val == nil || EnvOK(val)
  requires [C06,C08,C09,C10,C11] val == nil || EnvNodes(val)
  ensures "sets a symbol table of finished nodes" capok("parser.ConfigOpts", f)

iface errors.Diagnostic.Start(e) (q)
  nonodes
  safety C08
  requires isa(e, "*parser.Error") && dat(e) != 0
  ensures [C08] "the start of its range" q.Line == as(e, "*parser.Error").Range.Start.Line && q.Column == as(e, "*parser.Error").Range.Start.Column
