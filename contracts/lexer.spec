# Contracts for package lexer.
# Parameters are named by position; row(s) is the backing array of slice s, off(s) its offset in it.
package lexer

# ---- vocabulary ----
# end of the source, as an index into the backing array
pred SrcEnd(l) = off(l.src) + len(l.src)
pred At(l, k) = l.src[k]
# the buffer: the caller's bytes followed by one sentinel space
pred BufOK(l) = l != nil && 1 <= len(l.src) && 0 <= off(l.src) && len(l.src) <= cap(l.src) && row(l.src)[off(l.src)+len(l.src)-1] == 32
pred AtEOF(l) = l.chr == -1 && l.offset == len(l.src)-1 && l.rdOffset == len(l.src)
pred AtChar(l) = l.chr != -1 && l.chr == decr(row(l.src), off(l.src)+l.offset, SrcEnd(l)) && l.rdOffset == l.offset + decw(row(l.src), off(l.src)+l.offset, SrcEnd(l))
pred LexOK(l) = BufOK(l) && 0 <= l.offset && l.offset <= len(l.src)-1 && (AtEOF(l) || AtChar(l))
pred NextPre(l) = BufOK(l) && 0 <= l.rdOffset && l.rdOffset <= len(l.src) && (l.rdOffset == len(l.src) ==> l.offset == len(l.src)-1)
pred SameSrc(l) = unchanged(l.src) && row(l.src) == old(row(l.src))
# what is left to read
pred Rem(l) = len(l.src) - l.offset + ite(l.chr == -1, 0, 1)
pred OwnLines(l) = arr(l.lineOffsets) == old(arr(l.lineOffsets)) || fresh(l.lineOffsets)
pred OwnArr(l) = OwnLines(l) && (arr(l.Errors) == old(arr(l.Errors)) || fresh(l.Errors))
# other packages see these as atoms
opaque LexOK AtEOF Rem
# the line table: one entry per line feed passed, the last one being the latest
pred LF(l) = cnt(row(l.src), 10, off(l.src), off(l.src)+l.offset)
pred LexLines(l) = len(l.lineOffsets) == 1 + LF(l) && 0 <= off(l.lineOffsets) && len(l.lineOffsets) <= cap(l.lineOffsets) && l.lineOffsets[len(l.lineOffsets)-1] == lastix(row(l.src), 10, off(l.src), off(l.src)+l.offset) - off(l.src)
pred LN(l) = 1 + cntall(row(l.src), 10, off(l.src), SrcEnd(l))
pred ErrPos(l) = forall(i, off(l.Errors), off(l.Errors)+len(l.Errors), PosOK(at(l.Errors, i).Pos))
pred LinesMem(l) = 1 <= len(l.lineOffsets) && 0 <= off(l.lineOffsets) && len(l.lineOffsets) <= cap(l.lineOffsets)
opaque LexLines LN
pred ErrMem(l) = 0 <= len(l.Errors) && 0 <= off(l.Errors) && len(l.Errors) <= cap(l.Errors)
pred ws(b) = b == 32 || b == 9 || b == 10 || b == 13
pred digit(b) = 48 <= b && b <= 57
pred letter(b) = (65 <= b && b <= 90) || (97 <= b && b <= 122)
pred idStart(b) = letter(b) || b == 64 || b == 95 || b == 36
pred idBody(b) = idStart(b) || digit(b) || b == 45 || b == 46
# no line feed in [a,b) of the source
pred NoLF(l, a, b) = forall(i, off(l.src)+a, off(l.src)+b, row(l.src)[i] != 10)

extern unicode.IsDigit(r) (b)
  ensures "ASCII" (0 <= r && r < 128) ==> (b == digit(r))
  ensures "no digits in Latin-1, nothing below zero" (r < 0 || (128 <= r && r < 256)) ==> !b

extern unicode.ToLower(r) (c)
  ensures "ASCII" (0 <= r && r < 128) ==> c == ite(65 <= r && r <= 90, r + 32, r)

func (*lexer.Lexer).next(l) ()
  nonodes
  safety C01
  requires NextPre(l)
  modifies l.chr, l.offset, l.rdOffset
  ensures "advances over one rune or stays at the end" ite(old(l.rdOffset) < len(l.src), AtChar(l) && l.offset == old(l.rdOffset), AtEOF(l) && l.offset == old(l.offset))
  ensures "state stays well-formed" LexOK(l)

func (*lexer.Lexer).skipWhitespace(l) ()
  nonodes
  safety C01
  requires LexOK(l) && LinesMem(l)
  requires [C02,C08] LexLines(l)
  modifies l.chr, l.offset, l.rdOffset, l.lineOffsets, elems(l.lineOffsets)
  ensures "state stays well-formed" LexOK(l) && LinesMem(l)
  ensures "never moves backwards" old(l.offset) <= l.offset
  ensures [C02,C08] "line table stays exact" LexLines(l)
  ensures [C02,C03] "skips only whitespace" forall(i, off(l.src)+old(l.offset), off(l.src)+l.offset, ws(row(l.src)[i]))
  ensures "skips all of it" !ws(l.chr)
  ensures "arrays are its own" OwnLines(l)
  inv LexOK(l) && LinesMem(l)
  inv OwnLines(l)
  inv pre(l.offset) <= l.offset
  inv [C02,C08] LexLines(l)
  inv [C02,C03] forall(i, off(l.src)+pre(l.offset), off(l.src)+l.offset, ws(row(l.src)[i]))
  measure Rem(l)

func lexer.NewLexer(src) (l)
  nonodes
  safety C01
  requires 0 <= len(src) && 0 <= off(src) && len(src) <= cap(src)
  defines [C16] lexof(ref(l)) == strof(row(src), off(src), len(src))
  ensures "the new lexer is well-formed" LexOK(l) && LinesMem(l) && ErrMem(l) && fresh(l) && fresh(l.lineOffsets) && l.offset == 0 && 1 <= Rem(l) && (AtEOF(l) ==> Rem(l) == 1)
  ensures [C02,C08] "no line passed yet" LexLines(l)
  ensures "no error yet" len(l.Errors) == 0 && (arr(l.Errors) == 0 || fresh(l.Errors))
  ensures [C05] "scans an array of its own" fresh(l.src)
  ensures [C02,C03,C05] "the source followed by one space" len(l.src) == len(src) + 1 && forall(i, 0, len(src), row(l.src)[off(l.src)+i] == row(src)[off(src)+i])

# the token at s..e (e = l.offset after the call)
pred B(l, k) = row(l.src)[off(l.src)+k]
pred Txt(l, a, b) = strof(row(l.src), off(l.src)+a, b-a)
pred Based(l, s) = B(l, s) == 48 && (B(l, s+1) == 120 || B(l, s+1) == 111 || B(l, s+1) == 98)
pred hexd(b) = digit(b) || (65 <= b && b <= 70) || (97 <= b && b <= 102)
pred octd(b) = 48 <= b && b <= 55
pred bind(b) = b == 48 || b == 49
pred Sp(l, s, tok, w, n, t) = tok == t && l.offset == s + n

func (*lexer.Lexer).Scan(l) (tok, pos, lit)
  nonodes
  safety C01
  root C05
  requires LexOK(l) && LinesMem(l) && ErrMem(l)
  requires [C02,C08] LexLines(l)
  requires [C08] srclines == LN(l) && ErrPos(l)
  modifies l.chr, l.offset, l.rdOffset, l.lineOffsets, elems(l.lineOffsets), l.Errors, elems(l.Errors), l.ErrCount
  ensures "state stays well-formed" LexOK(l) && LinesMem(l) && ErrMem(l)
  ensures "position and progress" old(l.offset) <= pos.Offset && pos.Offset <= l.offset
  ensures [C01] "a token other than end-of-input consumes a byte of the source" tok != token.EOF ==> pos.Offset < l.offset && pos.Offset < len(l.src)-1
  ensures "what is left shrinks" 1 <= Rem(l) && (AtEOF(l) ==> Rem(l) == 1) && Rem(l) <= old(Rem(l)) && (tok != token.EOF ==> Rem(l) < old(Rem(l)))
  ensures "arrays are its own" OwnArr(l)
  ensures [C01,C02] "end-of-input comes exactly at the end" (tok == token.EOF) == (pos.Offset == len(l.src)-1)
  ensures "end-of-input repeats" (tok == token.EOF ==> AtEOF(l)) && (old(AtEOF(l)) ==> tok == token.EOF)
  ensures [C02] "line and column" pos.Line == 1 + cnt(row(l.src), 10, off(l.src), off(l.src)+pos.Offset) && pos.Column == pos.Offset - (lastix(row(l.src), 10, off(l.src), off(l.src)+pos.Offset) - off(l.src)) && pos.Filename == ""
  ensures [C02,C08] "line table stays exact" LexLines(l)
  ensures [C08] "the position exists" PosOK(pos) && srclines == LN(l)
  ensures [C08] "errors are recorded where they are" ErrPos(l)
  ensures [C02,C03] "only whitespace before the token" forall(i, off(l.src)+old(l.offset), off(l.src)+pos.Offset, ws(row(l.src)[i]))
  ensures [C02,C03] "the token begins with its own text" tok != token.EOF ==> !ws(B(l, pos.Offset))
  ensures [C06,C12] "an identifier has a name" tok == token.IDENT ==> 1 <= len(lit)
  # C03
  ensures [C03] "the literal of a comment" tok == token.COMMENT ==> B(l, pos.Offset) == 59 && lit == Txt(l, pos.Offset+1, l.offset) && NoLF(l, pos.Offset, l.offset) && (B(l, l.offset) == 10 || AtEOF(l))
  ensures [C03] "the literal of a text literal" tok == token.TEXT_LITERAL ==> B(l, pos.Offset) == 34 && lit == Txt(l, pos.Offset+1, pos.Offset+1+len(lit)) && forall(i, off(l.src)+pos.Offset+1, off(l.src)+pos.Offset+1+len(lit), row(l.src)[i] != 34 && row(l.src)[i] != 10)
  ensures [C03] "a text literal is closed or an error is recorded" tok == token.TEXT_LITERAL ==> (B(l, pos.Offset+1+len(lit)) == 34 && l.offset == pos.Offset+2+len(lit) && len(l.Errors) == old(len(l.Errors))) || ((B(l, pos.Offset+1+len(lit)) == 10 || AtEOF(l)) && l.offset == pos.Offset+1+len(lit) && len(l.Errors) == old(len(l.Errors))+1)
  ensures [C07] "recorded errors stay" old(len(l.Errors)) <= len(l.Errors)
  ensures [C03] "other tokens record no error" tok != token.TEXT_LITERAL ==> len(l.Errors) == old(len(l.Errors))
  ensures [C03] "no byte is dropped: invalid bytes are illegal tokens of their own" (tok == token.ILLEGAL && B(l, pos.Offset) >= 128 && l.offset == pos.Offset+1) ==> lit == "\ufffd"
  ensures [C03] "the literal of any other token is its text" (!oneof(tok, token.EOF, token.COMMENT, token.TEXT_LITERAL) && !(tok == token.ILLEGAL && l.offset == pos.Offset+1 && B(l, pos.Offset) >= 128)) ==> lit == Txt(l, pos.Offset, l.offset)
  ensures [C03] "the end-of-input has no text" tok == token.EOF ==> lit == ""
  ensures [C03] "an illegal token is one character" tok == token.ILLEGAL ==> l.offset <= pos.Offset + 4 && (B(l, pos.Offset) < 128 ==> l.offset == pos.Offset+1)
  # C04
  ensures [C04] "identifier characters: the longest run" idStart(B(l, pos.Offset)) ==> forall(i, off(l.src)+pos.Offset, off(l.src)+l.offset, idBody(row(l.src)[i])) && !idBody(B(l, l.offset))
  ensures [C04] "reserved words exactly" idStart(B(l, pos.Offset)) ==> tok == WordTok(lit) && lit == Txt(l, pos.Offset, l.offset)
  ensures [C04] "digits are numbers" digit(B(l, pos.Offset)) ==> oneof(tok, token.INT, token.FLOAT)
  ensures [C04] "a decimal number takes all its digits and its fraction" digit(B(l, pos.Offset)) && !Based(l, pos.Offset) ==> !digit(B(l, l.offset)) && !(B(l, l.offset) == 46 && digit(B(l, l.offset+1)))
  ensures [C04] "a based number takes all its digits" (digit(B(l, pos.Offset)) && Based(l, pos.Offset)) ==> tok == token.INT && pos.Offset+2 <= l.offset &&
      (B(l, pos.Offset+1) == 120 ==> !hexd(B(l, l.offset)) && forall(i, off(l.src)+pos.Offset+2, off(l.src)+l.offset, hexd(row(l.src)[i]))) &&
      (B(l, pos.Offset+1) == 111 ==> !octd(B(l, l.offset)) && forall(i, off(l.src)+pos.Offset+2, off(l.src)+l.offset, octd(row(l.src)[i]))) &&
      (B(l, pos.Offset+1) == 98 ==> !bind(B(l, l.offset)) && forall(i, off(l.src)+pos.Offset+2, off(l.src)+l.offset, bind(row(l.src)[i])))
  ensures [C04] "a number is a float exactly if it has a point" (digit(B(l, pos.Offset)) && !Based(l, pos.Offset)) ==> (tok == token.FLOAT) == (0 < cnt(row(l.src), 46, off(l.src)+pos.Offset, off(l.src)+l.offset))
  ensures [C04] "a point in a number is followed by a digit" (digit(B(l, pos.Offset)) && !Based(l, pos.Offset)) ==> forallm(i, off(l.src)+pos.Offset, off(l.src)+l.offset, row(l.src)[i] == 46 ==> digit(row(l.src)[i+1]))
  ensures [C04] "only digits start numbers" oneof(tok, token.INT, token.FLOAT) ==> digit(B(l, pos.Offset)) || (idStart(B(l, pos.Offset)) && reserved("int float", lit))
  ensures [C04] "single characters" (B(l, pos.Offset) == 45 ==> Sp(l, pos.Offset, tok, 0, 1, token.MINUS))
      && (B(l, pos.Offset) == 40 ==> Sp(l, pos.Offset, tok, 0, 1, token.LPAREN)) && (B(l, pos.Offset) == 41 ==> Sp(l, pos.Offset, tok, 0, 1, token.RPAREN))
      && (B(l, pos.Offset) == 91 ==> Sp(l, pos.Offset, tok, 0, 1, token.LBRACK)) && (B(l, pos.Offset) == 93 ==> Sp(l, pos.Offset, tok, 0, 1, token.RBRACK))
      && (B(l, pos.Offset) == 123 ==> Sp(l, pos.Offset, tok, 0, 1, token.LBRACE)) && (B(l, pos.Offset) == 125 ==> Sp(l, pos.Offset, tok, 0, 1, token.RBRACE))
      && (B(l, pos.Offset) == 44 ==> Sp(l, pos.Offset, tok, 0, 1, token.COMMA)) && (B(l, pos.Offset) == 58 ==> Sp(l, pos.Offset, tok, 0, 1, token.COLON))
      && (B(l, pos.Offset) == 63 ==> Sp(l, pos.Offset, tok, 0, 1, token.OPTIONAL)) && (B(l, pos.Offset) == 38 ==> Sp(l, pos.Offset, tok, 0, 1, token.AMPERSAND))
      && (B(l, pos.Offset) == 35 ==> Sp(l, pos.Offset, tok, 0, 1, token.HASH)) && (B(l, pos.Offset) == 60 ==> Sp(l, pos.Offset, tok, 0, 1, token.LEFT_ANGLE_BRACKET))
      && (B(l, pos.Offset) == 62 ==> Sp(l, pos.Offset, tok, 0, 1, token.RIGHT_ANGLE_BRACKET)) && (B(l, pos.Offset) == 42 ==> Sp(l, pos.Offset, tok, 0, 1, token.ZERO_OR_MORE))
      && (B(l, pos.Offset) == 43 ==> Sp(l, pos.Offset, tok, 0, 1, token.ONE_OR_MORE)) && (B(l, pos.Offset) == 126 ==> Sp(l, pos.Offset, tok, 0, 1, token.UNWRAP))
      && (B(l, pos.Offset) == 59 ==> tok == token.COMMENT) && (B(l, pos.Offset) == 34 ==> tok == token.TEXT_LITERAL)
  ensures [C04] "assignment and arrow" B(l, pos.Offset) == 61 ==> ite(B(l, pos.Offset+1) == 62, Sp(l, pos.Offset, tok, 0, 2, token.ARROW_MAP), Sp(l, pos.Offset, tok, 0, 1, token.ASSIGN))
  ensures [C04] "slashes: longest spelling" B(l, pos.Offset) == 47 ==> ite(B(l, pos.Offset+1) == 61, Sp(l, pos.Offset, tok, 0, 2, token.TYPE_CHOICE_ASSIGN),
       ite(B(l, pos.Offset+1) == 47, ite(B(l, pos.Offset+2) == 61, Sp(l, pos.Offset, tok, 0, 3, token.GROUP_CHOICE_ASSIGN), Sp(l, pos.Offset, tok, 0, 2, token.GROUP_CHOICE)), Sp(l, pos.Offset, tok, 0, 1, token.TYPE_CHOICE)))
  ensures [C04] "dots: longest spelling" B(l, pos.Offset) == 46 ==> ite(B(l, pos.Offset+1) == 46, ite(B(l, pos.Offset+2) == 46, Sp(l, pos.Offset, tok, 0, 3, token.EXCLUSIVE_BOUND), Sp(l, pos.Offset, tok, 0, 2, token.INCLUSIVE_BOUND)),
       ite(letter(B(l, pos.Offset+1)), tok == CtlTok(lit) && lit == Txt(l, pos.Offset, l.offset) && forall(i, off(l.src)+pos.Offset+1, off(l.src)+l.offset, letter(row(l.src)[i])) && !letter(B(l, l.offset)), Sp(l, pos.Offset, tok, 0, 1, token.PERIOD)))
  ensures [C04] "anything else is illegal" (pos.Offset < len(l.src)-1 && !idStart(B(l, pos.Offset)) && !digit(B(l, pos.Offset)) && !oneof(B(l, pos.Offset), 45, 40, 41, 91, 93, 123, 125, 44, 58, 63, 38, 35, 60, 62, 42, 43, 126, 59, 34, 61, 47, 46)) ==> tok == token.ILLEGAL
  inv LexOK(l) && LinesMem(l) && ErrMem(l)
  inv pre(l.offset) <= l.offset
  inv OwnArr(l)
  measure Rem(l)
  inv NoLF(l, pre(l.offset), l.offset)
  inv forall(i, off(l.src)+pre(l.offset), off(l.src)+l.offset, row(l.src)[i] != 34)
  inv [C02,C08] LexLines(l)
  inv [C04] forall(i, off(l.src)+pre(l.offset), off(l.src)+l.offset, idBody(row(l.src)[i]))
  inv [C04] forall(i, off(l.src)+pre(l.offset), off(l.src)+l.offset, letter(row(l.src)[i]))
  inv [C04] forall(i, off(l.src)+pre(l.offset), off(l.src)+l.offset, hexd(row(l.src)[i]))
  inv [C04] forall(i, off(l.src)+pre(l.offset), off(l.src)+l.offset, octd(row(l.src)[i]))
  inv [C04] forall(i, off(l.src)+pre(l.offset), off(l.src)+l.offset, bind(row(l.src)[i]))
  inv [C04] forall(i, off(l.src)+pre(l.offset), off(l.src)+l.offset, digit(row(l.src)[i]))
  inv [C04] forall(i, off(l.src)+pre(l.offset), off(l.src)+l.offset, row(l.src)[i] != 46)
  inv [C04] forallm(i, off(l.src)+pre(l.offset), off(l.src)+l.offset, row(l.src)[i] == 46 ==> digit(row(l.src)[i+1]))
  inv oneof(phi0, token.INT, token.FLOAT)
  inv [C04] phi0 == ite(0 < cnt(row(l.src), 46, off(l.src)+pre(l.offset), off(l.src)+l.offset), token.FLOAT, token.INT)
