From b18f1d566a311704fe709d3561000d242d3d7b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 01/27] fix: advance over bytes that are not valid UTF-8
 instead of looping forever

---
 lexer/lexer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0e7eb38..4b0178e 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -201,9 +201,6 @@ func (l *Lexer) next() {
 		return
 	}
 	ch, w := utf8.DecodeRune(l.src[l.rdOffset:])
-	if ch == utf8.RuneError {
-		return
-	}
 	l.chr = ch
 	l.offset = l.rdOffset
 	l.rdOffset += w
-- 
2.43.0


From cc10e76e4679dc5bafaa1fc4c9925b66b6d289c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 02/27] fix: unterminated text literals no longer crash the
 lexer or lose their last character

---
 lexer/lexer.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4b0178e..bc82176 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -316,19 +316,17 @@ func (l *Lexer) scanOctalDigits() (tok token.Token, lit string) {
 func (l *Lexer) scanString() string {
 	offsetPre := l.offset
 
-	for {
+	for l.chr != '"' {
 		if l.chr < 0 || l.chr == '\n' {
 			l.error(l.offset, "unexpected newline character before string termination")
-			break
-		}
-		if l.chr == '"' {
-			l.next()
-			break
+			return string(l.src[offsetPre:l.offset])
 		}
 		l.next()
 	}
+	lit := string(l.src[offsetPre:l.offset])
+	l.next() // consume the closing quote
 
-	return string(l.src[offsetPre : l.offset-1])
+	return lit
 }
 
 func isLetter(x rune) bool {
-- 
2.43.0


From 82e2e6f56b4cc137f774991a3d42c4f61012ada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 03/27] fix: keep a private copy of the source in the lexer

---
 lexer/lexer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index bc82176..5e58352 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -50,9 +50,12 @@ func (l *Lexer) addLineOffset(offset int) {
 
 // NewLexer returns a new Lexer given code sourcce in bytes
 func NewLexer(src []byte) *Lexer {
-	src = append(src, 32) // Hack:: trailing byte ignored without adding an ignorable byte
+	// copy the source, the caller's array is not ours to extend or rely on
+	buf := make([]byte, len(src)+1)
+	copy(buf, src)
+	buf[len(src)] = 32 // Hack:: trailing byte ignored without adding an ignorable byte
 	l := &Lexer{
-		src:      src,
+		src:      buf,
 		offset:   0,
 		rdOffset: 0,
 		ErrCount: 0,
-- 
2.43.0


From 52d2d599b9425cf1e8d7c786851c722274f9ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 04/27] fix: a number is a float only if its point is followed
 by a digit

---
 lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5e58352..917b843 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -284,10 +284,10 @@ func (l *Lexer) scanNumber() (token.Token, string) {
 
 	// TODO : Add support for all number types, int, floats
 	for unicode.IsDigit(l.chr) || l.chr == '.' && unicode.IsDigit(rune(l.peek())) {
-		l.next()
-		if l.chr == '.' && l.peek() != '.' { // check that its not part of a bound .., ...
+		if l.chr == '.' { // followed by a digit, so not part of a bound .., ...
 			tok = token.FLOAT
 		}
+		l.next()
 	}
 	return tok, string(l.src[offsetPre:l.offset])
 }
-- 
2.43.0


From 2161eedb353b9057fc4a0c2fa1471e0fb759efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 05/27] fix: a point before a non-ASCII letter is not an empty
 control operator

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 917b843..211c286 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -169,7 +169,7 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 				l.next()
 				tok = token.INCLUSIVE_BOUND
 				lit = ".."
-			} else if unicode.IsLetter(l.chr) {
+			} else if isLetter(l.chr) {
 				// Scan for control operators
 				copString := l.scanControlOp()
 				lit = fmt.Sprintf("%s%s", string(chr), copString)
-- 
2.43.0


From 12fd7a75b954199068e500d5796536924dac8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 06/27] fix: text_literal and internal markers are identifiers,
 not reserved words

---
 token/token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/token/token.go b/token/token.go
index 03a6316..243d770 100644
--- a/token/token.go
+++ b/token/token.go
@@ -312,6 +312,10 @@ func init() {
 	keywords = make(map[string]Token)
 	// skip the IDENT literal
 	for i := Token(INT); i < literal_end; i++ {
+		// these have no spelling of their own
+		if i == numeric_end || i == TEXT_LITERAL {
+			continue
+		}
 		v := tokens[i]
 		keywords[v] = i
 	}
-- 
2.43.0


From 01d68ae7a0baafa18875b9fdc8071808b9aadf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 07/27] fix: a trailing comment no longer swallows the rule
 after it

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e9fb87a..0090560 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -173,7 +173,6 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
 		p.next()
 		rule.TrailingComment = p.parseInnerComment()
-		p.next()
 	}
 
 	return rule, nil
-- 
2.43.0


From f417682dd217154c530908da6fef96f73818471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 08/27] fix: .regexp after anything but tstr is an error, not a
 nil dereference

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0090560..2f0fee3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -566,7 +566,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 	if b, ok := left.(*ast.TstrType); ok {
 		base = b
 	} else {
-		return nil, p.errorUnsupportedTypes(b.Pos, p.currliteral, token.TSTR)
+		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.TSTR)
 	}
 	r := &ast.Regexp{
 		Pos:   p.pos,
-- 
2.43.0


From cee46835c94e9d5f9efe2ecc3c17a615699889bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 09/27] fix: a broken .bits constraint no longer crashes the
 parser

---
 parser/parser.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2f0fee3..3b01f16 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -595,7 +595,6 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	p.next()
 	constraint, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		b.Base = wrapBadNode(constraint)
 		return b, err
 	}
 	b.Contstraint = constraint
@@ -649,14 +648,6 @@ func isSameLineTokens(tok1, tok2 token.Position) bool {
 	return tok1.Line == tok2.Line
 }
 
-func wrapBadNode(node ast.Node) *ast.BadNode {
-	return &ast.BadNode{
-		Pos:    node.Start(),
-		Base:   node,
-		EndPos: node.End(),
-	}
-}
-
 func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g := &ast.Map{}
 	g.Pos = p.pos
-- 
2.43.0


From 7c7d4e6e4b40b328a7e8411cd6b14c37e843f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 10/27] fix: comparison operators keep their left operand

---
 parser/parser.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3b01f16..95501e7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -716,8 +716,6 @@ func (p *Parser) parseInnerComment() *ast.Comment {
 }
 
 func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic) {
-	var leftI *ast.IntegerType
-
 	switch left.(type) {
 	case *ast.UintType, *ast.IntegerType, *ast.FloatType:
 	default:
@@ -727,7 +725,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	op := &ast.ComparatorOpControl{
 		Pos:      p.pos,
 		Token:    p.currToken,
-		Left:     leftI,
+		Left:     left,
 		Operator: p.currliteral,
 	}
 	if !p.peekToken.IsNumeric() {
@@ -737,7 +735,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 
 	right, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		return &ast.BadNode{Base: leftI, Token: p.currToken}, err
+		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
 	op.Right = right
 
-- 
2.43.0


From 22641d2d0bbc4328addfb6221fbc055f3ca30ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 11/27] fix: report a comparison operator whose right operand
 is not numeric

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 95501e7..1ebb974 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -728,8 +728,8 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 		Left:     left,
 		Operator: p.currliteral,
 	}
-	if !p.peekToken.IsNumeric() {
-		p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
+	if !p.peekToken.IsNumeric() && p.peekToken != token.IDENT {
+		return op, p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
 	}
 	p.next()
 
-- 
2.43.0


From 86d9722f969b6c7c7f08403ceb32d4fcff417ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 12/27] fix: report a range bound that is neither a number nor
 a name

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 1ebb974..ae1e6ef 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -752,6 +752,8 @@ func (p *Parser) parseBound(left ast.Node) (bound ast.Node, err errors.Diagnosti
 		bound, err = p.parseFloatBound(val)
 	case *ast.Identifier:
 		bound, err = p.parseIdentBound(val)
+	default:
+		err = p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.IDENT)
 	}
 	return bound, err
 }
@@ -875,6 +877,8 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.error("expected integer upper bound", b.Pos, b.Pos)
 	}
 
 	return b, nil
@@ -920,6 +924,8 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.error("expected float upper bound", b.Pos, b.Pos)
 	}
 
 	return b, nil
-- 
2.43.0


From 98ced5dabd9b150c0e0162bf14add0bf163503aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 13/27] fix: End of tags without item and occurrences without
 upper bound

---
 ast/occurrence.go |  2 +-
 ast/tag.go        | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ast/occurrence.go b/ast/occurrence.go
index 56b6a77..a60cda6 100644
--- a/ast/occurrence.go
+++ b/ast/occurrence.go
@@ -31,7 +31,7 @@ func (nm *NMOccurrence) Start() token.Position {
 }
 
 func (nm *NMOccurrence) End() token.Position {
-	return nm.M.End()
+	return nm.Item.End()
 }
 
 func (nm *NMOccurrence) groupEntry() {}
diff --git a/ast/tag.go b/ast/tag.go
index 85aba74..703e65f 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -14,5 +14,13 @@ func (t *Tag) Start() token.Position {
 }
 
 func (t *Tag) End() token.Position {
-	return t.Item.End().To(1) // add )
+	switch {
+	case t.Item != nil:
+		return t.Item.End().To(1) // add )
+	case t.TagNumber != nil:
+		return t.TagNumber.End()
+	case t.Major != nil:
+		return t.Major.End()
+	}
+	return t.Pos.To(1) // length of `#`
 }
-- 
2.43.0


From 67ee5ee4fc45e8766ff73e313af46c462c7501bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 14/27] fix: record the position of a tag's major number

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ae1e6ef..07adf0a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -429,7 +429,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return nil, p.error("failed to parse tag major", p.pos, p.pos)
 		}
-		tagBase.Major = &ast.UintLiteral{Literal: major}
+		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major}
 	case token.FLOAT:
 		p.next()
 		tagB, err := p.parseFloatTag()
-- 
2.43.0


From eeaa9068424b32a27e86657ba7364f8da5541b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 15/27] fix: report a tag whose closing parenthesis is missing

---
 parser/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 07adf0a..91dfaff 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -106,13 +106,12 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 
 }
 
-func (p *Parser) expectPeek(tok token.Token) bool {
+func (p *Parser) expectPeek(tok token.Token) errors.Diagnostic {
 	if p.peekToken != tok {
-		p.errorTokenExpected(p.peekPos, tok)
-		return false
+		return p.errorTokenExpected(p.peekPos, tok)
 	}
 	p.next()
-	return false
+	return nil
 }
 
 func (p *Parser) Errors() ErrorList {
@@ -447,7 +446,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
-		p.expectPeek(token.RPAREN)
+		if err := p.expectPeek(token.RPAREN); err != nil {
+			return tagBase, err
+		}
 	}
 	return tagBase, nil
 }
-- 
2.43.0


From 2b7a4c6cceff9d236e98258e516e435b54d7b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 16/27] fix: the upper bound of an occurrence is not its item

---
 parser/parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 91dfaff..35d1049 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -792,10 +792,9 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		if val, ok := rightN.(*ast.UintLiteral); ok {
 			right = val
 		}
-	} else {
-		// assume no upper limit. Advance
-		p.next()
 	}
+	// advance to the item
+	p.next()
 
 	occ.N = leftU
 	occ.M = right
-- 
2.43.0


From 6169793c08fad36787847d2146593dc31ca0beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:39 +0000
Subject: [PATCH 17/27] fix: report lexer errors instead of returning no tree
 and no diagnostics

---
 lexer/lexer.go   | 7 ++++++-
 parser/parser.go | 9 ++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 211c286..6c16711 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -382,7 +382,12 @@ func isIdentifierBodyChar(x rune) bool {
 }
 
 func (l *Lexer) error(offset int, message string) {
-	l.Errors = append(l.Errors, Error{Pos: token.Position{Offset: offset}, Msg: message})
+	pos := token.Position{
+		Offset: offset,
+		Line:   len(l.lineOffsets),
+		Column: offset - l.lineOffsets[len(l.lineOffsets)-1],
+	}
+	l.Errors = append(l.Errors, Error{Pos: pos, Msg: message})
 	l.ErrCount += 1
 }
 
diff --git a/parser/parser.go b/parser/parser.go
index 35d1049..acb34c4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -79,11 +79,6 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 	cddl := &ast.CDDL{}
 	cddl.Rules = []ast.CDDLEntry{}
 
-	// Don't parse if lexer errors are non zero
-	if len(p.lexer.Errors) != 0 {
-		return nil, nil
-	}
-
 	for p.currToken != token.EOF {
 		cddlEntry, err := p.parseRule()
 		if err != nil {
@@ -102,6 +97,10 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 		}
 	}
 
+	for _, lexErr := range p.lexer.Errors {
+		p.errorHandler(p.error(lexErr.Msg, lexErr.Pos, lexErr.Pos))
+	}
+
 	return cddl, p.errors.Collect()
 
 }
-- 
2.43.0


From 287df9c6b661b1e060fbdfabe866502b098eff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 18/27] fix: walk every node type the parser produces

---
 ast/astutils/walk.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ast/astutils/walk.go b/ast/astutils/walk.go
index 1768294..4512fd3 100644
--- a/ast/astutils/walk.go
+++ b/ast/astutils/walk.go
@@ -22,6 +22,22 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, rule)
 		}
 
+	case *ast.BadNode:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+
+	case *ast.Bits:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+		if n.Contstraint != nil {
+			Walk(v, n.Contstraint)
+		}
+
+	case *ast.BooleanLiteral:
+		// pass
+
 	case *ast.BooleanType:
 		// pass
 
@@ -39,6 +55,11 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.Comment:
 		// pass
 
+	case *ast.CommentGroup:
+		for _, comment := range n.List {
+			Walk(v, comment)
+		}
+
 	case *ast.ComparatorOpControl:
 		if n.Left != nil {
 			Walk(v, n.Left)
@@ -74,6 +95,11 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, n.TrailingComment)
 		}
 
+	case *ast.Enumeration:
+		if n.Value != nil {
+			Walk(v, n.Value)
+		}
+
 	case *ast.FloatType:
 		// pass
 
@@ -176,6 +202,9 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.UintLiteral:
 		// pass
 
+	case *ast.UintType:
+		// pass
+
 	case *ast.Unwrap:
 		if n.Item != nil {
 			Walk(v, n.Item)
-- 
2.43.0


From 0de1771f0d7a75f227a17649b1c44a7cf8b328c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 19/27] fix: .eq binds like the other control operators

---
 token/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token/token.go b/token/token.go
index 243d770..aefb430 100644
--- a/token/token.go
+++ b/token/token.go
@@ -261,7 +261,7 @@ func Lookup(str string) Token {
 // Precedence returns the token's precedence used to built the ast in parsing
 func (t Token) Precedence() int {
 	switch t {
-	case EQ, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
+	case ASSIGN, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
 		return 1
 	case GROUP_CHOICE:
 		return 2
-- 
2.43.0


From 9b6f864b57b6c474e0f66635a1583c45fdc42509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 20/27] fix: operators parse their right operand with their own
 precedence

---
 parser/parser.go | 62 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index acb34c4..d40ca8f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -143,7 +143,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	switch tok {
 	case token.ASSIGN:
 		p.next()
-		entry, err = p.parseEntry(p.currToken.Precedence())
+		entry, err = p.parseEntry(token.LOWEST)
 		if err != nil {
 			return rule, err
 		}
@@ -203,7 +203,7 @@ func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 		return exp, err
 	}
 
-	for p.currToken != token.COMMA && precedence < p.peekToken.Precedence() {
+	for !p.entryEnded() && precedence < p.peekToken.Precedence() {
 		ledFn := p.leds[p.peekToken]
 		if ledFn == nil {
 			return exp, nil
@@ -219,6 +219,11 @@ func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 	return exp, nil
 }
 
+// entryEnded tells whether the current token ended an entry: its comma, or its trailing comment if no comma follows.
+func (p *Parser) entryEnded() bool {
+	return p.currToken == token.COMMA || p.currToken == token.COMMENT && p.peekToken != token.COMMA
+}
+
 func (p *Parser) parseIdentifier() (ast.Node, errors.Diagnostic) {
 	return &ast.Identifier{Pos: p.pos, Name: p.currliteral}, nil
 }
@@ -348,13 +353,17 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 		Pos:  p.pos,
 		Name: ident,
 	}
+	prec := p.currToken.Precedence()
 	p.next()
 
-	val, err := p.parseEntry(p.currToken.Precedence())
+	val, err := p.parseEntry(prec)
 	if err != nil {
 		return val, err
 	}
 	rule.Value = val
+	if p.peekToken == token.COMMA {
+		p.next()
+	}
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
 		p.next()
 		rule.TrailingComment = p.parseInnerComment()
@@ -373,8 +382,9 @@ func (p *Parser) parseTypeChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		Token: p.currToken,
 		First: left,
 	}
+	prec := p.currToken.Precedence()
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is type
+	sec, err := p.parseEntry(prec - 1) // right associative. TODO: Check is type
 	if err != nil {
 		return sec, err
 	}
@@ -388,8 +398,9 @@ func (p *Parser) parseGroupChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		Token: p.currToken,
 		First: left,
 	}
+	prec := p.currToken.Precedence()
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is group
+	sec, err := p.parseEntry(prec - 1) // right associative. TODO: Check is group
 	if err != nil {
 		return sec, err
 	}
@@ -404,8 +415,9 @@ func (p *Parser) parseUnwrap() (ast.Node, errors.Diagnostic) {
 		Token: p.currToken,
 	}
 
+	prec := p.currToken.Precedence()
 	p.next()
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(prec)
 	if err != nil {
 		return item, err
 	}
@@ -440,7 +452,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 	if p.peekToken == token.LPAREN {
 		p.next()
 		p.next()
-		item, err := p.parseEntry(p.currToken.Precedence())
+		item, err := p.parseEntry(token.LOWEST)
 		tagBase.Item = item
 		if err != nil {
 			return tagBase, err
@@ -458,9 +470,10 @@ func (p *Parser) parseEnumeration() (ast.Node, errors.Diagnostic) {
 		Token: p.currToken,
 	}
 
+	prec := p.currToken.Precedence()
 	p.next()
 
-	value, err := p.parseEntry(p.currToken.Precedence())
+	value, err := p.parseEntry(prec)
 	if err != nil {
 		bn := &ast.BadNode{
 			Base: value,
@@ -502,9 +515,10 @@ func (p *Parser) parseOptional() (ast.Node, errors.Diagnostic) {
 		Pos:   p.pos,
 		Token: p.currToken,
 	}
+	prec := p.currToken.Precedence()
 	p.next()
 
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(prec)
 	if err != nil {
 		return item, err
 	}
@@ -548,9 +562,10 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 		err := p.errorUnsupportedTypes(sop.Pos, p.currliteral, token.TSTR, token.BSTR, token.UINT)
 		return sop, err
 	}
+	prec := p.currToken.Precedence()
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(prec)
 	if err != nil {
 		return sop, err
 	}
@@ -576,8 +591,9 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 	if p.peekToken != token.TEXT_LITERAL && p.peekToken != token.IDENT {
 		return r, p.errorTokenExpected(p.pos, token.TEXT_LITERAL)
 	}
+	prec := p.currToken.Precedence()
 	p.next()
-	regex, err := p.parseEntry(p.currToken.Precedence())
+	regex, err := p.parseEntry(prec)
 	if err != nil {
 		return r, err
 	}
@@ -592,8 +608,9 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 		Base:  left,
 	}
 
+	prec := p.currToken.Precedence()
 	p.next()
-	constraint, err := p.parseEntry(p.currToken.Precedence())
+	constraint, err := p.parseEntry(prec)
 	if err != nil {
 		return b, err
 	}
@@ -626,7 +643,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RPAREN {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -654,7 +671,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACE {
-		rule, err := p.parseEntry(p.currToken.Precedence())
+		rule, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -672,7 +689,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACK {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return arr, err
 		}
@@ -731,9 +748,10 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	if !p.peekToken.IsNumeric() && p.peekToken != token.IDENT {
 		return op, p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
 	}
+	prec := p.currToken.Precedence()
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(prec)
 	if err != nil {
 		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
@@ -763,6 +781,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		Pos:   p.pos,
 		Token: p.currToken,
 	}
+	prec := p.currToken.Precedence()
 	var right, leftU *ast.UintLiteral
 
 	switch val := left.(type) {
@@ -797,7 +816,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 
 	occ.N = leftU
 	occ.M = right
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(prec)
 	if err != nil {
 		return &ast.BadNode{Base: occ, Token: p.currToken}, err
 	}
@@ -812,8 +831,9 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 		From:  left,
 	}
 
+	prec := p.currToken.Precedence()
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(prec)
 	if err != nil {
 		return b, err
 	}
@@ -843,8 +863,9 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 		From:  left,
 	}
 
+	prec := p.currToken.Precedence()
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(prec)
 	if err != nil {
 		return b, err
 	}
@@ -890,8 +911,9 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 		From:  left,
 	}
 
+	prec := p.currToken.Precedence()
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(prec)
 	if err != nil {
 		return b, err
 	}
-- 
2.43.0


From 409b6e2492fa3cb5d407ab9661fce090c6348026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 21/27] fix: groups and arrays keep entries of every type

---
 ast/array.go              | 2 ++
 ast/boolean.go            | 4 ++++
 ast/bytes.go              | 4 ++++
 ast/control_bits.go       | 2 ++
 ast/control_comparator.go | 2 ++
 ast/control_regexp.go     | 2 ++
 ast/control_size.go       | 2 ++
 ast/float.go              | 4 ++++
 ast/groupchoice.go        | 2 ++
 ast/integer.go            | 6 ++++++
 ast/map.go                | 2 ++
 ast/null.go               | 2 ++
 ast/tag.go                | 2 ++
 ast/text.go               | 4 ++++
 ast/typechoice.go         | 2 ++
 ast/uint.go               | 2 ++
 ast/uint_literal.go       | 2 ++
 ast/unwrap.go             | 2 ++
 18 files changed, 48 insertions(+)

diff --git a/ast/array.go b/ast/array.go
index 17d0cf6..e99a5f0 100644
--- a/ast/array.go
+++ b/ast/array.go
@@ -19,3 +19,5 @@ func (a *Array) End() token.Position {
 	}
 	return a.Rules[len(a.Rules)-1].End()
 }
+
+func (a *Array) groupEntry() {}
diff --git a/ast/boolean.go b/ast/boolean.go
index 49b9f2d..328c50b 100644
--- a/ast/boolean.go
+++ b/ast/boolean.go
@@ -16,6 +16,8 @@ func (b *BooleanType) End() token.Position {
 	return b.Pos.To(4)
 }
 
+func (b *BooleanType) groupEntry() {}
+
 type BooleanLiteral struct {
 	Range token.PositionRange
 	Bool  bool
@@ -28,3 +30,5 @@ func (bl *BooleanLiteral) Start() token.Position {
 func (bl *BooleanLiteral) End() token.Position {
 	return bl.Range.End
 }
+
+func (bl *BooleanLiteral) groupEntry() {}
diff --git a/ast/bytes.go b/ast/bytes.go
index 38ac0cc..3ea2104 100644
--- a/ast/bytes.go
+++ b/ast/bytes.go
@@ -22,6 +22,8 @@ func (b *BytesType) End() token.Position {
 	return b.Pos.To(5) // length of `bytes`
 }
 
+func (b *BytesType) groupEntry() {}
+
 func (b *BstrType) Start() token.Position {
 	return b.Pos
 }
@@ -29,3 +31,5 @@ func (b *BstrType) Start() token.Position {
 func (b *BstrType) End() token.Position {
 	return b.Pos.To(5) // length of `bytes`
 }
+
+func (b *BstrType) groupEntry() {}
diff --git a/ast/control_bits.go b/ast/control_bits.go
index 9b87e3f..1828331 100644
--- a/ast/control_bits.go
+++ b/ast/control_bits.go
@@ -24,3 +24,5 @@ func (r *Bits) Start() token.Position {
 func (r *Bits) End() token.Position {
 	return r.Contstraint.End()
 }
+
+func (r *Bits) groupEntry() {}
diff --git a/ast/control_comparator.go b/ast/control_comparator.go
index c81cf53..440f333 100644
--- a/ast/control_comparator.go
+++ b/ast/control_comparator.go
@@ -20,3 +20,5 @@ func (cc *ComparatorOpControl) Start() token.Position {
 func (cc *ComparatorOpControl) End() token.Position {
 	return cc.Right.End()
 }
+
+func (cc *ComparatorOpControl) groupEntry() {}
diff --git a/ast/control_regexp.go b/ast/control_regexp.go
index ef76ec7..83fb25f 100644
--- a/ast/control_regexp.go
+++ b/ast/control_regexp.go
@@ -17,3 +17,5 @@ func (r *Regexp) Start() token.Position {
 func (r *Regexp) End() token.Position {
 	return r.Regex.End()
 }
+
+func (r *Regexp) groupEntry() {}
diff --git a/ast/control_size.go b/ast/control_size.go
index e42d770..59c5739 100644
--- a/ast/control_size.go
+++ b/ast/control_size.go
@@ -26,3 +26,5 @@ func (sc *SizeOperatorControl) Start() token.Position {
 func (sc *SizeOperatorControl) End() token.Position {
 	return sc.Size.End()
 }
+
+func (sc *SizeOperatorControl) groupEntry() {}
diff --git a/ast/float.go b/ast/float.go
index db4952c..6fd1c1b 100644
--- a/ast/float.go
+++ b/ast/float.go
@@ -19,6 +19,8 @@ func (ft *FloatType) End() token.Position {
 	return ft.Pos.To(5) // TODO: support bases float64, 32, 16
 }
 
+func (ft *FloatType) groupEntry() {}
+
 // FloatLiteral represesnts the AST Node for float type token i.e. 3.412
 type FloatLiteral struct {
 	Range   token.PositionRange
@@ -33,3 +35,5 @@ func (fl *FloatLiteral) Start() token.Position {
 func (fl *FloatLiteral) End() token.Position {
 	return fl.Range.End
 }
+
+func (fl *FloatLiteral) groupEntry() {}
diff --git a/ast/groupchoice.go b/ast/groupchoice.go
index 9948fc5..52e6d74 100644
--- a/ast/groupchoice.go
+++ b/ast/groupchoice.go
@@ -15,3 +15,5 @@ func (gc *GroupChoice) Start() token.Position {
 func (gc *GroupChoice) End() token.Position {
 	return gc.Second.End()
 }
+
+func (gc *GroupChoice) groupEntry() {}
diff --git a/ast/integer.go b/ast/integer.go
index 3c1ac8b..b1d1e3a 100644
--- a/ast/integer.go
+++ b/ast/integer.go
@@ -20,6 +20,8 @@ func (it *IntegerType) End() token.Position {
 	return it.Pos.To(3) // length of `int`
 }
 
+func (it *IntegerType) groupEntry() {}
+
 type NegativeIntegerType struct {
 	Pos   token.Position
 	Token token.Token
@@ -33,6 +35,8 @@ func (nt *NegativeIntegerType) End() token.Position {
 	return nt.Pos.To(4) // length of `nint`
 }
 
+func (nt *NegativeIntegerType) groupEntry() {}
+
 // IntegerLiteral represents the AST Node for an integer literal i.e 3
 type IntegerLiteral struct {
 	Pos     token.Position
@@ -47,3 +51,5 @@ func (il *IntegerLiteral) Start() token.Position {
 func (il *IntegerLiteral) End() token.Position {
 	return il.Pos.To(len(fmt.Sprintf("%d", il.Literal)))
 }
+
+func (il *IntegerLiteral) groupEntry() {}
diff --git a/ast/map.go b/ast/map.go
index 8461b02..e88f2fe 100644
--- a/ast/map.go
+++ b/ast/map.go
@@ -18,3 +18,5 @@ func (m *Map) End() token.Position {
 	}
 	return m.Rules[len(m.Rules)-1].End()
 }
+
+func (m *Map) groupEntry() {}
diff --git a/ast/null.go b/ast/null.go
index 6768003..684d67d 100644
--- a/ast/null.go
+++ b/ast/null.go
@@ -15,3 +15,5 @@ func (nt *NullType) Start() token.Position {
 func (nt *NullType) End() token.Position {
 	return nt.Pos.To(4) // lenth of `null`
 }
+
+func (nt *NullType) groupEntry() {}
diff --git a/ast/tag.go b/ast/tag.go
index 703e65f..b1ed2c9 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -24,3 +24,5 @@ func (t *Tag) End() token.Position {
 	}
 	return t.Pos.To(1) // length of `#`
 }
+
+func (t *Tag) groupEntry() {}
diff --git a/ast/text.go b/ast/text.go
index c182d6a..c4f176e 100644
--- a/ast/text.go
+++ b/ast/text.go
@@ -17,6 +17,8 @@ func (tl *TextLiteral) End() token.Position {
 	return tl.Pos.To(len(tl.Literal))
 }
 
+func (tl *TextLiteral) groupEntry() {}
+
 // TstrType represents the AST Node for the `tstr` type definition token
 type TstrType struct {
 	Pos   token.Position
@@ -30,3 +32,5 @@ func (tt *TstrType) Start() token.Position {
 func (tt *TstrType) End() token.Position {
 	return tt.Pos.To(4)
 }
+
+func (tt *TstrType) groupEntry() {}
diff --git a/ast/typechoice.go b/ast/typechoice.go
index 061e9ee..1c1a3c7 100644
--- a/ast/typechoice.go
+++ b/ast/typechoice.go
@@ -16,3 +16,5 @@ func (tc *TypeChoice) Start() token.Position {
 func (tc *TypeChoice) End() token.Position {
 	return tc.Second.End()
 }
+
+func (tc *TypeChoice) groupEntry() {}
diff --git a/ast/uint.go b/ast/uint.go
index cce3793..34ecbe0 100644
--- a/ast/uint.go
+++ b/ast/uint.go
@@ -15,3 +15,5 @@ func (ut *UintType) Start() token.Position {
 func (ut *UintType) End() token.Position {
 	return ut.Range.End
 }
+
+func (ut *UintType) groupEntry() {}
diff --git a/ast/uint_literal.go b/ast/uint_literal.go
index 01995e5..4345071 100644
--- a/ast/uint_literal.go
+++ b/ast/uint_literal.go
@@ -20,3 +20,5 @@ func (ul *UintLiteral) Start() token.Position {
 func (ul *UintLiteral) End() token.Position {
 	return ul.Pos.To(len(fmt.Sprintf("%d", ul.Literal)))
 }
+
+func (ul *UintLiteral) groupEntry() {}
diff --git a/ast/unwrap.go b/ast/unwrap.go
index f9270df..36f61b0 100644
--- a/ast/unwrap.go
+++ b/ast/unwrap.go
@@ -15,3 +15,5 @@ func (u *Unwrap) Start() token.Position {
 func (u *Unwrap) End() token.Position {
 	return u.Item.End()
 }
+
+func (u *Unwrap) groupEntry() {}
-- 
2.43.0


From 52371b0d489715085ce62c2625055d57c5ddfe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 22/27] fix: quote generated text literals

---
 transforms/codegen/golang/gen_literals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index 1cd01b4..f2f1267 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -11,7 +11,7 @@ import (
 func (g *Generator) transpileTextLiteral(tl *ast.TextLiteral) *gast.BasicLit {
 	return &gast.BasicLit{
 		Kind:  token.STRING,
-		Value: tl.Literal,
+		Value: strconv.Quote(tl.Literal),
 	}
 }
 
-- 
2.43.0


From 8402c981e0959107898e9a77516a55e394fdc95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 23/27] fix: the receiver of Valid is self, which is always a
 Go identifier

---
 transforms/codegen/golang/gen_grouped.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 7357b25..b623736 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -6,7 +6,6 @@ import (
 	gast "go/ast"
 	"go/token"
 	"log"
-	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -74,7 +73,8 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 }
 
 func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule) *gast.FuncDecl {
-	selfIdent := gast.NewIdent(strings.ToLower(rule.Name.Name))
+	// validators are called on "self", and a rule name need not be a Go identifier
+	selfIdent := gast.NewIdent("self")
 
 	funcDecl := &gast.FuncDecl{
 		Doc: &gast.CommentGroup{
-- 
2.43.0


From d509e6dee23b9d1ed846e0256c75d91f3c317e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 24/27] fix: name the fields of group entries without a key

---
 transforms/codegen/golang/gen_grouped.go     | 26 +++++++++++++++++---
 transforms/codegen/golang/gen_identifiers.go |  5 ++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index b623736..71e9b5e 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -131,7 +131,7 @@ func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule)
 
 func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, error) {
 	fl := &gast.FieldList{}
-	for _, entry := range entries {
+	for i, entry := range entries {
 		var field *gast.Field
 		switch val := entry.(type) {
 		case *ast.Entry:
@@ -150,15 +150,35 @@ func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, er
 				cast.Tag = &gast.BasicLit{Kind: token.STRING, Value: "`cbor:\",omitempty\"`"}
 				field = cast
 			} else {
-				return nil, err
+				return nil, fmt.Errorf("unsupported optional entry %T", val.Item)
 			}
 		case *ast.Identifier:
 			field = &gast.Field{
 				Type: g.transpileIdentifier(val),
 			}
 		case *ast.NMOccurrence:
+			if entry, ok := val.Item.(*ast.Entry); ok {
+				stct, err := g.transpileEntry(entry)
+				if err != nil {
+					return nil, err
+				}
+				field = stct.node.(*gast.Field)
+				field.Type = &gast.ArrayType{Elt: field.Type}
+				break
+			}
+			field = &gast.Field{
+				Names: []*gast.Ident{g.itemIdentifier(i)},
+				Type:  g.transpileNMOccurence(val),
+			}
+		case *ast.BooleanType, *ast.TstrType, *ast.BytesType, *ast.IntegerType, *ast.UintType,
+			*ast.SizeOperatorControl, *ast.Group, *ast.Array:
+			stct, err := g.transpileNode(val)
+			if err != nil {
+				return nil, err
+			}
 			field = &gast.Field{
-				Type: g.transpileNMOccurence(val),
+				Names: []*gast.Ident{g.itemIdentifier(i)},
+				Type:  stct.node.(gast.Expr),
 			}
 		default:
 			panic(fmt.Sprintf("What was that? %T: `%+v`", val, val))
diff --git a/transforms/codegen/golang/gen_identifiers.go b/transforms/codegen/golang/gen_identifiers.go
index 71eed8d..b8ec1ee 100644
--- a/transforms/codegen/golang/gen_identifiers.go
+++ b/transforms/codegen/golang/gen_identifiers.go
@@ -36,6 +36,11 @@ func (g *Generator) transpileIdentifier(ident *ast.Identifier) *gast.Ident {
 	}
 }
 
+// itemIdentifier names the field of a group entry that has no key
+func (g *Generator) itemIdentifier(index int) *gast.Ident {
+	return gast.NewIdent(fmt.Sprintf("Item%d", index))
+}
+
 func init() {
 	converters := make(map[string]stringConverter)
 
-- 
2.43.0


From bb744c9a2497315949d65f66ad89256396496c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 25/27] fix: import each package once

---
 transforms/codegen/golang/gen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 0693237..234ed2a 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -103,6 +103,11 @@ func (g *Generator) addImport(value string, name string) {
 		},
 	}
 
+	for _, imported := range g.imports {
+		if imported.Path.Value == im.Path.Value {
+			return
+		}
+	}
 	g.imports = append(g.imports, im)
 }
 
-- 
2.43.0


From 9a144fedc9c9784b02df0c5dde23b85989479b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 26/27] fix: generate reports a failure to write its output

---
 cmd/cddlc/commands/generate.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 90c0eb9..9831ebb 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -142,8 +142,7 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 	if err != nil {
 		return err
 	}
-	gen.String(out)
-	return nil
+	return gen.String(out)
 }
 
 func addBuildHeader(f io.Writer) error {
-- 
2.43.0


From d1ab86ee02ee1f01e86c618bb33e5eeaf5717df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 27/27] fix: do not lose the imports of the generated file

---
 transforms/codegen/golang/gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 234ed2a..a857a15 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -68,8 +68,8 @@ type Generator struct {
 
 // String flushes the generated tree to an output
 func (g *Generator) String(output io.Writer) (err error) {
+	// SortImports would reset file.Imports to the import declarations, of which there are none yet
 	g.file.Imports = append(g.file.Imports, g.imports...)
-	gast.SortImports(g.fset, g.file)
 
 	if len(g.file.Imports) > 0 {
 		importDecl := &gast.GenDecl{Specs: []gast.Spec{}, Tok: token.IMPORT}
-- 
2.43.0

