From c94b122694f737ebf27588c576bd80d741bb2266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 01/35] fix: treat a NUL byte as template text and keep the
 end-of-input position stable

---
 lexer/lexer.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 942a59f..389b590 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -101,7 +101,7 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
-	if l.char == 0 {
+	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
@@ -450,7 +450,7 @@ func (l *Lexer) readString() string {
 
 	pos := l.pos
 
-	for l.char != 0 {
+	for !l.isEOF() {
 		prevChar := l.char
 
 		l.readChar()
@@ -504,7 +504,7 @@ func (l *Lexer) readHTML() string {
 	var out bytes.Buffer
 	l.tokenBegins()
 
-	for l.isHTML && l.char != 0 {
+	for l.isHTML && !l.isEOF() {
 		isDirective, escapedDir := l.isDirectiveToken()
 		areBraces, escapedBraces := l.areBracesToken()
 
@@ -531,7 +531,18 @@ func (l *Lexer) prevChar() byte {
 	return 0
 }
 
+// isEOF determines if the whole input was read. A NUL byte can be a part
+// of the input, that's why l.char cannot be used to find the end of it.
+func (l *Lexer) isEOF() bool {
+	return l.pos >= len(l.input)
+}
+
 func (l *Lexer) readChar() {
+	// never move past the end of the input
+	if l.readPos > len(l.input) {
+		return
+	}
+
 	l.prevLine = l.line
 
 	if l.readPos >= len(l.input) {
@@ -574,7 +585,7 @@ func (l *Lexer) skipWhitespace() {
 }
 
 func (l *Lexer) skipComment() {
-	for l.char != 0 {
+	for !l.isEOF() {
 		if l.char != '-' || l.peekChar() != '-' {
 			l.readChar()
 			continue
-- 
2.43.0


From 0eef05c1550df7b5b3f177b20001f8aa307b9404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 02/35] fix: emit '}}' at the start of a text run instead of
 dropping it

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 389b590..93b38da 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -117,7 +117,7 @@ func (l *Lexer) NextToken() token.Token {
 		return tok
 	}
 
-	if l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
+	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
 		return l.bracesToken(token.RBRACES, "}}")
 	}
 
-- 
2.43.0


From 741802bc71093e4faa5fb86f5b50efaa460dbb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 03/35] fix: emit escaped braces literally when another brace
 follows them

---
 lexer/lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 93b38da..95fdd1c 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -516,6 +516,13 @@ func (l *Lexer) readHTML() string {
 			out.Truncate(out.Len() - 1)
 		}
 
+		// write both escaped braces at once, so the second one
+		// cannot open a statement with the brace that follows it
+		if escapedBraces {
+			out.WriteByte(l.char)
+			l.readChar()
+		}
+
 		out.WriteByte(l.char)
 		l.readChar()
 	}
-- 
2.43.0


From fb27f6909ed8878de3bd4c236ef97b4e61c88acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 04/35] fix: make an illegal token cover the illegal character
 and advance past it

---
 lexer/lexer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 95fdd1c..258ac7f 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -3,6 +3,7 @@ package lexer
 import (
 	"bytes"
 	"strings"
+	"unicode/utf8"
 
 	token "github.com/textwire/textwire/v2/token"
 )
@@ -143,8 +144,17 @@ func (l *Lexer) bracesToken(tok token.TokenType, literal string) token.Token {
 }
 
 func (l *Lexer) illegalToken() token.Token {
+	pos := l.pos
+	_, size := utf8.DecodeRuneInString(l.input[pos:])
+
 	l.tokenBegins()
-	return l.newToken(token.ILLEGAL, string(l.char))
+
+	// skip the whole character
+	for l.pos < pos+size {
+		l.readChar()
+	}
+
+	return l.newToken(token.ILLEGAL, l.input[pos:l.pos])
 }
 
 func (l *Lexer) directiveToken() token.Token {
-- 
2.43.0


From c41b4fc768015b91a15a10f2159756a230b4d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 05/35] fix: report an unterminated string as an illegal token

---
 lexer/lexer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 258ac7f..0c3b524 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -196,6 +196,10 @@ func (l *Lexer) embeddedCodeToken() token.Token {
 	case ')':
 		return l.rightParenthesesToken()
 	case '"', '\'':
+		if !l.isStringClosed() {
+			return l.illegalToken()
+		}
+
 		return l.newToken(token.STR, l.readString())
 	case '<':
 		if l.peekChar() == '=' {
@@ -446,6 +450,18 @@ func (l *Lexer) isPotentiallyLong(tok token.TokenType) bool {
 		(tok == token.CONTINUE && l.char == 'I' && l.peekChar() == 'f')
 }
 
+// isStringClosed determines if the string literal that starts on the
+// current quote has a closing quote
+func (l *Lexer) isStringClosed() bool {
+	for i := l.readPos; i < len(l.input); i++ {
+		if l.input[i] == l.char && (i == l.readPos || l.input[i-1] != '\\') {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (l *Lexer) readString() string {
 	quote := l.char
 	result := ""
-- 
2.43.0


From 976d66fe53eb2ca9b71df5bd40509f60e21c5108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 06/35] fix: end a comment exactly at '--}}' and report an
 unclosed comment

---
 lexer/lexer.go | 71 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0c3b524..00516a2 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -102,20 +102,27 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
+	for l.isComment() {
+		length, isClosed := l.commentLen()
+
+		if !isClosed {
+			return l.unclosedCommentToken(length)
+		}
+
+		l.skipChars(length)
+
+		if !l.isHTML {
+			l.skipWhitespace()
+		}
+	}
+
 	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
 
 	if l.char == '{' && l.peekChar() == '{' {
-		tok := l.bracesToken(token.LBRACES, "{{")
-
-		if l.char == '-' && l.peekChar() == '-' {
-			l.skipComment()
-			return l.NextToken()
-		}
-
-		return tok
+		return l.bracesToken(token.LBRACES, "{{")
 	}
 
 	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
@@ -617,23 +624,41 @@ func (l *Lexer) skipWhitespace() {
 	}
 }
 
-func (l *Lexer) skipComment() {
-	for !l.isEOF() {
-		if l.char != '-' || l.peekChar() != '-' {
-			l.readChar()
-			continue
-		}
-
-		l.readChar() // skip "-"
-		l.readChar() // skip "-"
+// isComment determines if a comment starts on the current character
+func (l *Lexer) isComment() bool {
+	return strings.HasPrefix(l.input[l.pos:], "{{--")
+}
 
-		if l.char == '}' || l.peekChar() == '}' {
-			break
-		}
+// commentLen returns the length of the comment that starts on the
+// current character including its braces. The comment is not closed
+// when the second value is false.
+func (l *Lexer) commentLen() (int, bool) {
+	end := strings.Index(l.input[l.pos+2:], "--}}")
+	if end == -1 {
+		return len(l.input) - l.pos, false
 	}
 
-	l.isHTML = true
+	return end + len("{{--}}"), true
+}
 
-	l.readChar() // skip "}"
-	l.readChar() // skip "}"
+// unclosedCommentToken skips the unclosed comment of the given length and
+// returns an illegal token for the beginning of the comment
+func (l *Lexer) unclosedCommentToken(length int) token.Token {
+	opening := "{{--"
+
+	l.tokenBegins()
+	l.skipChars(len(opening))
+
+	tok := l.newToken(token.ILLEGAL, opening)
+
+	l.skipChars(length - len(opening))
+
+	return tok
+}
+
+// skipChars skips the given number of characters
+func (l *Lexer) skipChars(count int) {
+	for ; count > 0; count-- {
+		l.readChar()
+	}
 }
-- 
2.43.0


From 7d75661dca8b781da495e7b0dd84c42983aa57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 07/35] fix: name the @each and @dump tokens in error messages

---
 token/utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token/utils.go b/token/utils.go
index cb1b181..eb82ba6 100644
--- a/token/utils.go
+++ b/token/utils.go
@@ -53,6 +53,7 @@ var tokens = [...]string{
 	RESERVE:     "@reserve",
 	INSERT:      "@insert",
 	FOR:         "@for",
+	EACH:        "@each",
 	BREAK:       "@break",
 	CONTINUE:    "@continue",
 	BREAK_IF:    "@breakIf",
@@ -63,6 +64,7 @@ var tokens = [...]string{
 	END:         "@end",
 	COMPONENT:   "@component",
 	SLOT:        "@slot",
+	DUMP:        "@dump",
 }
 
 func String(t TokenType) string {
-- 
2.43.0


From f4f7d1ba1ef8958c3f686d0acdfeeb91972b99be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 08/35] fix: parse the right operand with the precedence of its
 operator and assignments as whole expressions

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 61eb7f7..850209a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -395,7 +395,7 @@ func (p *Parser) parseAssignStmt() ast.Statement {
 		return nil
 	}
 
-	stmt.Value = p.parseExpression(SUM)
+	stmt.Value = p.parseExpression(LOWEST)
 
 	return stmt
 }
@@ -762,6 +762,8 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		Left:     left,
 	}
 
+	precedence := precedences[p.curToken.Type]
+
 	p.nextToken() // skip operator
 
 	if p.curTokenIs(token.RBRACES) {
@@ -769,7 +771,7 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		return nil
 	}
 
-	exp.Right = p.parseExpression(SUM)
+	exp.Right = p.parseExpression(precedence)
 
 	return exp
 }
-- 
2.43.0


From eccebc71a637217193367c6cbf863b4d08ef269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 09/35] fix: report an illegal token wherever the parser meets
 it

---
 parser/parser.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 850209a..659046d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -126,15 +126,6 @@ func (p *Parser) ParseProgram() *ast.Program {
 	for !p.curTokenIs(token.EOF) {
 		stmt := p.parseStatement()
 
-		if p.curTokenIs(token.ILLEGAL) {
-			p.newError(
-				p.curToken.ErrorLine(),
-				fail.ErrIllegalToken,
-				p.curToken.Literal,
-			)
-			return nil
-		}
-
 		if stmt == nil {
 			p.nextToken()
 			continue
@@ -262,7 +253,24 @@ func (p *Parser) newError(line uint, msg string, args ...any) {
 
 func (p *Parser) nextToken() {
 	p.curToken = p.peekToken
+
+	// nothing can follow the end of the input
+	if p.peekTokenIs(token.EOF) {
+		return
+	}
+
 	p.peekToken = p.l.NextToken()
+
+	if p.peekTokenIs(token.ILLEGAL) {
+		p.newError(
+			p.peekToken.ErrorLine(),
+			fail.ErrIllegalToken,
+			p.peekToken.Literal,
+		)
+
+		// stop parsing as if we found the end of the input
+		p.peekToken = token.Token{Type: token.EOF, Pos: p.peekToken.Pos}
+	}
 }
 
 func (p *Parser) parseIdentifier() ast.Expression {
-- 
2.43.0


From af53d2b1d24f9d04af74ec63f66b891f4662a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 10/35] fix: parse empty blocks and stop at the end of input in
 unterminated blocks

---
 parser/parser.go | 56 ++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 659046d..1347e5e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -574,6 +574,8 @@ func (p *Parser) parseDumpStmt() *ast.DumpStmt {
 	}
 }
 
+// parseSlots parses slots that are passed to a component up to
+// the "@end" token of the component
 func (p *Parser) parseSlots() []*ast.SlotStmt {
 	var slots []*ast.SlotStmt
 
@@ -592,8 +594,6 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			if !p.expectPeek(token.RPAREN) { // move to ")"
 				return nil
 			}
-
-			p.nextToken() // skip ")"
 		}
 
 		slots = append(slots, &ast.SlotStmt{
@@ -602,14 +602,23 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			Body:  p.parseBlockStmt(),
 		})
 
-		p.nextToken() // skip block statement
-		p.nextToken() // skip "@end"
+		if !p.expectPeek(token.END) { // move to "@end" of the slot
+			return nil
+		}
 
-		for p.curTokenIs(token.HTML) {
+		for p.peekTokenIs(token.HTML) {
 			p.nextToken() // skip whitespace
 		}
+
+		if !p.peekTokenIs(token.SLOT) {
+			break
+		}
+
+		p.nextToken() // move to the next "@slot"
 	}
 
+	p.expectPeek(token.END) // move to "@end" of the component
+
 	return slots
 }
 
@@ -673,8 +682,11 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 	}
 
 	if hasBody {
-		p.nextToken() // skip ")"
 		stmt.Block = p.parseBlockStmt()
+
+		if !p.expectPeek(token.END) { // move to "@end"
+			return nil
+		}
 	}
 
 	p.inserts[stmt.Name.Value] = stmt
@@ -820,8 +832,6 @@ func (p *Parser) parseIfStmt() *ast.IfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Consequence = p.parseBlockStmt()
 
 	for p.peekTokenIs(token.ELSE_IF) {
@@ -854,7 +864,10 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip "@elseif"
+	if !p.expectPeek(token.LPAREN) { // move to "("
+		return nil
+	}
+
 	p.nextToken() // skip "("
 
 	condition := p.parseExpression(LOWEST)
@@ -863,8 +876,6 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	return &ast.ElseIfStmt{
 		Token:       p.curToken,
 		Condition:   condition,
@@ -874,7 +885,6 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 
 func (p *Parser) parseAlternativeBlock() *ast.BlockStmt {
 	p.nextToken() // move to "@else"
-	p.nextToken() // skip "@else"
 
 	alt := p.parseBlockStmt()
 
@@ -921,12 +931,10 @@ func (p *Parser) parseForStmt() *ast.ForStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
-		p.nextToken() // skip "@else"
+		p.nextToken() // move to "@else"
 		stmt.Alternative = p.parseBlockStmt()
 	}
 
@@ -963,12 +971,10 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
-		p.nextToken() // skip "@else"
+		p.nextToken() // move to "@else"
 		stmt.Alternative = p.parseBlockStmt()
 	}
 
@@ -979,21 +985,19 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 	return stmt
 }
 
+// parseBlockStmt parses statements until the next token closes the block.
+// The current token must be the last token before the block.
 func (p *Parser) parseBlockStmt() *ast.BlockStmt {
-	stmt := &ast.BlockStmt{Token: p.curToken}
+	stmt := &ast.BlockStmt{Token: p.peekToken}
+
+	for !p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END, token.EOF) {
+		p.nextToken() // move to the statement
 
-	for !p.curTokenIs(token.END) {
 		block := p.parseStatement()
 
 		if block != nil {
 			stmt.Statements = append(stmt.Statements, block)
 		}
-
-		if p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END) {
-			break
-		}
-
-		p.nextToken() // skip statement
 	}
 
 	return stmt
-- 
2.43.0


From 73f1540bfb46cdf91e140d627c06bad8e91179c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:36 +0000
Subject: [PATCH 11/35] fix: reject an unterminated object literal instead of
 looping forever

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1347e5e..4d171c3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -368,10 +368,11 @@ func (p *Parser) parseObjectLiteral() ast.Expression {
 			break
 		}
 
-		if p.peekTokenIs(token.COMMA) {
-			p.nextToken() // move to ","
-			p.nextToken() // skip ","
+		if !p.expectPeek(token.COMMA) { // move to ","
+			return nil
 		}
+
+		p.nextToken() // skip ","
 	}
 
 	return obj
-- 
2.43.0


From a2e1b79b4cb82868785451751d592e0f49d50331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:57 +0000
Subject: [PATCH 12/35] fix: reject code and directive arguments that are not
 closed or have stray tokens

---
 parser/parser.go | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4d171c3..85ef800 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -148,10 +148,8 @@ func (p *Parser) parseStatement() ast.Statement {
 	switch p.curToken.Type {
 	case token.HTML:
 		return p.parseHTMLStmt()
-	case token.LBRACES:
-		return p.parseEmbeddedCode()
-	case token.SEMI:
-		return p.parseEmbeddedCode()
+	case token.LBRACES, token.SEMI:
+		return p.parseEmbeddedStmt()
 	case token.IF:
 		return p.parseIfStmt()
 	case token.FOR:
@@ -183,6 +181,22 @@ func (p *Parser) parseStatement() ast.Statement {
 	}
 }
 
+// parseEmbeddedStmt parses one statement between braces that must be
+// followed by the closing braces or by the next statement
+func (p *Parser) parseEmbeddedStmt() ast.Statement {
+	stmt := p.parseEmbeddedCode()
+
+	if p.curTokenIs(token.RBRACES) || p.peekTokenIs(token.SEMI) {
+		return stmt
+	}
+
+	if !p.expectPeek(token.RBRACES) { // move to "}}"
+		return nil
+	}
+
+	return stmt
+}
+
 func (p *Parser) parseEmbeddedCode() ast.Statement {
 	p.nextToken() // skip "{{" or ";" or "("
 
@@ -425,6 +439,10 @@ func (p *Parser) parseUseStmt() ast.Statement {
 		Value: p.parseAliasPathShortcut("layouts"),
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.useStmt = stmt
 
 	return stmt
@@ -443,6 +461,10 @@ func (p *Parser) parseBreakIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -459,6 +481,10 @@ func (p *Parser) parseContinueIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -639,6 +665,10 @@ func (p *Parser) parseReserveStmt() ast.Statement {
 		Value: p.curToken.Literal,
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.reserves[stmt.Name.Value] = stmt
 
 	return stmt
@@ -672,6 +702,10 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		p.nextToken() // skip ","
 		stmt.Argument = p.parseExpression(LOWEST)
 
+		if !p.expectPeek(token.RPAREN) { // move to ")"
+			return nil
+		}
+
 		p.inserts[stmt.Name.Value] = stmt
 		hasBody = false
 
-- 
2.43.0


From 95eeabf38d6ba40b7be9aae959baf34587391ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 13/35] fix: keep the whitespace that follows a component
 without slots

---
 parser/parser.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 85ef800..2256dbc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -522,16 +522,13 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 		return nil
 	}
 
-	if p.peekTokenIs(token.SLOT) {
-		p.nextToken() // skip ")"
-		stmt.Slots = p.parseSlots()
-	} else if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) {
-		p.nextToken() // skip ")"
-
-		if p.peekTokenIs(token.SLOT) {
+	if p.isSlotAfterWhitespace() {
+		for p.peekTokenIs(token.HTML) {
 			p.nextToken() // skip whitespace
-			stmt.Slots = p.parseSlots()
 		}
+
+		p.nextToken() // move to "@slot"
+		stmt.Slots = p.parseSlots()
 	}
 
 	p.components = append(p.components, stmt)
@@ -539,6 +536,19 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 	return stmt
 }
 
+// isSlotAfterWhitespace looks ahead to determine if the next token, that is
+// not a whitespace, is "@slot". It doesn't consume any tokens.
+func (p *Parser) isSlotAfterWhitespace() bool {
+	tok := p.peekToken
+	lex := *p.l
+
+	for tok.Type == token.HTML && isWhitespace(tok.Literal) {
+		tok = lex.NextToken()
+	}
+
+	return tok.Type == token.SLOT
+}
+
 func (p *Parser) parseAliasPathShortcut(shortenTo string) string {
 	name := p.curToken.Literal
 
-- 
2.43.0


From 303b35db68c3b2b2e9ce1374f16605face200ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 14/35] fix: report too deep nesting instead of overflowing the
 stack

---
 evaluator/evaluator.go | 13 +++++++++++++
 fail/fail.go           |  1 +
 parser/parser.go       | 41 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 55 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b4fcc06..ecbf80c 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -19,8 +19,14 @@ var (
 	CONTINUE = &object.Continue{}
 )
 
+// maxDepth limits the recursion of the evaluator
+const maxDepth = 100000
+
 type Evaluator struct {
 	ctx *ctx.EvalCtx
+
+	// depth is the current recursion depth
+	depth int
 }
 
 func New(ctx *ctx.EvalCtx) *Evaluator {
@@ -28,6 +34,13 @@ func New(ctx *ctx.EvalCtx) *Evaluator {
 }
 
 func (e *Evaluator) Eval(node ast.Node, env *object.Env) object.Object {
+	e.depth++
+	defer func() { e.depth-- }()
+
+	if e.depth > maxDepth {
+		return e.newError(node, fail.ErrNestingTooDeep)
+	}
+
 	switch node := node.(type) {
 	// Statements
 	case *ast.Program:
diff --git a/fail/fail.go b/fail/fail.go
index dd7897b..2c7ad74 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -26,6 +26,7 @@ const (
 	ErrExpectedComponentName     = "expected component name, got empty string instead"
 	ErrUndefinedComponent        = "component '%s' is not defined. Check if component exists"
 	ErrUndefinedInsert           = "insert with the name '%s' is not defined in layout. Check if you have a matching reserve statement with the same name"
+	ErrNestingTooDeep            = "statements and expressions are nested too deep"
 	ErrDuplicateInserts          = "duplicate insert statements with the name '%s' found"
 
 	// Evaluator (interpreter) errors
diff --git a/parser/parser.go b/parser/parser.go
index 2256dbc..d06448b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,6 +30,10 @@ const (
 	POSTFIX       // X++ or X--
 )
 
+// maxNesting limits how deep statements and expressions can be nested
+// because the parser and the evaluator are recursive
+const maxNesting = 10000
+
 var precedences = map[token.TokenType]int{
 	token.QUESTION: TERNARY,
 	token.EQ:       EQ,
@@ -54,6 +58,7 @@ type Parser struct {
 	l        *lexer.Lexer
 	errors   []*fail.Error
 	filepath string
+	nesting  int
 
 	curToken  token.Token
 	peekToken token.Token
@@ -145,6 +150,12 @@ func (p *Parser) ParseProgram() *ast.Program {
 }
 
 func (p *Parser) parseStatement() ast.Statement {
+	defer p.leaveNesting()
+
+	if !p.enterNesting() {
+		return nil
+	}
+
 	switch p.curToken.Type {
 	case token.HTML:
 		return p.parseHTMLStmt()
@@ -287,6 +298,30 @@ func (p *Parser) nextToken() {
 	}
 }
 
+// enterNesting must be called before parsing a construct that can contain
+// itself. When it returns false, the construct must not be parsed.
+func (p *Parser) enterNesting() bool {
+	p.nesting++
+
+	if p.nesting <= maxNesting {
+		return true
+	}
+
+	if !p.curTokenIs(token.EOF) {
+		p.newError(p.curToken.ErrorLine(), fail.ErrNestingTooDeep)
+
+		// stop parsing as if we found the end of the input
+		p.curToken = token.Token{Type: token.EOF, Pos: p.curToken.Pos}
+		p.peekToken = p.curToken
+	}
+
+	return false
+}
+
+func (p *Parser) leaveNesting() {
+	p.nesting--
+}
+
 func (p *Parser) parseIdentifier() ast.Expression {
 	return &ast.Identifier{
 		Token: p.curToken,
@@ -1061,6 +1096,12 @@ func (p *Parser) parseExpressionStmt() ast.Statement {
 }
 
 func (p *Parser) parseExpression(precedence int) ast.Expression {
+	defer p.leaveNesting()
+
+	if !p.enterNesting() {
+		return nil
+	}
+
 	prefix := p.prefixParseFns[p.curToken.Type]
 
 	if prefix == nil {
-- 
2.43.0


From 179f803f51005a153989639bb2222ac81d407a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:55 +0000
Subject: [PATCH 15/35] fix: report modulo by zero as an error instead of
 panicking

---
 evaluator/evaluator.go | 4 ++++
 fail/fail.go           | 1 +
 2 files changed, 5 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index ecbf80c..b0ed822 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -857,6 +857,10 @@ func (e *Evaluator) evalIntegerInfixExp(
 
 		return &object.Int{Value: leftVal / rightVal}
 	case "%":
+		if rightVal == 0 {
+			return e.newError(leftNode, fail.ErrModuloByZero)
+		}
+
 		return &object.Int{Value: leftVal % rightVal}
 	case "==":
 		return nativeBoolToBooleanObject(leftVal == rightVal)
diff --git a/fail/fail.go b/fail/fail.go
index 2c7ad74..fe3a8ea 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -44,6 +44,7 @@ const (
 	ErrDotOperatorNotSupported = "the dot operator is not supported for type '%s'"
 	ErrPropertyNotFound        = "property '%s' not found in type '%s'"
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
+	ErrModuloByZero            = "modulo by zero error. The right-hand side of the modulo operator must not be zero"
 
 	// Functions
 	ErrNoFuncForThisType  = "function '%s' doesn't exist for type '%s'"
-- 
2.43.0


From fe5426a1cb8e042e83baf65050cbb076cbc4bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:57 +0000
Subject: [PATCH 16/35] fix: apply '!' to every boolean and nil, not only to
 literals

---
 evaluator/evaluator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b0ed822..0066d11 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -959,12 +959,10 @@ func (e *Evaluator) evalBangOperatorExp(
 	right object.Object,
 	node ast.Node,
 ) object.Object {
-	switch right {
-	case FALSE:
-		return TRUE
-	case TRUE:
-		return FALSE
-	case NIL:
+	switch right := right.(type) {
+	case *object.Bool:
+		return nativeBoolToBooleanObject(!right.Value)
+	case *object.Nil:
 		return TRUE
 	}
 
-- 
2.43.0


From 762fe30e2f2d9214cd64d604d84f62fff8563a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 17/35] fix: report property access on non-objects, empty
 property names and iteration over non-arrays as errors

---
 evaluator/evaluator.go | 20 ++++++++++++++++----
 fail/fail.go           |  1 +
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 0066d11..c9b8eb9 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"html"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/ctx"
@@ -380,7 +381,12 @@ func (e *Evaluator) evalEachStmt(node *ast.EachStmt, env *object.Env) object.Obj
 		return arrObj
 	}
 
-	elems := arrObj.(*object.Array).Elements
+	arr, ok := arrObj.(*object.Array)
+	if !ok {
+		return e.newError(node, fail.ErrCannotIterate, arrObj.Type())
+	}
+
+	elems := arr.Elements
 	elemsLen := len(elems)
 
 	// evaluate alternative block if array is empty
@@ -549,8 +555,9 @@ func (e *Evaluator) evalObjectIndexExp(
 		return pair
 	}
 
-	// make first letter lowercase on idx
-	idxUpper := strings.ToUpper(idx[:1]) + idx[1:]
+	// find the property by the name with the uppercase first letter
+	_, size := utf8.DecodeRuneInString(idx)
+	idxUpper := strings.ToUpper(idx[:size]) + idx[size:]
 
 	if pair, ok = objObj.Pairs[idxUpper]; !ok {
 		return e.newError(node, fail.ErrPropertyNotFound, idx, object.OBJ_OBJ)
@@ -568,7 +575,12 @@ func (e *Evaluator) evalDotExp(node *ast.DotExp, env *object.Env) object.Object
 
 	key := node.Key.(*ast.Identifier)
 
-	return e.evalObjectIndexExp(left.(*object.Obj), key.Value, node)
+	obj, ok := left.(*object.Obj)
+	if !ok {
+		return e.newError(node, fail.ErrDotOperatorNotSupported, left.Type())
+	}
+
+	return e.evalObjectIndexExp(obj, key.Value, node)
 }
 
 func (e *Evaluator) evalString(node *ast.StringLiteral, _ *object.Env) object.Object {
diff --git a/fail/fail.go b/fail/fail.go
index fe3a8ea..229b699 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -45,6 +45,7 @@ const (
 	ErrPropertyNotFound        = "property '%s' not found in type '%s'"
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 	ErrModuloByZero            = "modulo by zero error. The right-hand side of the modulo operator must not be zero"
+	ErrCannotIterate           = "cannot iterate over type '%s', expected an array"
 
 	// Functions
 	ErrNoFuncForThisType  = "function '%s' doesn't exist for type '%s'"
-- 
2.43.0


From 3b9783e4941f741c9b7e3cef5f9ee632116ff97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 18/35] fix: evaluate for loops with absent clauses, any post
 statement and @break before the post statement

---
 evaluator/evaluator.go | 101 ++++++++++++++++++++++++++---------------
 fail/fail.go           |   1 +
 2 files changed, 65 insertions(+), 37 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index c9b8eb9..6c35fe8 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -296,42 +296,33 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 }
 
 func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Object {
+	if node.Condition == nil {
+		return e.newError(node, fail.ErrForMustHaveCondition)
+	}
+
 	newEnv := object.NewEnclosedEnv(env)
 
-	var init object.Object
 	var blocks bytes.Buffer
 
 	if node.Init != nil {
-		if init = e.Eval(node.Init, newEnv); isError(init) {
+		if init := e.Eval(node.Init, newEnv); isError(init) {
 			return init
 		}
 	}
 
-	// evaluate alternative block if user's condition is false
-	if node.Condition != nil {
-		cond := e.Eval(node.Condition, newEnv)
+	cond := e.Eval(node.Condition, newEnv)
 
-		if isError(cond) {
-			return cond
-		}
+	if isError(cond) {
+		return cond
+	}
 
-		if !isTruthy(cond) && node.Alternative != nil {
-			return e.Eval(node.Alternative, newEnv)
-		}
+	// evaluate alternative block if user's condition is false
+	if !isTruthy(cond) && node.Alternative != nil {
+		return e.Eval(node.Alternative, newEnv)
 	}
 
 	// loop through the block until the user's condition is false
-	for {
-		cond := e.Eval(node.Condition, newEnv)
-
-		if isError(cond) {
-			return cond
-		}
-
-		if !isTruthy(cond) {
-			break
-		}
-
+	for isTruthy(cond) {
 		block := e.Eval(node.Block, newEnv)
 
 		if isError(block) {
@@ -340,33 +331,69 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 		blocks.WriteString(block.String())
 
-		post := e.Eval(node.Post, newEnv)
+		if hasBreakStmt(block) {
+			break
+		}
 
-		if isError(post) {
+		if post := e.evalForPost(node, newEnv); isError(post) {
 			return post
 		}
 
-		if node.Init == nil || node.Post == nil {
-			continue
+		cond = e.Eval(node.Condition, newEnv)
+
+		if isError(cond) {
+			return cond
 		}
+	}
+
+	return &object.HTML{Value: blocks.String()}
+}
 
-		varName := node.Init.(*ast.AssignStmt).Name.Value
+// evalForPost evaluates the post statement of the for loop and
+// assigns its value to the variable that it updates
+func (e *Evaluator) evalForPost(node *ast.ForStmt, env *object.Env) object.Object {
+	if node.Post == nil {
+		return NIL
+	}
 
-		err := newEnv.Set(varName, post)
-		if err != nil {
-			return e.newError(node, "%s", err.Error())
-		}
+	post := e.Eval(node.Post, env)
 
-		if hasBreakStmt(block) {
-			break
-		}
+	if isError(post) {
+		return post
+	}
 
-		if hasContinueStmt(block) {
-			continue
+	varName, ok := forPostVarName(node)
+	if !ok {
+		return NIL
+	}
+
+	err := env.Set(varName, post)
+	if err != nil {
+		return e.newError(node, "%s", err.Error())
+	}
+
+	return NIL
+}
+
+// forPostVarName returns the name of the variable that must be
+// updated with the value of the post statement
+func forPostVarName(node *ast.ForStmt) (string, bool) {
+	stmt, isExp := node.Post.(*ast.ExpressionStmt)
+	if !isExp {
+		return "", false
+	}
+
+	if postfix, ok := stmt.Expression.(*ast.PostfixExp); ok {
+		if ident, ok := postfix.Left.(*ast.Identifier); ok {
+			return ident.Value, true
 		}
 	}
 
-	return &object.HTML{Value: blocks.String()}
+	if init, ok := node.Init.(*ast.AssignStmt); ok {
+		return init.Name.Value, true
+	}
+
+	return "", false
 }
 
 func (e *Evaluator) evalEachStmt(node *ast.EachStmt, env *object.Env) object.Object {
diff --git a/fail/fail.go b/fail/fail.go
index 229b699..a13a0ce 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -46,6 +46,7 @@ const (
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 	ErrModuloByZero            = "modulo by zero error. The right-hand side of the modulo operator must not be zero"
 	ErrCannotIterate           = "cannot iterate over type '%s', expected an array"
+	ErrForMustHaveCondition    = "for loop must have a condition"
 
 	// Functions
 	ErrNoFuncForThisType  = "function '%s' doesn't exist for type '%s'"
-- 
2.43.0


From fa7cc10b47cc7fea73a675460a88e7bea9f2b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 19/35] fix: print and dump objects in a stable key order

---
 object/obj.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/object/obj.go b/object/obj.go
index ee2dad8..4edb198 100644
--- a/object/obj.go
+++ b/object/obj.go
@@ -3,6 +3,7 @@ package object
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -22,8 +23,8 @@ func (o *Obj) String() string {
 	idx := 0
 	last := len(o.Pairs) - 1
 
-	for key, pair := range o.Pairs {
-		out.WriteString(key + ": " + pair.String())
+	for _, key := range o.sortedKeys() {
+		out.WriteString(key + ": " + o.Pairs[key].String())
 
 		if idx != last {
 			out.WriteString(", ")
@@ -48,11 +49,11 @@ func (o *Obj) Dump(ident int) string {
 
 	insideSpaces := strings.Repeat("  ", ident)
 
-	for key, pair := range o.Pairs {
+	for _, key := range o.sortedKeys() {
 		out.WriteString(insideSpaces)
 		out.WriteString(`<span class="textwire-prop">"` + key + `"</span>`)
 		out.WriteString(": ")
-		out.WriteString(pair.Dump(ident))
+		out.WriteString(o.Pairs[key].Dump(ident))
 		out.WriteString(",\n")
 	}
 
@@ -74,3 +75,16 @@ func (o *Obj) Val() any {
 func (o *Obj) Is(t ObjectType) bool {
 	return t == o.Type()
 }
+
+// sortedKeys returns keys of the object in a stable order
+func (o *Obj) sortedKeys() []string {
+	keys := make([]string, 0, len(o.Pairs))
+
+	for key := range o.Pairs {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
-- 
2.43.0


From db8eaf36a4d6a62557877867e9f60f31e8aca963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 20/35] fix: report component arguments that cannot be bound
 and evaluate object entries in a stable order

---
 evaluator/evaluator.go | 13 ++++++++-----
 evaluator/utils.go     | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 6c35fe8..fb50fe9 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -273,14 +273,17 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 	newEnv := object.NewEnclosedEnv(env)
 
 	if node.Argument != nil {
-		for key, arg := range node.Argument.Pairs {
-			val := e.Eval(arg, env)
+		for _, key := range sortedKeys(node.Argument.Pairs) {
+			val := e.Eval(node.Argument.Pairs[key], env)
 
 			if isError(val) {
 				return val
 			}
 
-			newEnv.Set(key, val)
+			err := newEnv.Set(key, val)
+			if err != nil {
+				return e.newError(node, "%s", err.Error())
+			}
 		}
 	}
 
@@ -671,8 +674,8 @@ func (e *Evaluator) evalArrayLiteral(
 func (e *Evaluator) evalObjectLiteral(node *ast.ObjectLiteral, env *object.Env) object.Object {
 	pairs := make(map[string]object.Object)
 
-	for key, value := range node.Pairs {
-		valueObj := e.Eval(value, env)
+	for _, key := range sortedKeys(node.Pairs) {
+		valueObj := e.Eval(node.Pairs[key], env)
 
 		if isError(valueObj) {
 			return valueObj
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 4893614..492b9c5 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -3,8 +3,10 @@ package evaluator
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
+	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/config"
 	"github.com/textwire/textwire/v2/fail"
 	"github.com/textwire/textwire/v2/object"
@@ -67,6 +69,19 @@ func hasControlStmt(obj object.Object, controlType object.ObjectType) bool {
 	return false
 }
 
+// sortedKeys returns keys of the given pairs in a stable order
+func sortedKeys(pairs map[string]ast.Expression) []string {
+	keys := make([]string, 0, len(pairs))
+
+	for key := range pairs {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
+
 // hasCustomFunc checks if the object has a custom function
 func hasCustomFunc(customFunc *config.Func, t object.ObjectType, funcName string) bool {
 	if customFunc == nil {
-- 
2.43.0


From ebde17252f682acfb9331eb96396bab6376f8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:22 +0000
Subject: [PATCH 21/35] fix: decrement floats that are negative or less than
 one

---
 object/float.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/object/float.go b/object/float.go
index 00ae395..e132d1e 100644
--- a/object/float.go
+++ b/object/float.go
@@ -2,6 +2,7 @@ package object
 
 import (
 	"fmt"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -42,27 +43,15 @@ func (f *Float) SubtractFromFloat(num uint) error {
 		return nil
 	}
 
-	nums := strings.Split(strValue, ".")
-
-	// Parse the integer part
-	intPart, err := strconv.ParseUint(nums[0], 10, 64)
-	if err != nil {
-		return err
+	// Subtract from the exact decimal value
+	decimal, ok := new(big.Rat).SetString(strValue)
+	if !ok {
+		return fmt.Errorf("cannot subtract from '%s'", strValue)
 	}
 
-	// Subtract the uint value from the integer part
-	intPart -= uint64(num)
-
-	// Combine the modified integer part and the decimal part
-	resultStr := fmt.Sprintf("%d.%s", intPart, nums[1])
-
-	// Parse the result back to float64
-	result, err := strconv.ParseFloat(resultStr, 64)
-	if err != nil {
-		return err
-	}
+	decimal.Sub(decimal, new(big.Rat).SetUint64(uint64(num)))
 
-	f.Value = result
+	f.Value, _ = decimal.Float64()
 
 	return nil
 }
-- 
2.43.0


From 8a9512f7e53df4889f859b1c575822434514df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 22/35] fix: make string and array built-ins work on characters
 and check their counts and bounds

---
 evaluator/array_func.go |  4 ++++
 evaluator/str_func.go   | 27 +++++++++++++++++++++------
 evaluator/utils.go      |  5 +++++
 fail/fail.go            |  2 ++
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index e913f39..7a3fb19 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -126,6 +126,10 @@ func arraySliceFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Objec
 		end = elemsLen
 	}
 
+	if end < start {
+		end = start
+	}
+
 	return &object.Array{Elements: elems[start:end]}, nil
 }
 
diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 7f5b215..c9eea20 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"html"
 	"strings"
+	"unicode"
 	"unicode/utf8"
 
 	"github.com/textwire/textwire/v2/ctx"
@@ -14,6 +15,9 @@ import (
 
 const defaultCharTrim = "\t \n\r"
 
+// maxRepeatLen is the maximum length in bytes of repeated strings
+const maxRepeatLen = 64 << 20
+
 // strLenFunc returns the length of the given string
 func strLenFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (object.Object, error) {
 	val := receiver.(*object.Str).Value
@@ -94,7 +98,8 @@ func strCapitalizeFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Objec
 		return &object.Str{Value: ""}, nil
 	}
 
-	newVal := strings.ToUpper(val[:1]) + val[1:]
+	first, size := utf8.DecodeRuneInString(val)
+	newVal := string(unicode.ToUpper(first)) + val[size:]
 
 	return &object.Str{Value: newVal}, nil
 }
@@ -150,11 +155,16 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 
 	val := receiver.(*object.Str).Value
 	limit := int(firstArg.Value)
+	chars := []rune(val)
 
-	if limit >= utf8.RuneCountInString(val) {
+	if limit >= len(chars) {
 		return &object.Str{Value: val}, nil
 	}
 
+	if limit < 0 {
+		limit = 0
+	}
+
 	ellipsis := "..."
 
 	if len(args) > 1 {
@@ -168,7 +178,7 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 		}
 	}
 
-	newVal := val[:firstArg.Value] + ellipsis
+	newVal := string(chars[:limit]) + ellipsis
 
 	return &object.Str{Value: newVal}, nil
 }
@@ -204,7 +214,7 @@ func strAtFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object) (o
 		index = len(chars) + index
 	}
 
-	if index >= len(chars) {
+	if index < 0 || index >= len(chars) {
 		return &object.Nil{}, nil
 	}
 
@@ -276,7 +286,12 @@ func strRepeatFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object
 	}
 
 	val := receiver.(*object.Str).Value
-	repeated := strings.Repeat(val, int(firstArg.Value))
+	count := firstArg.Value
+
+	if count < 0 || (len(val) > 0 && count > int64(maxRepeatLen/len(val))) {
+		msg := fmt.Sprintf(fail.ErrFuncCountOutOfRange, "repeat", object.STR_OBJ, count)
+		return nil, errors.New(msg)
+	}
 
-	return &object.Str{Value: repeated}, nil
+	return &object.Str{Value: strings.Repeat(val, int(count))}, nil
 }
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 492b9c5..5e96c07 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -147,6 +147,11 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 		decimals = int(decimalArg.Value)
 	}
 
+	if decimals < 0 || decimals > maxRepeatLen {
+		msg := fmt.Sprintf(fail.ErrFuncCountOutOfRange, "decimal", objType, decimals)
+		return nil, errors.New(msg)
+	}
+
 	zeros := strings.Repeat("0", decimals)
 
 	if decimals == 0 {
diff --git a/fail/fail.go b/fail/fail.go
index a13a0ce..e921188 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -57,6 +57,8 @@ const (
 	ErrFuncSecondArgStr   = "second argument for function '%s' on type '%s' must be a STRING"
 	ErrFuncMaxArgs        = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
 
+	ErrFuncCountOutOfRange = "function '%s' on type '%s' cannot use the count '%d', it's out of range"
+
 	// Template errors
 	ErrUnsupportedType   = "unsupported type '%T'"
 	ErrTemplateNotFound  = "template not found"
-- 
2.43.0


From 0cdff70474e44804e5b47e4b16ae18d3d21ed96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 23/35] fix: return the absolute value of the negative zero

---
 evaluator/float_func.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/evaluator/float_func.go b/evaluator/float_func.go
index 6374d7c..9bc6d6b 100644
--- a/evaluator/float_func.go
+++ b/evaluator/float_func.go
@@ -24,11 +24,7 @@ func floatStrFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (o
 func floatAbsFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (object.Object, error) {
 	val := receiver.(*object.Float).Value
 
-	if val < 0 {
-		return &object.Float{Value: -val}, nil
-	}
-
-	return receiver, nil
+	return &object.Float{Value: math.Abs(val)}, nil
 }
 
 // floatCeilFunc returns the rounded up value of a float to the nearest integer
-- 
2.43.0


From 2b84f85ce0c85b794ca463926318a840fb764ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 24/35] fix: compare array elements by structure in contains()

---
 evaluator/array_func.go | 14 +------------
 evaluator/utils.go      | 46 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index 7a3fb19..77320b9 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
-	"reflect"
 	"time"
 
 	"github.com/textwire/textwire/v2/ctx"
@@ -174,18 +173,7 @@ func arrayContainsFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Ob
 	target := args[0]
 
 	for _, el := range elems {
-		isObj := el.Type() == object.OBJ_OBJ && target.Type() == object.OBJ_OBJ
-		isArr := el.Type() == object.ARR_OBJ && target.Type() == object.ARR_OBJ
-
-		if isObj || isArr {
-			if reflect.DeepEqual(el, target) {
-				return &object.Bool{Value: true}, nil
-			}
-
-			continue
-		}
-
-		if el.Val() == target.Val() {
+		if isEqual(el, target) {
 			return &object.Bool{Value: true}, nil
 		}
 	}
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 5e96c07..53edfcb 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -69,6 +69,52 @@ func hasControlStmt(obj object.Object, controlType object.ObjectType) bool {
 	return false
 }
 
+// isEqual determines if two objects have the same type and content
+func isEqual(left, right object.Object) bool {
+	if left.Type() != right.Type() {
+		return false
+	}
+
+	switch left := left.(type) {
+	case *object.Array:
+		return isEqualArrays(left, right.(*object.Array))
+	case *object.Obj:
+		return isEqualObjs(left, right.(*object.Obj))
+	}
+
+	return left.Val() == right.Val()
+}
+
+func isEqualArrays(left, right *object.Array) bool {
+	if len(left.Elements) != len(right.Elements) {
+		return false
+	}
+
+	for i, elem := range left.Elements {
+		if !isEqual(elem, right.Elements[i]) {
+			return false
+		}
+	}
+
+	return true
+}
+
+func isEqualObjs(left, right *object.Obj) bool {
+	if len(left.Pairs) != len(right.Pairs) {
+		return false
+	}
+
+	for key, pair := range left.Pairs {
+		rightPair, ok := right.Pairs[key]
+
+		if !ok || !isEqual(pair, rightPair) {
+			return false
+		}
+	}
+
+	return true
+}
+
 // sortedKeys returns keys of the given pairs in a stable order
 func sortedKeys(pairs map[string]ast.Expression) []string {
 	keys := make([]string, 0, len(pairs))
-- 
2.43.0


From 0ab2ecc96087c58af02cf73a33385334f6e1111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:16 +0000
Subject: [PATCH 25/35] fix: convert nil pointers, named and nested native
 values and reject unsupported ones at any depth

---
 object/utils.go | 129 ++++++++++++++++++++++--------------------------
 1 file changed, 59 insertions(+), 70 deletions(-)

diff --git a/object/utils.go b/object/utils.go
index 0dccc70..25e8e84 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -4,110 +4,99 @@ import (
 	"reflect"
 )
 
+// maxNativeDepth limits how deep native values can be nested,
+// it prevents infinite recursion on values that contain themselves
+const maxNativeDepth = 10000
+
+// NativeToObject converts a native Go value to an object.
+// It returns nil when the type of the value, or the type
+// of any value nested in it, is not supported.
 func NativeToObject(val any) Object {
-	switch v := val.(type) {
-	case string:
-		return &Str{Value: v}
-	case bool:
-		return &Bool{Value: v}
-	case float32:
-		return &Float{Value: float64(v)}
-	case float64:
-		return &Float{Value: v}
-	case int64:
-		return &Int{Value: v}
-	case int:
-		return &Int{Value: int64(v)}
-	case int8:
-		return &Int{Value: int64(v)}
-	case int16:
-		return &Int{Value: int64(v)}
-	case int32:
-		return &Int{Value: int64(v)}
-	case uint:
-		return &Int{Value: int64(v)}
-	case uint8:
-		return &Int{Value: int64(v)}
-	case uint16:
-		return &Int{Value: int64(v)}
-	case uint32:
-		return &Int{Value: int64(v)}
-	case uint64:
-		return &Int{Value: int64(v)}
-	case nil:
-		return &Nil{}
-	}
+	return nativeToObject(reflect.ValueOf(val), 0)
+}
 
-	valType := reflect.TypeOf(val)
+func nativeToObject(val reflect.Value, depth int) Object {
+	if depth > maxNativeDepth {
+		return nil
+	}
 
-	switch valType.Kind() {
+	switch val.Kind() {
+	case reflect.Invalid:
+		return &Nil{}
+	case reflect.String:
+		return &Str{Value: val.String()}
+	case reflect.Bool:
+		return &Bool{Value: val.Bool()}
+	case reflect.Float32, reflect.Float64:
+		return &Float{Value: val.Float()}
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return &Int{Value: val.Int()}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return &Int{Value: int64(val.Uint())}
 	case reflect.Struct:
-		return nativeStructToObject(val)
+		return nativeStructToObject(val, depth)
 	case reflect.Slice:
-		return nativeSliceToArrayObject(convertToInterfaceSlice(val))
+		return nativeSliceToArrayObject(val, depth)
 	case reflect.Map:
-		return nativeMapToObject(val)
-	case reflect.Pointer:
-		// NativeToObject is used recursively to handle pointers
-		return NativeToObject(reflect.ValueOf(val).Elem().Interface())
+		return nativeMapToObject(val, depth)
+	case reflect.Pointer, reflect.Interface:
+		// the value of a nil pointer is invalid and becomes Nil
+		return nativeToObject(val.Elem(), depth+1)
 	}
 
 	return nil
 }
 
-func nativeMapToObject(val any) Object {
-	obj := &Obj{Pairs: make(map[string]Object)}
-
-	valValue := reflect.ValueOf(val)
-
-	for _, key := range valValue.MapKeys() {
-		obj.Pairs[key.String()] = NativeToObject(valValue.MapIndex(key).Interface())
+func nativeMapToObject(val reflect.Value, depth int) Object {
+	if val.Type().Key().Kind() != reflect.String {
+		return nil
 	}
 
-	return obj
-}
-
-func convertToInterfaceSlice(slice any) []any {
-	s := reflect.ValueOf(slice)
-
-	if s.Kind() != reflect.Slice {
-		panic("InterfaceSlice() given a non-slice type")
-	}
+	obj := &Obj{Pairs: make(map[string]Object)}
 
-	ret := make([]any, s.Len())
+	for _, key := range val.MapKeys() {
+		pair := nativeToObject(val.MapIndex(key), depth+1)
+		if pair == nil {
+			return nil
+		}
 
-	for i := 0; i < s.Len(); i++ {
-		ret[i] = s.Index(i).Interface()
+		obj.Pairs[key.String()] = pair
 	}
 
-	return ret
+	return obj
 }
 
-func nativeStructToObject(val any) Object {
+func nativeStructToObject(val reflect.Value, depth int) Object {
 	obj := &Obj{Pairs: make(map[string]Object)}
 
-	valType := reflect.TypeOf(val)
-
-	for i := 0; i < valType.NumField(); i++ {
-		field := valType.Field(i)
+	for i := 0; i < val.NumField(); i++ {
+		field := val.Type().Field(i)
 
 		if !field.IsExported() {
 			continue
 		}
 
-		fieldVal := reflect.ValueOf(val).Field(i).Interface()
+		pair := nativeToObject(val.Field(i), depth+1)
+		if pair == nil {
+			return nil
+		}
 
-		obj.Pairs[field.Name] = NativeToObject(fieldVal)
+		obj.Pairs[field.Name] = pair
 	}
 
 	return obj
 }
 
-func nativeSliceToArrayObject(slice []any) *Array {
+func nativeSliceToArrayObject(val reflect.Value, depth int) Object {
 	arr := &Array{}
 
-	for _, val := range slice {
-		arr.Elements = append(arr.Elements, NativeToObject(val))
+	for i := 0; i < val.Len(); i++ {
+		elem := nativeToObject(val.Index(i), depth+1)
+		if elem == nil {
+			return nil
+		}
+
+		arr.Elements = append(arr.Elements, elem)
 	}
 
 	return arr
-- 
2.43.0


From 7cbe6efda1104bbe255a845f0e66728acfe25822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 26/35] fix: report the same data error every time

---
 object/env.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/object/env.go b/object/env.go
index ab23e83..f32cdf1 100644
--- a/object/env.go
+++ b/object/env.go
@@ -3,6 +3,7 @@ package object
 import (
 	"errors"
 	"fmt"
+	"sort"
 
 	fail "github.com/textwire/textwire/v2/fail"
 )
@@ -26,7 +27,17 @@ func NewEnclosedEnv(outer *Env) *Env {
 func EnvFromMap(data map[string]any) (*Env, *fail.Error) {
 	env := NewEnv()
 
-	for key, val := range data {
+	keys := make([]string, 0, len(data))
+
+	for key := range data {
+		keys = append(keys, key)
+	}
+
+	// report the same error every time when several values are wrong
+	sort.Strings(keys)
+
+	for _, key := range keys {
+		val := data[key]
 		obj := NativeToObject(val)
 
 		if obj == nil {
-- 
2.43.0


From 5f11fa283b3c9063777d86887fe7482e3558416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 27/35] fix: report unsupported values returned by custom
 functions as errors

---
 evaluator/evaluator.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index fb50fe9..a2ea3a4 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -779,29 +779,33 @@ func (e *Evaluator) evalCallExp(
 	if hasCustomFunc(e.ctx.CustomFunc, receiverType, funcName) {
 		nativeArgs := e.objectsToNativeType(args)
 
+		var res any
+
 		switch receiverType {
 		case object.STR_OBJ:
 			fun := e.ctx.CustomFunc.Str[funcName]
-			res := fun(receiverObj.String(), nativeArgs...)
-			return object.NativeToObject(res)
+			res = fun(receiverObj.String(), nativeArgs...)
 		case object.ARR_OBJ:
 			fun := e.ctx.CustomFunc.Arr[funcName]
 			nativeElems := e.objectsToNativeType(receiverObj.(*object.Array).Elements)
-			res := fun(nativeElems, nativeArgs...)
-			return object.NativeToObject(res)
+			res = fun(nativeElems, nativeArgs...)
 		case object.INT_OBJ:
 			fun := e.ctx.CustomFunc.Int[funcName]
-			res := fun(int(receiverObj.(*object.Int).Value), nativeArgs...)
-			return object.NativeToObject(res)
+			res = fun(int(receiverObj.(*object.Int).Value), nativeArgs...)
 		case object.FLOAT_OBJ:
 			fun := e.ctx.CustomFunc.Float[funcName]
-			res := fun(receiverObj.(*object.Float).Value, nativeArgs...)
-			return object.NativeToObject(res)
+			res = fun(receiverObj.(*object.Float).Value, nativeArgs...)
 		case object.BOOL_OBJ:
 			fun := e.ctx.CustomFunc.Bool[funcName]
-			res := fun(receiverObj.(*object.Bool).Value, nativeArgs...)
-			return object.NativeToObject(res)
+			res = fun(receiverObj.(*object.Bool).Value, nativeArgs...)
+		}
+
+		obj := object.NativeToObject(res)
+		if obj == nil {
+			return e.newError(node, fail.ErrUnsupportedType, res)
 		}
+
+		return obj
 	}
 
 	return e.newError(node, fail.ErrNoFuncForThisType, node.Function.Value, receiverObj.Type())
-- 
2.43.0


From abf95d310dd5d839d35974e10bb2dbf8a7983545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 28/35] fix: don't use the text of a native error as a format

---
 fail/fail.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fail/fail.go b/fail/fail.go
index e921188..9f757da 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -155,5 +155,12 @@ func FromError(err error, line uint, absPath, origin string, args ...any) *Error
 		return nil
 	}
 
-	return New(line, absPath, origin, err.Error(), args...)
+	msg := err.Error()
+
+	// the message of the error is not a format unless it has arguments
+	if len(args) > 0 {
+		msg = fmt.Sprintf(msg, args...)
+	}
+
+	return New(line, absPath, origin, "%s", msg)
 }
-- 
2.43.0


From 6bd35c9729c0e4d8da542bd416d329e59ce504ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 29/35] fix: don't share a mutable mode flag between template
 and string evaluation

---
 files.go    | 7 +++----
 textwire.go | 9 ---------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/files.go b/files.go
index 379ee3f..936986e 100644
--- a/files.go
+++ b/files.go
@@ -8,11 +8,10 @@ import (
 )
 
 func getFullPath(filename string, appendExt bool) (string, error) {
-	if usesTemplates {
-		filename = joinPaths(userConfig.TemplateDir, filename)
-	}
-
+	// only names of templates have no extension,
+	// they are relative to the template directory
 	if appendExt {
+		filename = joinPaths(userConfig.TemplateDir, filename)
 		filename += userConfig.TemplateExt
 	}
 
diff --git a/textwire.go b/textwire.go
index d384894..8c1d828 100644
--- a/textwire.go
+++ b/textwire.go
@@ -13,9 +13,6 @@ import (
 var userConfig = config.New("templates", ".tw.html", "", false)
 var customFunc = config.NewFunc()
 
-// usesTemplates is a flag to check if user uses Textwire templates or not
-var usesTemplates = false
-
 func NewTemplate(opt *config.Config) (*Template, error) {
 	Configure(opt)
 
@@ -34,8 +31,6 @@ func NewTemplate(opt *config.Config) (*Template, error) {
 }
 
 func EvaluateString(inp string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	prog, errs := parseStr(inp)
 
 	if len(errs) != 0 {
@@ -60,8 +55,6 @@ func EvaluateString(inp string, data map[string]any) (string, error) {
 }
 
 func EvaluateFile(absPath string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	content, err := fileContent(absPath)
 	if err != nil {
 		return "", fail.FromError(err, 0, absPath, "template").Error()
@@ -126,8 +119,6 @@ func RegisterBoolFunc(name string, fn config.BoolCustomFunc) error {
 }
 
 func Configure(opt *config.Config) {
-	usesTemplates = true
-
 	if opt == nil {
 		return
 	}
-- 
2.43.0


From d9f0c910a1dc937448693ad9b7966f066647539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 30/35] fix: register templates by the exact extension under
 the path relative to the template directory

---
 files.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/files.go b/files.go
index 936986e..1f3ba0b 100644
--- a/files.go
+++ b/files.go
@@ -47,7 +47,7 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		if info.IsDir() || !strings.Contains(path, userConfig.TemplateExt) {
+		if info.IsDir() || !strings.HasSuffix(path, userConfig.TemplateExt) {
 			return nil
 		}
 
@@ -57,7 +57,12 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		result[nameFromPath(path)] = absPath
+		name, err := nameFromPath(path)
+		if err != nil {
+			return err
+		}
+
+		result[name] = absPath
 
 		return nil
 	})
@@ -69,8 +74,13 @@ func findTextwireFiles() (map[string]string, error) {
 	return result, nil
 }
 
-func nameFromPath(path string) string {
-	name := strings.Replace(path, userConfig.TemplateDir+"/", "", 1)
-	name = strings.Replace(name, userConfig.TemplateExt, "", 1)
-	return name
+// nameFromPath returns the path relative to the template
+// directory without the extension
+func nameFromPath(path string) (string, error) {
+	name, err := filepath.Rel(userConfig.TemplateDir, path)
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimSuffix(filepath.ToSlash(name), userConfig.TemplateExt), nil
 }
-- 
2.43.0


From 9a20c48a3970cc8ffe13990b27fd689fd2d8f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 31/35] fix: report the same loading error every time when
 several constructs are wrong

---
 ast/program.go    | 18 ++++++++++++------
 ast/utils.go      |  6 +++---
 parser_utils.go   | 13 ++++++++++++-
 token/position.go |  9 +++++++++
 4 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index 22e1ec8..b4e9a91 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -125,17 +125,23 @@ func (p *Program) HasUseStmt() bool {
 }
 
 func (p *Program) checkUndefinedInsert(inserts map[string]*InsertStmt) *fail.Error {
-	for name := range inserts {
+	var undefined *InsertStmt
+
+	for name, insert := range inserts {
 		if _, ok := p.Reserves[name]; ok {
 			continue
 		}
 
-		line := inserts[name].Line()
-		path := inserts[name].FilePath
-		name := inserts[name].Name.Value
+		// always report the undefined insert that comes first in the file
+		if undefined == nil || insert.Token.Pos.IsBefore(undefined.Token.Pos) {
+			undefined = insert
+		}
+	}
 
-		return fail.New(line, path, "parser", fail.ErrUndefinedInsert, name)
+	if undefined == nil {
+		return nil
 	}
 
-	return nil
+	return fail.New(undefined.Line(), undefined.FilePath, "parser",
+		fail.ErrUndefinedInsert, undefined.Name.Value)
 }
diff --git a/ast/utils.go b/ast/utils.go
index 528b829..8afb958 100644
--- a/ast/utils.go
+++ b/ast/utils.go
@@ -24,9 +24,9 @@ func findDuplicateSlot(slots []*SlotStmt) (string, int) {
 	}
 
 	// find the first slot name that has a count greater than 1
-	for name, times := range counts {
-		if times > 1 {
-			return name, times
+	for _, slot := range slots {
+		if times := counts[slot.Name.Value]; times > 1 {
+			return slot.Name.Value, times
 		}
 	}
 
diff --git a/parser_utils.go b/parser_utils.go
index 906b8f4..da59875 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -3,6 +3,7 @@ package textwire
 import (
 	"errors"
 	"os"
+	"sort"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/fail"
@@ -44,7 +45,17 @@ func parseProgram(absPath string) (*ast.Program, *fail.Error, error) {
 func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Error) {
 	var result = map[string]*ast.Program{}
 
-	for name, absPath := range paths {
+	names := make([]string, 0, len(paths))
+
+	for name := range paths {
+		names = append(names, name)
+	}
+
+	// report the same error every time when several files are wrong
+	sort.Strings(names)
+
+	for _, name := range names {
+		absPath := paths[name]
 		prog, failErr, parseErr := parseProgram(absPath)
 		if parseErr != nil {
 			return nil, fail.FromError(parseErr, 0, absPath, "template")
diff --git a/token/position.go b/token/position.go
index 101a3c0..5a01e3c 100644
--- a/token/position.go
+++ b/token/position.go
@@ -25,3 +25,12 @@ func (p Position) Contains(line uint, col uint) bool {
 
 	return true
 }
+
+// IsBefore returns true if the position starts before the other one.
+func (p Position) IsBefore(other Position) bool {
+	if p.StartLine != other.StartLine {
+		return p.StartLine < other.StartLine
+	}
+
+	return p.StartCol < other.StartCol
+}
-- 
2.43.0


From 1e4dfb10168564f417200a49309d0ba38b4114c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 32/35] fix: bind slot bodies to each use of a component and
 find slots at any depth

---
 ast/program.go   | 51 +++++++++++++++++++++++-------------------------
 ast/utils.go     | 22 +++++++++++++++++----
 parser/parser.go | 37 +++++++++++++++++------------------
 parser_utils.go  |  2 +-
 4 files changed, 61 insertions(+), 51 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index b4e9a91..004e982 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -13,6 +13,7 @@ type Program struct {
 	UseStmt    *UseStmt
 	Statements []Statement
 	Components []*ComponentStmt
+	Slots      []*SlotStmt // slot placeholders at any depth
 	Reserves   map[string]*ReserveStmt
 	Inserts    map[string]*InsertStmt
 	Pos        token.Position
@@ -76,43 +77,39 @@ func (p *Program) ApplyLayout(prog *Program) {
 	p.Statements = []Statement{p.UseStmt}
 }
 
-func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string) *fail.Error {
-	for _, comp := range p.Components {
-		if comp.Name.Value != name {
-			continue
-		}
+// ApplyComponent attaches the parsed component file to a single use of the
+// component. Each use must have its own program because the bodies of the
+// passed slots become a part of it.
+func (p *Program) ApplyComponent(comp *ComponentStmt, prog *Program, progFilePath string) *fail.Error {
+	name := comp.Name.Value
 
-		duplicateName, times := findDuplicateSlot(comp.Slots)
+	duplicate, times := findDuplicateSlot(comp.Slots)
 
-		if times > 0 {
-			if name == "" {
-				return fail.New(prog.Line(), progFilePath, "parser",
-					fail.ErrDuplicateDefaultSlotUsage, times, name)
-			}
-
-			return fail.New(prog.Line(), progFilePath, "parser",
-				fail.ErrDuplicateSlotUsage, duplicateName, times, name)
-		}
-
-		for _, slot := range comp.Slots {
-			idx := findSlotStmtIndex(prog.Statements, slot.Name.Value)
+	if times > 0 {
+		return fail.New(duplicate.Line(), progFilePath, "parser",
+			fail.ErrDuplicateSlotUsage, duplicate.Name.Value, times, name)
+	}
 
-			if idx == -1 {
-				if slot.Name.Value == "" {
-					return fail.New(prog.Line(), progFilePath, "parser",
-						fail.ErrDefaultSlotNotDefined, name)
-				}
+	for _, slot := range comp.Slots {
+		placeholders := findSlotStmts(prog.Slots, slot.Name.Value)
 
-				return fail.New(prog.Line(), progFilePath, "parser",
-					fail.ErrSlotNotDefined, slot.Name.Value, name)
+		if len(placeholders) == 0 {
+			if slot.Name.Value == "" {
+				return fail.New(slot.Line(), progFilePath, "parser",
+					fail.ErrDefaultSlotNotDefined, name)
 			}
 
-			prog.Statements[idx].(*SlotStmt).Body = slot.Body
+			return fail.New(slot.Line(), progFilePath, "parser",
+				fail.ErrSlotNotDefined, slot.Name.Value, name)
 		}
 
-		comp.Block = prog
+		for _, placeholder := range placeholders {
+			placeholder.Body = slot.Body
+		}
 	}
 
+	comp.Block = prog
+
 	return nil
 }
 
diff --git a/ast/utils.go b/ast/utils.go
index 8afb958..ac16234 100644
--- a/ast/utils.go
+++ b/ast/utils.go
@@ -16,19 +16,33 @@ func findSlotStmtIndex(stmts []Statement, slotName string) int {
 	return -1
 }
 
-func findDuplicateSlot(slots []*SlotStmt) (string, int) {
+// findSlotStmts returns all the slots with the given name
+func findSlotStmts(slots []*SlotStmt, slotName string) []*SlotStmt {
+	var result []*SlotStmt
+
+	for _, slot := range slots {
+		if slot.Name.Value == slotName {
+			result = append(result, slot)
+		}
+	}
+
+	return result
+}
+
+// findDuplicateSlot returns the first slot that's passed more than
+// once and the number of times it's passed
+func findDuplicateSlot(slots []*SlotStmt) (*SlotStmt, int) {
 	counts := make(map[string]int)
 
 	for _, slot := range slots {
 		counts[slot.Name.Value]++
 	}
 
-	// find the first slot name that has a count greater than 1
 	for _, slot := range slots {
 		if times := counts[slot.Name.Value]; times > 1 {
-			return slot.Name.Value, times
+			return slot, times
 		}
 	}
 
-	return "", 0
+	return nil, 0
 }
diff --git a/parser/parser.go b/parser/parser.go
index d06448b..664bf71 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -68,6 +68,7 @@ type Parser struct {
 
 	useStmt    *ast.UseStmt
 	components []*ast.ComponentStmt
+	slots      []*ast.SlotStmt
 	inserts    map[string]*ast.InsertStmt
 	reserves   map[string]*ast.ReserveStmt
 }
@@ -142,6 +143,7 @@ func (p *Parser) ParseProgram() *ast.Program {
 	}
 
 	prog.Components = p.components
+	prog.Slots = p.slots
 	prog.Inserts = p.inserts
 	prog.UseStmt = p.useStmt
 	prog.Reserves = p.reserves
@@ -602,31 +604,28 @@ func (p *Parser) parseAliasPathShortcut(shortenTo string) string {
 // parseSlotStmt parses a slot statement inside a component file.
 // Slots inside a component are parsed by other function
 func (p *Parser) parseSlotStmt() *ast.SlotStmt {
-	tok := p.curToken
-
-	if !p.peekTokenIs(token.LPAREN) {
-		return &ast.SlotStmt{
-			Token: tok, // "@slot"
-			Name:  &ast.StringLiteral{Value: ""},
-		}
+	stmt := &ast.SlotStmt{
+		Token: p.curToken, // "@slot"
+		Name:  &ast.StringLiteral{Value: ""},
 	}
 
-	p.nextToken() // skip "@slot"
-	p.nextToken() // skip "("
+	if p.peekTokenIs(token.LPAREN) {
+		p.nextToken() // skip "@slot"
+		p.nextToken() // skip "("
 
-	slotName := &ast.StringLiteral{
-		Token: p.curToken,
-		Value: p.curToken.Literal,
-	}
+		stmt.Name = &ast.StringLiteral{
+			Token: p.curToken,
+			Value: p.curToken.Literal,
+		}
 
-	if !p.expectPeek(token.RPAREN) { // move to ")"
-		return nil
+		if !p.expectPeek(token.RPAREN) { // move to ")"
+			return nil
+		}
 	}
 
-	return &ast.SlotStmt{
-		Token: tok, // "@slot"
-		Name:  slotName,
-	}
+	p.slots = append(p.slots, stmt)
+
+	return stmt
 }
 
 func (p *Parser) parseDumpStmt() *ast.DumpStmt {
diff --git a/parser_utils.go b/parser_utils.go
index da59875..5385868 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -137,7 +137,7 @@ func applyComponentToProgram(prog *ast.Program, progFilePath string) *fail.Error
 			return failErr
 		}
 
-		if err := prog.ApplyComponent(compName, compProg, progFilePath); err != nil {
+		if err := prog.ApplyComponent(comp, compProg, progFilePath); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 46d2667683f5ba42b8d5e22b49919fa1a9b9301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 33/35] fix: report layouts and components that cannot be read
 at the file that uses them

---
 parser_utils.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser_utils.go b/parser_utils.go
index 5385868..463ecbc 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -65,7 +65,7 @@ func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Erro
 			return nil, failErr
 		}
 
-		if err := applyLayoutToProgram(prog); err != nil {
+		if err := applyLayoutToProgram(prog, absPath); err != nil {
 			return nil, err
 		}
 
@@ -81,7 +81,7 @@ func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Erro
 	return result, nil
 }
 
-func applyLayoutToProgram(prog *ast.Program) *fail.Error {
+func applyLayoutToProgram(prog *ast.Program, progFilePath string) *fail.Error {
 	if !prog.HasUseStmt() {
 		return nil
 	}
@@ -90,12 +90,12 @@ func applyLayoutToProgram(prog *ast.Program) *fail.Error {
 	stmt := prog.UseStmt
 	layoutAbsPath, err := getFullPath(layoutName, true)
 	if err != nil {
-		return fail.FromError(err, stmt.Line(), layoutAbsPath, "template")
+		return fail.FromError(err, stmt.Line(), progFilePath, "template")
 	}
 
 	layoutProg, failErr, parseErr := parseProgram(layoutAbsPath)
 	if parseErr != nil {
-		return fail.FromError(parseErr, stmt.Line(), layoutAbsPath, "template")
+		return fail.FromError(parseErr, stmt.Line(), progFilePath, "template")
 	}
 
 	if failErr != nil {
@@ -119,7 +119,7 @@ func applyComponentToProgram(prog *ast.Program, progFilePath string) *fail.Error
 		compName := comp.Name.Value
 		compAbsPath, err := getFullPath(compName, true)
 		if err != nil {
-			return fail.FromError(err, 0, "", "template")
+			return fail.FromError(err, comp.Line(), progFilePath, "template")
 		}
 
 		compProg, failErr, parseErr := parseProgram(compAbsPath)
@@ -130,7 +130,7 @@ func applyComponentToProgram(prog *ast.Program, progFilePath string) *fail.Error
 					fail.ErrUndefinedComponent, comp.Name.Value)
 			}
 
-			return fail.FromError(parseErr, comp.Line(), compAbsPath, "template")
+			return fail.FromError(parseErr, comp.Line(), progFilePath, "template")
 		}
 
 		if failErr != nil {
-- 
2.43.0


From 435b71253a1f6aeb0e4dd1385691bf8de3552917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 34/35] fix: rand() returns a random element instead of always
 the first one

---
 evaluator/array_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index 77320b9..446663a 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -58,7 +58,7 @@ func arrayRandFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (
 		return &object.Nil{}, nil
 	}
 
-	return elems[0], nil
+	return elems[rand.Intn(length)], nil
 }
 
 // arrayReverseFunc reverses the elements of the given array
-- 
2.43.0


From b24368c107e68b41bd83fcf8ac7f826005ac313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 35/35] fix: find object keys with special characters by a
 string literal

---
 evaluator/evaluator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index a2ea3a4..1928290 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -552,7 +552,14 @@ func (e *Evaluator) evalIndexExp(
 	case left.Is(object.ARR_OBJ) && idx.Is(object.INT_OBJ):
 		return e.evalArrayIndexExp(left, idx)
 	case left.Is(object.OBJ_OBJ) && idx.Is(object.STR_OBJ):
-		return e.evalObjectIndexExp(left.(*object.Obj), idx.(*object.Str).Value, node.Index)
+		key := idx.(*object.Str).Value
+
+		// keys of objects are not HTML-escaped like string literals are
+		if str, ok := node.Index.(*ast.StringLiteral); ok {
+			key = str.Value
+		}
+
+		return e.evalObjectIndexExp(left.(*object.Obj), key, node.Index)
 	}
 
 	return e.newError(node, fail.ErrIndexNotSupported, left.Type())
-- 
2.43.0

