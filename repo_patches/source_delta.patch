From ac678ae8e816301680ae196f9e5213f657f78362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 01/84] fix: re-raise the recovered value instead of a nil
 error in Parse

---
 ecmascript/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index c43a3fe..ecf5288 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -50,7 +50,7 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 			case *errs.ParserError:
 				err = t
 			default:
-				panic(err)
+				panic(r)
 			}
 		}
 	}()
-- 
2.43.0


From e6041f5faf65a391de4b542ba6e6fb8766830ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 02/84] fix: report unsupported constructs as syntax errors
 instead of panicking

---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/module.go     | 3 ++-
 ecmascript/parser/statement.go  | 6 ++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 774039a..5ec7b62 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -235,7 +235,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenLiteralTemplate:
-		panic("unimplemented: template literal")
+		p.s.SyntaxError("template literals are not supported")
 	case lexer.TokenPunctuatorOpenParen:
 		// Tricky: this could be a parenthesized expression, or the parameter
 		// list of an arrow function. To avoid look-ahead, the parser will
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 5d3165f..14c4c23 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -123,5 +123,6 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 }
 
 func (p *Parser) parseExportDecl() ast.Node {
-	panic("unimplemented")
+	p.s.SyntaxError("`export` declarations are not supported")
+	return nil
 }
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e52d175..11b4c09 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -564,7 +564,8 @@ func (p *Parser) parseReturnStatement() ast.Node {
 }
 
 func (p *Parser) parseWithStatement() ast.Node {
-	panic("unimplemented")
+	p.s.SyntaxError("`with` statements are not supported")
+	return nil
 }
 
 func (p *Parser) parseThrowStatement() ast.Node {
@@ -624,7 +625,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 }
 
 func (p *Parser) parseDebuggerStatement() ast.Node {
-	panic("unimplemented")
+	p.s.SyntaxError("`debugger` statements are not supported")
+	return nil
 }
 
 func (p *Parser) parseLabelledStatement() ast.Node {
-- 
2.43.0


From 871c9aa63cd56fcfde7c98607263213b6d86f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 03/84] fix: do not print debug output to stdout while parsing

---
 ecmascript/parser/expression.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 5ec7b62..a950a2e 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -727,7 +727,6 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 					break
 				}
 				binding := ast.BindingProperty{}
-				fmt.Printf("prop: %#v\n", prop)
 				if key, ok := prop.Key.(ast.Identifier); ok {
 					binding.PropertyName = key.Name
 				}
-- 
2.43.0


From f4318919a60ada875495e0b57ad0a172db3cef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 04/84] fix: parse | as bitwise OR, not XOR

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index a950a2e..3317ec6 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -523,7 +523,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorBitOr {
 			p.s.ScanExpect(lexer.TokenPunctuatorBitOr, "expected `|` operator")
-			n = wrapbinary(ast.BinaryBitXorOp, exprOrderBitwiseXor)
+			n = wrapbinary(ast.BinaryBitOrOp, exprOrderBitwiseXor)
 			continue
 		}
 		if order >= exprOrderBitwiseOr {
-- 
2.43.0


From 77a4fa527a2a2c2e765f46b537f45f9a89e6b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 05/84] fix: make ** right-associative

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 3317ec6..8f87980 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -399,7 +399,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorExponent {
 			p.s.ScanExpect(lexer.TokenPunctuatorExponent, "expected `**` operator")
-			n = wrapbinary(ast.BinaryExponentOp, exprOrderUnaryExpr)
+			n = wrapbinary(ast.BinaryExponentOp, exprOrderExponentExpr)
 			continue
 		}
 		if order >= exprOrderExponentExpr {
-- 
2.43.0


From d0aa5deeeb3ab719e63fcdf8da2451d33f5ec85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 06/84] fix: recognise the end of a comment that ends in **/

---
 ecmascript/lexer/lexer.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index fc94a57..0b960a6 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -142,17 +142,12 @@ patternLoop:
 func (l *Lexer) consumeMultiLineComment() {
 	var r rune
 	for {
+		prev := r
 		r = l.s.Read()
 		switch r {
-		case '*':
-			switch l.s.Read() {
-			case '/':
+		case '/':
+			if prev == '*' {
 				return
-			case EOFRune:
-				panic(&errs.SyntaxError{
-					Location: l.s.Location(),
-					Err:      errors.New("unexpected EOF"),
-				})
 			}
 		case EOFRune:
 			panic(&errs.SyntaxError{
-- 
2.43.0


From 7c6b4f4d4f313dfca196112420b202fb480642ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 07/84] fix: let line terminators in and after comments count
 as newlines

---
 ecmascript/lexer/lexer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 0b960a6..e511716 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -154,6 +154,10 @@ func (l *Lexer) consumeMultiLineComment() {
 				Location: l.s.Location(),
 				Err:      errors.New("unexpected EOF"),
 			})
+		default:
+			if isLineTerm(r) {
+				l.newLine = true
+			}
 		}
 	}
 }
@@ -163,7 +167,11 @@ func (l *Lexer) consumeSingleLineComment() {
 	var r rune
 	for {
 		r = l.s.Read()
-		if isLineTerm(r) || r == EOFRune {
+		if isLineTerm(r) {
+			l.newLine = true
+			return
+		}
+		if r == EOFRune {
 			return
 		}
 	}
-- 
2.43.0


From 53e9f6d5a394b26b4ddce84ae39f80c2bec67030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 08/84] fix: do not move the location back when unreading at
 EOF

---
 ecmascript/lexer/scanner.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index fe312c4..a669a14 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -88,15 +88,17 @@ func (s *Scanner) Read() rune {
 // Unread unreads a rune. If we are at EOF, this will not call the underlying
 // RuneReader, so it is safe to unread at EOF.
 func (s *Scanner) Unread() {
-	if !s.eof {
-		err := s.r.UnreadRune()
-
-		if err != nil {
-			panic(&errs.ParserError{
-				Location: s.Location(),
-				Err:      err,
-			})
-		}
+	if s.eof {
+		return
+	}
+
+	err := s.r.UnreadRune()
+
+	if err != nil {
+		panic(&errs.ParserError{
+			Location: s.Location(),
+			Err:      err,
+		})
 	}
 
 	// If negative: we just read a line terminal rune. Invert col and
-- 
2.43.0


From 6a2a49e072aef76e366d06de073d88f6ceffb0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:03 +0000
Subject: [PATCH 09/84] fix: record the lexer location of every token peeked at

---
 ecmascript/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index 9bbe68f..2d13d46 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -34,7 +34,7 @@ func (s *Scanner) Location() ast.Location {
 // up to i tokens into the future.
 func (s *Scanner) PeekAt(i int) lexer.Token {
 	for len(s.last) <= i {
-		s.loc = append(s.loc, s.Location())
+		s.loc = append(s.loc, s.l.Location())
 		s.last = append(s.last, s.l.Lex())
 	}
 	return s.last[i]
-- 
2.43.0


From 84ba2df5f1e6c84c38404afe95c47b62204369ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 10/84] fix: do not lex <<< as the unsigned right shift
 operator

---
 ecmascript/lexer/lexer.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index e511716..880cf9b 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -573,14 +573,6 @@ func (l *Lexer) consumeNextToken() Token {
 			switch l.s.Read() {
 			case '<':
 				switch l.s.Read() {
-				case '<':
-					switch l.s.Read() {
-					case '=':
-						return Token{Type: TokenPunctuatorUnsignedRShiftAssign}
-					default:
-						l.s.Unread()
-						return Token{Type: TokenPunctuatorUnsignedRShift}
-					}
 				case '=':
 					return Token{Type: TokenPunctuatorLShiftAssign}
 				default:
-- 
2.43.0


From dc0728895ad547384ce982fa36938a4f322f4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 11/84] fix: report the right source text for !=, %= and ?.
 tokens

---
 ecmascript/lexer/token.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 1162150..7abb374 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -258,7 +258,7 @@ func (t Token) Source() string {
 		TokenLiteralTemplate:
 		return t.Literal
 	case TokenPunctuatorOptionalChain:
-		return ".?"
+		return "?."
 	case TokenPunctuatorOpenBrace:
 		return "{"
 	case TokenPunctuatorOpenParen:
@@ -290,7 +290,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorEqual:
 		return "=="
 	case TokenPunctuatorNotEqual:
-		return "==="
+		return "!="
 	case TokenPunctuatorStrictEqual:
 		return "==="
 	case TokenPunctuatorStrictNotEqual:
@@ -348,7 +348,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorDivAssign:
 		return "/="
 	case TokenPunctuatorModAssign:
-		return "*="
+		return "%="
 	case TokenPunctuatorExponentAssign:
 		return "**="
 	case TokenPunctuatorLShiftAssign:
-- 
2.43.0


From f0a1a430119ac59c072aeb6a93d35efae490a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 12/84] fix: keep escaped slashes and backslashes in regular
 expression patterns

---
 ecmascript/lexer/lexer.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 880cf9b..f1cabe5 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -99,12 +99,8 @@ patternLoop:
 			r = l.s.Read()
 			lit.WriteRune(r)
 
-			if r == '/' || r == '\\' {
-				pat.WriteRune(r)
-			} else {
-				pat.WriteRune('\\')
-				pat.WriteRune(r)
-			}
+			pat.WriteRune('\\')
+			pat.WriteRune(r)
 
 		case EOFRune:
 			panic(&errs.SyntaxError{
-- 
2.43.0


From 42a614d61186691053d28ec89518f16c2879eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 13/84] fix: reject line breaks in string literals

---
 ecmascript/lexer/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index f1cabe5..e2280c7 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -458,6 +458,12 @@ func (l *Lexer) consumeStringLiteral() Token {
 		if r == quo {
 			break
 		}
+		if r == '\n' || r == '\r' {
+			panic(&errs.SyntaxError{
+				Location: l.s.Location(),
+				Err:      errors.New("unterminated string literal"),
+			})
+		}
 		if r == '\\' {
 			r = l.s.Read()
 			c = append(c, r)
-- 
2.43.0


From c90197d0edd6c60b64eb82483a6d6d8e92033603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:53 +0000
Subject: [PATCH 14/84] fix: reject line terminators in regular expressions

---
 ecmascript/lexer/lexer.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index e2280c7..147d5cb 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -51,6 +51,19 @@ func (l *Lexer) ReLex() ReToken {
 	return t
 }
 
+// readRegexRune reads a rune of a regex body, which must end before the line
+// does.
+func (l *Lexer) readRegexRune() rune {
+	r := l.s.Read()
+	if r == EOFRune || isLineTerm(r) {
+		panic(&errs.SyntaxError{
+			Location: l.s.Location(),
+			Err:      errors.New("unterminated regular expression"),
+		})
+	}
+	return r
+}
+
 // consumeRegex lexes a regex, using the passed token as initial state.
 func (l *Lexer) consumeRegex(t Token) ReToken {
 	lit := &strings.Builder{} // Literal - includes all runes
@@ -63,7 +76,7 @@ func (l *Lexer) consumeRegex(t Token) ReToken {
 
 patternLoop:
 	for {
-		r := l.s.Read()
+		r := l.readRegexRune()
 		lit.WriteRune(r)
 
 		switch r {
@@ -76,38 +89,27 @@ patternLoop:
 			// allowed in a character class.
 			pat.WriteRune(r)
 			for {
-				r := l.s.Read()
+				r := l.readRegexRune()
 				lit.WriteRune(r)
 				pat.WriteRune(r)
 
 				if r == '\\' {
-					r := l.s.Read()
+					r := l.readRegexRune()
 					lit.WriteRune(r)
 					pat.WriteRune(r)
 				} else if r == ']' {
 					break
-				} else if r == EOFRune {
-					panic(&errs.SyntaxError{
-						Location: l.s.Location(),
-						Err:      errors.New("unexpected EOF"),
-					})
 				}
 			}
 
 		case '\\':
 			// Escape sequence.
-			r = l.s.Read()
+			r = l.readRegexRune()
 			lit.WriteRune(r)
 
 			pat.WriteRune('\\')
 			pat.WriteRune(r)
 
-		case EOFRune:
-			panic(&errs.SyntaxError{
-				Location: l.s.Location(),
-				Err:      errors.New("unexpected EOF"),
-			})
-
 		default:
 			pat.WriteRune(r)
 		}
-- 
2.43.0


From 66a5fb875cff0708ef69cbe25ac6c8864e9fe44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 15/84] fix: keep accepting CRLF line continuations in string
 literals

---
 ecmascript/lexer/lexer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 147d5cb..46be5d1 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -469,6 +469,15 @@ func (l *Lexer) consumeStringLiteral() Token {
 		if r == '\\' {
 			r = l.s.Read()
 			c = append(c, r)
+			if r == '\r' {
+				// A line continuation may span both runes of a CRLF.
+				if r = l.s.Read(); r == '\n' {
+					c = append(c, r)
+				} else {
+					l.s.Unread()
+				}
+				continue
+			}
 		}
 		if r == EOFRune {
 			panic(&errs.SyntaxError{
-- 
2.43.0


From c59e4687ae39f305ebc86819885067109b141ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:19 +0000
Subject: [PATCH 16/84] fix: lex the exponents of decimal literals

---
 ecmascript/lexer/lexer.go | 47 ++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 46be5d1..7a32e5b 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -352,24 +352,13 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 		} else if r == '.' {
 			lit.WriteRune(r)
 			return l.consumeFractionalPart(lit)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
-			}
-			break
 		} else {
 			l.s.Unread()
 			break
 		}
 	}
 
-	return lit.String()
+	return l.consumeExponentPart(lit)
 }
 
 func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
@@ -407,7 +396,12 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 		}
 	}
 
-	r = l.s.Read()
+	return l.consumeExponentPart(lit)
+}
+
+// consumeExponentPart consumes the exponent of a decimal literal, if any.
+func (l *Lexer) consumeExponentPart(lit *strings.Builder) string {
+	r := l.s.Read()
 	if !isExponentIndicator(r) {
 		l.s.Unread()
 		return lit.String()
@@ -415,10 +409,14 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	lit.WriteRune(r)
 
 	r = l.s.Read()
-	if r != '+' && r != '-' && !isDecimalDigit(r) {
+	if r == '+' || r == '-' {
+		lit.WriteRune(r)
+		r = l.s.Read()
+	}
+	if !isDecimalDigit(r) {
 		panic(&errs.SyntaxError{
 			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, +, or -, got %q", r),
+			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
 		})
 	}
 	lit.WriteRune(r)
@@ -427,17 +425,16 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 		r = l.s.Read()
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
+		} else if isNumericLiteralSeparator(r) {
+			r = l.s.Read()
+			if isDecimalDigit(r) {
+				lit.WriteRune(r)
+			} else {
+				panic(&errs.SyntaxError{
+					Location: l.s.Location(),
+					Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
+				})
 			}
-			break
 		} else {
 			l.s.Unread()
 			break
-- 
2.43.0


From ef8b61c351f34ce908f49bea1358290bd898a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 17/84] fix: accept decimal literals with no digits after the
 point

---
 ecmascript/lexer/lexer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 7a32e5b..cd905aa 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -370,10 +370,9 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	if isDecimalDigit(r) {
 		lit.WriteRune(r)
 	} else {
-		panic(&errs.SyntaxError{
-			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
-		})
+		// The digits after the decimal point are optional, as in `1.`.
+		l.s.Unread()
+		return l.consumeExponentPart(lit)
 	}
 
 	for {
-- 
2.43.0


From 689e8871569716f6e0beb5deae427635a74f6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:23 +0000
Subject: [PATCH 18/84] fix: accept a fraction or an exponent after a leading
 zero

---
 ecmascript/lexer/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index cd905aa..ed7ba76 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -567,9 +567,12 @@ func (l *Lexer) consumeNextToken() Token {
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
 				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(lit)}
+			case '.':
+				lit.WriteRune(r)
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeFractionalPart(lit)}
 			default:
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: "0"}
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeExponentPart(lit)}
 			}
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			l.s.Unread()
-- 
2.43.0


From 10eb62d9eaf22d00f1a4bd082448bd296d20960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 19/84] fix: evaluate 0n and large numbers instead of panicking
 with a raw error

---
 ecmascript/lexer/token.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 7abb374..16c6365 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -1,8 +1,13 @@
 package lexer
 
 import (
+	"errors"
 	"fmt"
+	"math/big"
 	"strconv"
+	"strings"
+
+	"github.com/jchv/cleansheets/ecmascript/errs"
 )
 
 // TokenType is an enumeration of possible token types.
@@ -388,12 +393,16 @@ func (t Token) StringConstant() string {
 // NumberConstant returns the parsed value for a numeric constant.
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
-	if v, err := strconv.ParseFloat(t.Literal, 64); err == nil {
+	// Decimal literals too large to represent evaluate to infinity.
+	if v, err := strconv.ParseFloat(t.Literal, 64); err == nil || errors.Is(err, strconv.ErrRange) {
 		return v
 	}
-	v, err := strconv.ParseInt(t.Literal, 0, 64)
-	if err != nil {
-		panic(err)
+	i, ok := new(big.Int).SetString(strings.TrimSuffix(t.Literal, "n"), 0)
+	if !ok {
+		panic(&errs.SyntaxError{
+			Err: fmt.Errorf("invalid number %q", t.Literal),
+		})
 	}
-	return float64(v)
+	v, _ := new(big.Float).SetInt(i).Float64()
+	return v
 }
-- 
2.43.0


From 58ea185a6fa25598fff255e0f40e18f2916ccbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 20/84] fix: evaluate legacy octal literals in base 8

---
 ecmascript/lexer/token.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 16c6365..f5112dc 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -393,6 +393,12 @@ func (t Token) StringConstant() string {
 // NumberConstant returns the parsed value for a numeric constant.
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
+	// Legacy octal literals, such as 017.
+	if len(t.Literal) > 1 && strings.Trim(t.Literal, "01234567") == "" && t.Literal[0] == '0' {
+		if v, err := strconv.ParseUint(t.Literal, 8, 64); err == nil {
+			return float64(v)
+		}
+	}
 	// Decimal literals too large to represent evaluate to infinity.
 	if v, err := strconv.ParseFloat(t.Literal, 64); err == nil || errors.Is(err, strconv.ErrRange) {
 		return v
-- 
2.43.0


From 2671f7d13473b980e89e9f34a4e8046d77b66d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:16 +0000
Subject: [PATCH 21/84] fix: keep the newline flag when a keyword is used as an
 identifier

---
 ecmascript/parser/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index 51d3cd6..f14ca09 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -38,5 +38,5 @@ func (ctx *parseContext) keywordToIdentifier(token lexer.Token, force bool) lexe
 		}
 	}
 
-	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal}
+	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal, NewLine: token.NewLine}
 }
-- 
2.43.0


From dc27506a1c5aa23cbd4a618179b5f5ad7aad3d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:18 +0000
Subject: [PATCH 22/84] fix: do not treat ++ or -- on a new line as postfix
 operators

---
 ecmascript/parser/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 8f87980..5dd5d1a 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -384,11 +384,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		// TODO: should add order for update?
-		if t.Type == lexer.TokenPunctuatorIncrement {
+		if t.Type == lexer.TokenPunctuatorIncrement && !t.NewLine {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
-		} else if t.Type == lexer.TokenPunctuatorDecrement {
+		} else if t.Type == lexer.TokenPunctuatorDecrement && !t.NewLine {
 			p.s.ScanExpect(lexer.TokenPunctuatorDecrement, "expected `--` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostDecrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
-- 
2.43.0


From ee46e88f4979ebf68e1bb332679bffe35499398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 23/84] fix: require the body statements of if, loops and
 labels

---
 ecmascript/parser/statement.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 11b4c09..ea708f4 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -18,6 +18,15 @@ func (p *Parser) parseStatementItem() ast.Node {
 	return nil
 }
 
+// parseSubStatement parses the statement that another statement requires.
+func (p *Parser) parseSubStatement() ast.Node {
+	n := p.parseStatement()
+	if n == nil {
+		p.s.SyntaxError("expected statement")
+	}
+	return n
+}
+
 func (p *Parser) parseStatement() ast.Node {
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenPunctuatorOpenBrace:
@@ -362,10 +371,10 @@ func (p *Parser) parseIfStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` after `if`")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Consequent = p.parseStatement()
+	n.Consequent = p.parseSubStatement()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordElse {
 		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
-		n.Alternate = p.parseStatement()
+		n.Alternate = p.parseSubStatement()
 	}
 	return n
 }
@@ -376,7 +385,7 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordDo, "expected `do` statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	p.s.ScanExpect(lexer.TokenKeywordWhile, "expected `while` in do/while statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
@@ -394,7 +403,7 @@ func (p *Parser) parseWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -429,7 +438,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 
@@ -441,7 +450,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 		}
@@ -456,7 +465,7 @@ func (p *Parser) parseForStatement() ast.Node {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -636,6 +645,6 @@ func (p *Parser) parseLabelledStatement() ast.Node {
 
 	n.Label = p.scanIdent("expected statement label")
 	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
-- 
2.43.0


From 2da6132e20a883d46e2a14090ca3b4f0f933b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:21 +0000
Subject: [PATCH 24/84] fix: parse declarations in switch cases instead of
 looping forever

---
 ecmascript/parser/statement.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index ea708f4..584b1bb 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -494,7 +494,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break caseStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -509,7 +509,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break defaultStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
-- 
2.43.0


From 9fbf677f9e40f39b2f27c5ef9db0b7d8b8abff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 25/84] fix: reject anything but clauses in a switch body
 instead of looping forever

---
 ecmascript/parser/statement.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 584b1bb..2ed2810 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -517,6 +517,9 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
 			return n
+
+		default:
+			p.s.SyntaxError("expected `case`, `default` or `}`")
 		}
 	}
 }
-- 
2.43.0


From 348f8c8f0747e5dc9d6ab8c33d0324521f149c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 26/84] fix: require a catch or finally clause after try

---
 ecmascript/parser/statement.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 2ed2810..de9e60d 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -619,6 +619,9 @@ func (p *Parser) parseTryStatement() ast.Node {
 		p.s.ScanExpect(lexer.TokenKeywordFinally, "expected finally statement")
 		n.Finalizer = p.parseBlock()
 	}
+	if n.Handler == nil && n.Finalizer == nil {
+		p.s.SyntaxError("expected `catch` or `finally` after `try` block")
+	}
 	return n
 }
 
-- 
2.43.0


From f3267333be9f8e2418b5ef610ca31925e046ea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 27/84] fix: reject tokens that are not a catch parameter
 instead of dropping them

---
 ecmascript/parser/statement.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index de9e60d..67ad480 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -635,6 +635,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 		b.ArrayPattern = p.parseArrayBindingPatternTail()
 	case lexer.TokenPunctuatorOpenBrace:
 		b.ObjectPattern = p.parseObjectBindingPatternTail()
+	default:
+		p.s.SyntaxError(fmt.Sprintf("unexpected token in catch parameter: %s", t.Source()))
 	}
 	return b
 }
-- 
2.43.0


From 2e7b0984d23a948d7ccbfcbfff3fc690b4eedec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 28/84] fix: reject malformed import lists instead of dropping
 specifiers

---
 ecmascript/parser/module.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 14c4c23..910c24c 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -106,7 +106,11 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 					break importList
 				case lexer.TokenPunctuatorComma:
 					n.NamedImports = append(n.NamedImports, item)
+				default:
+					p.s.SyntaxError(fmt.Sprintf("expected `,` or `}` in import list, got %q", t.Source()))
 				}
+			default:
+				p.s.SyntaxError(fmt.Sprintf("expected `,`, `as` or `}` in import list, got %q", t.Source()))
 			}
 		}
 
-- 
2.43.0


From d5f69bd035cd35c44a06008e72cab154d87f5423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 29/84] fix: require commas between arguments and array
 elements

---
 ecmascript/parser/expression.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 5dd5d1a..435f22d 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -823,8 +823,8 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		} else {
 			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, flags))
 		}
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
+		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseBracket {
+			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `]`")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBracket {
 			break
@@ -1112,8 +1112,8 @@ func (p *Parser) parseArguments() []ast.Node {
 			m = ast.SpreadElement{Argument: m}
 		}
 		n = append(n, m)
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
+		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
+			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `)`")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-- 
2.43.0


From 477f8ca1c0e15aa0232042db816c1e243f1da3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 30/84] fix: reject switch statements with several default
 clauses

---
 ecmascript/parser/statement.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 67ad480..2c932f6 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -480,6 +480,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected `{`")
+	hasDefault := false
 	for {
 		switch p.s.PeekAt(0).Type {
 		case lexer.TokenKeywordCase:
@@ -500,6 +501,10 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 			n.Cases = append(n.Cases, c)
 
 		case lexer.TokenKeywordDefault:
+			if hasDefault {
+				p.s.SyntaxError("more than one `default` clause in `switch`")
+			}
+			hasDefault = true
 			c := ast.SwitchCase{}
 			p.s.ScanExpect(lexer.TokenKeywordDefault, "expected `default`")
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
-- 
2.43.0


From 750c9e81494a8ea645ac087e7088b63ad5c5ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 31/84] fix: do not dereference elisions and shorthand
 properties in parenthesized literals

---
 ecmascript/ast/expressions.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 341bec4..48ddf84 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -25,7 +25,7 @@ func (n ArrayExpression) ESTree() interface{} {
 // children.
 func (n ArrayExpression) ContainsTemporalNodes() bool {
 	for _, elem := range n.Elements {
-		if elem.ContainsTemporalNodes() {
+		if elem != nil && elem.ContainsTemporalNodes() {
 			return true
 		}
 	}
@@ -396,7 +396,11 @@ func (n ObjectExpression) ESTree() interface{} {
 // children.
 func (n ObjectExpression) ContainsTemporalNodes() bool {
 	for _, prop := range n.Properties {
-		if prop.Key.ContainsTemporalNodes() || prop.Value.ContainsTemporalNodes() {
+		// Only destructuring patterns have an initializer.
+		if prop.DestructureInit != nil {
+			return true
+		}
+		if prop.Key.ContainsTemporalNodes() || prop.Value != nil && prop.Value.ContainsTemporalNodes() {
 			return true
 		}
 	}
-- 
2.43.0


From 98aa98e24ea34e5524a350f9f92e2d91e932857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:09 +0000
Subject: [PATCH 32/84] fix: do not let arrow function parameters become
 operands

---
 ecmascript/parser/expression.go | 42 ++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 435f22d..4388ef3 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -65,6 +65,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 	}
 
+	// Only the items of a parenthesized list can be arrow function parameters;
+	// the operands inside of them can not be.
+	subflags := flags &^ exprFlagMaybeArrow
+
 	var n ast.Node
 	s := p.s.Location()
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
@@ -85,7 +89,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	wrapbinary := func(op ast.BinaryOperator, next exprOrder) ast.Node {
 		m := ast.BinaryExpression{Operator: op}
 		m.Left = n
-		m.Right = p.parseExpression(next, flags)
+		m.Right = p.parseExpression(next, subflags)
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
 		return m
@@ -94,7 +98,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	wrapassign := func(op ast.AssignmentOperator, next exprOrder) ast.Node {
 		m := ast.AssignmentExpression{Operator: op}
 		m.Left = n
-		m.Right = p.parseExpression(next, flags)
+		m.Right = p.parseExpression(next, subflags)
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
 		return m
@@ -112,24 +116,24 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Unary operators
 	case lexer.TokenPunctuatorIncrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: p.parseExpression(exprOrderLHSExpr, subflags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorDecrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: p.parseExpression(exprOrderLHSExpr, subflags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordDelete:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, subflags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordVoid:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryVoidOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryVoidOp, Argument: p.parseExpression(exprOrderUnaryExpr, subflags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordTypeOf:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryTypeOfOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryTypeOfOp, Argument: p.parseExpression(exprOrderUnaryExpr, subflags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorPlus:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryPlusOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryPlusOp, Argument: p.parseExpression(exprOrderUnaryExpr, subflags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorMinus:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryMinusOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryMinusOp, Argument: p.parseExpression(exprOrderUnaryExpr, subflags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorBitNot:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryBitNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryBitNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, subflags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorNot:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, subflags)}, exprOrderUnaryExpr)
 
 	// Primary Expression
 	case lexer.TokenKeywordThis:
@@ -204,7 +208,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenKeywordFunction:
 		n = p.parseFunctionExpressionTail(s, false)
 	case lexer.TokenKeywordNew:
-		ctor := p.parseExpression(exprOrderMemberExpr, flags)
+		ctor := p.parseExpression(exprOrderMemberExpr, subflags)
 		m := ast.NewExpression{
 			Callee: ctor,
 		}
@@ -297,6 +301,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	for {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
+
+		// Arrow function parameters can not be operands.
+		if t.Type != lexer.TokenPunctuatorComma && t.Type != lexer.TokenPunctuatorCloseParen && n.ContainsTemporalNodes() {
+			p.s.SyntaxError(fmt.Sprintf("unexpected token `%s` after arrow function parameter", t.Source()))
+		}
+
 		if t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
 			m := ast.MemberExpression{
@@ -821,7 +831,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 			n.Elements = append(n.Elements, rest)
 			break
 		} else {
-			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, flags))
+			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, 0))
 		}
 		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseBracket {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `]`")
@@ -970,7 +980,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorOpenBracket:
 			// Computed identifier.
 			prop.Computed = true
-			prop.Key = p.parseExpression(exprOrderComma, flags)
+			prop.Key = p.parseExpression(exprOrderComma, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
@@ -995,11 +1005,11 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			}
 
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
-			prop.Value = p.parseExpression(exprOrderAssign, flags)
+			prop.Value = p.parseExpression(exprOrderAssign, 0)
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
-			prop.DestructureInit = p.parseExpression(exprOrderAssign, flags)
+			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-- 
2.43.0


From 4cdf027c58d4cc2d42ab44f3c06e6bb669abd986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 33/84] fix: convert parameter lists to arguments in calls to a
 function named async

---
 ecmascript/parser/expression.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 4388ef3..17b1d48 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -792,11 +792,28 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 }
 
 func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
-	if args, ok := inner.(ast.SequenceExpression); ok {
-		return args.Expressions
-	} else {
-		return []ast.Node{inner}
+	items := []ast.Node{inner}
+	if seq, ok := inner.(ast.SequenceExpression); ok {
+		items = seq.Expressions
 	}
+
+	args := []ast.Node{}
+	for _, n := range items {
+		switch t := n.(type) {
+		case ast.TemporalEmptyArrowHead:
+			// No arguments, or a trailing comma.
+
+		case ast.TemporalFloatingRestElement:
+			args = append(args, ast.SpreadElement{Argument: ast.Identifier{Name: t.Identifier}})
+
+		default:
+			if n.ContainsTemporalNodes() {
+				p.s.SyntaxError("expected `=>` operator")
+			}
+			args = append(args, n)
+		}
+	}
+	return args
 }
 
 // Parses an array assuming a `[` was already consumed.
-- 
2.43.0


From 7ba14e78b731e0e0e7255ac2ec8da02b345d9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 34/84] fix: reject arrow function parameters after a rest
 parameter

---
 ecmascript/parser/expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 17b1d48..35e7188 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -678,6 +678,10 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
 	convarg := func(n ast.Node, params *ast.FormalParameters) {
+		if params.RestParameter != "" {
+			p.s.SyntaxError("rest parameter must be last in argument list")
+		}
+
 		switch t := n.(type) {
 		case ast.Identifier:
 			params.Parameters = append(params.Parameters, ast.BindingElement{
-- 
2.43.0


From 77e7908be1f542728964f417976f03588a520dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 35/84] fix: accept a trailing comma in arrow function
 parameters

---
 ecmascript/parser/expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 35e7188..9dbfb23 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -774,6 +774,10 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 			params.RestParameter = t.Identifier
 			return
 
+		case ast.TemporalEmptyArrowHead:
+			// Trailing comma.
+			return
+
 		default:
 			p.s.SyntaxError(fmt.Sprintf("unexpected production %T in arrow function parameter list", n))
 		}
-- 
2.43.0


From 8714371a88a76849cc0ff909e6f169ee3667ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 36/84] fix: reject compound assignments as arrow function
 parameter defaults

---
 ecmascript/parser/expression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 9dbfb23..82b3a36 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -691,7 +691,7 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 
 		case ast.AssignmentExpression:
 			left, ok := t.Left.(ast.Identifier)
-			if !ok {
+			if !ok || t.Operator != ast.AssignmentOp {
 				p.s.SyntaxError("expected identifier in argument list")
 			}
 			name := left.Name
@@ -714,7 +714,7 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 
 				case ast.AssignmentExpression:
 					left, ok := e.Left.(ast.Identifier)
-					if !ok {
+					if !ok || e.Operator != ast.AssignmentOp {
 						p.s.SyntaxError("expected identifier in argument list")
 					}
 					name := left.Name
@@ -750,7 +750,7 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 
 				case ast.AssignmentExpression:
 					left, ok := key.Left.(ast.Identifier)
-					if !ok {
+					if !ok || key.Operator != ast.AssignmentOp {
 						p.s.SyntaxError("expected identifier in argument list")
 					}
 					binding.Value.Identifier = left.Name
-- 
2.43.0


From e1a348bd69ef9c4554f6d054850ee95ece5ff567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 37/84] fix: reject destructured arrow function parameters
 whose keys would be lost

---
 ecmascript/parser/expression.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 82b3a36..4727ae5 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -741,9 +741,11 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 					break
 				}
 				binding := ast.BindingProperty{}
-				if key, ok := prop.Key.(ast.Identifier); ok {
-					binding.PropertyName = key.Name
+				key, ok := prop.Key.(ast.Identifier)
+				if !ok || prop.Computed {
+					p.s.SyntaxError("unsupported property key in object destructuring")
 				}
+				binding.PropertyName = key.Name
 				switch key := prop.Value.(type) {
 				case ast.Identifier:
 					binding.Value.Identifier = key.Name
-- 
2.43.0


From 2aa898f53b918382118008564f1d24f65195841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:44 +0000
Subject: [PATCH 38/84] fix: reject reserved words as rest parameters of arrow
 functions

---
 ecmascript/parser/expression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 4727ae5..174e6ac 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -60,7 +60,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			// Rest parameter inside of possible arrow function head.
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			return ast.TemporalFloatingRestElement{
-				Identifier: p.forceScanIdent("unexpected token"),
+				Identifier: p.scanIdent("unexpected token"),
 			}
 		}
 	}
@@ -851,7 +851,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 			case lexer.TokenPunctuatorOpenBrace:
 				rest.ObjectPattern = p.parseObjectBindingPattern()
 			case lexer.TokenIdentifier:
-				rest.Identifier = p.forceScanIdent("unexpected token")
+				rest.Identifier = p.scanIdent("unexpected token")
 			default:
 				p.s.SyntaxError("missing variable name")
 			}
@@ -902,7 +902,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.SyntaxError("expected expression, got '}'")
 		case lexer.TokenIdentifier:
-			rest.Identifier = p.forceScanIdent("unexpected token")
+			rest.Identifier = p.scanIdent("unexpected token")
 		default:
 			p.s.SyntaxError("missing variable name")
 		}
-- 
2.43.0


From 41da958bacfc8c56dab2bea482de10c2191bc91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 39/84] fix: reject reserved words and literals as shorthand
 properties

---
 ecmascript/parser/expression.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 174e6ac..00f58f3 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -980,6 +980,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			t = p.s.Scan()
 		}
 
+		// Only keys that are valid identifiers can be used as shorthands.
+		isIdent := p.ctx.keywordToIdentifier(t, false).Type == lexer.TokenIdentifier
+
 		// Next, handle identifier...
 		t = p.ctx.keywordToIdentifier(t, true)
 		switch t.Type {
@@ -1035,6 +1038,10 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			prop.Value = p.parseExpression(exprOrderAssign, 0)
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
+			if !isIdent || async || generator {
+				p.s.SyntaxError("expected identifier before `=`")
+			}
+
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
 			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
@@ -1062,9 +1069,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case peek.Type == lexer.TokenPunctuatorComma ||
 			peek.Type == lexer.TokenPunctuatorCloseBrace:
 			// Shorthand syntax. We don't need to do anything, but we should
-			// disallow this from happening with a computed property.
-			if prop.Computed {
-				p.s.SyntaxError("shorthand not allowed for computed property")
+			// disallow this from happening with anything but an identifier.
+			if !isIdent {
+				p.s.SyntaxError("shorthand only allowed for identifiers")
 			}
 
 			// We also should not allow this when async/generator is specified.
-- 
2.43.0


From 47d930df583e639a50503aa208e18450be78e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 40/84] fix: parse assignments in arrow function bodies

---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/statement.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 00f58f3..cf4e92d 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -282,7 +282,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
 			body = p.parseBlock()
 		} else {
-			body = p.parseExpression(exprOrderConditional, 0)
+			body = p.parseExpression(exprOrderAssign, 0)
 		}
 		m := ast.FunctionExpression{
 			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 2c932f6..cce4bd7 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -120,7 +120,7 @@ func (p *Parser) parseBlockOrShorthand() ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
 		return p.parseBlock()
 	} else {
-		return p.parseExpression(exprOrderConditional, 0)
+		return p.parseExpression(exprOrderAssign, 0)
 	}
 }
 
-- 
2.43.0


From c9c21d91cc4770ce2bca1e2888bb44f8dd203944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:55 +0000
Subject: [PATCH 41/84] fix: mark async function expressions as async

---
 ecmascript/parser/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index cf4e92d..4de95d0 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -142,10 +142,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if t.Literal == "async" {
 			peek := p.s.PeekAt(0)
 			ident := p.ctx.keywordToIdentifier(peek, true)
-			if peek.Type == lexer.TokenKeywordFunction {
+			if peek.Type == lexer.TokenKeywordFunction && !peek.NewLine {
 				// Async function expression
 				p.s.Scan()
-				n = p.parseFunctionExpressionTail(s, false)
+				n = p.parseFunctionExpressionTail(s, true)
 			} else if ident.Type == lexer.TokenIdentifier {
 				// Async arrow function with bare parameter
 				p.s.Scan()
-- 
2.43.0


From ec71fff21ced61f4e21f3e21b3425cf114614490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:57 +0000
Subject: [PATCH 42/84] fix: allow operators and new statements after an
 identifier named async

---
 ecmascript/parser/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 4de95d0..546ca49 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -141,12 +141,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenIdentifier:
 		if t.Literal == "async" {
 			peek := p.s.PeekAt(0)
-			ident := p.ctx.keywordToIdentifier(peek, true)
+			ident := p.ctx.keywordToIdentifier(peek, false)
 			if peek.Type == lexer.TokenKeywordFunction && !peek.NewLine {
 				// Async function expression
 				p.s.Scan()
 				n = p.parseFunctionExpressionTail(s, true)
-			} else if ident.Type == lexer.TokenIdentifier {
+			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine {
 				// Async arrow function with bare parameter
 				p.s.Scan()
 				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
-- 
2.43.0


From 44ea58f010a18ff56502f789fca497fea22c2f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 43/84] fix: let only a comma operator follow an arrow function

---
 ecmascript/parser/expression.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 546ca49..f38f825 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -150,12 +150,15 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// Async arrow function with bare parameter
 				p.s.Scan()
 				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
-				return ast.FunctionExpression{
+				m := ast.FunctionExpression{
 					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
 					Body:   p.parseBlockOrShorthand(),
 					Arrow:  true,
 					Async:  true,
 				}
+				m.SetStart(s)
+				m.SetEnd(p.s.Location())
+				n = m
 			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
 				// Async arrow function with parameter list
 				// OR
@@ -291,7 +294,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
-		return m
+		n = m
 	}
 
 	if order >= exprOrderPrimaryExpr {
@@ -307,6 +310,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.SyntaxError(fmt.Sprintf("unexpected token `%s` after arrow function parameter", t.Source()))
 		}
 
+		// An arrow function can not be an operand, except of a comma.
+		if fn, ok := n.(ast.FunctionExpression); ok && fn.Arrow && t.Type != lexer.TokenPunctuatorComma {
+			return n
+		}
+
 		if t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
 			m := ast.MemberExpression{
-- 
2.43.0


From 5e0a8f8de8bb387d648ac5ab2ce1d52c0c59de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 44/84] fix: do not parse arrow functions as operands or across
 lines

---
 ecmascript/parser/expression.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index f38f825..2f02f49 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -146,7 +146,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// Async function expression
 				p.s.Scan()
 				n = p.parseFunctionExpressionTail(s, true)
-			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine {
+			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine && order <= exprOrderAssign {
 				// Async arrow function with bare parameter
 				p.s.Scan()
 				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
@@ -166,7 +166,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				p.s.Scan()
 				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
-				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
+				if p.atArrow(order) {
 					// This was an arrow function after all. Fix up the parenthesized
 					// expression to be a parameter list.
 					p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
@@ -250,7 +250,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// productions, and then it will be fixed up here.
 		inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
 		p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
+		if p.atArrow(order) {
 			// This was an arrow function after all. Fix up the parenthesized
 			// expression to be a parameter list.
 			p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
@@ -279,7 +279,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	}
 
 	// Handle single-parameter bare parameter list.
-	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
+	if i, ok := n.(ast.Identifier); ok && p.atArrow(order) {
 		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
 		var body ast.Node
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
@@ -682,6 +682,14 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// atArrow returns true if the next token is the `=>` operator of an arrow
+// function, which is an assignment expression and whose `=>` operator has to be
+// on the same line as its parameters.
+func (p *Parser) atArrow(order exprOrder) bool {
+	t := p.s.PeekAt(0)
+	return t.Type == lexer.TokenPunctuatorFatArrow && !t.NewLine && order <= exprOrderAssign
+}
+
 func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
-- 
2.43.0


From dfd2b13244455d98717704761ca81e3307398e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 45/84] fix: do not consume the arguments of new async()

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 2f02f49..72e53cf 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -159,7 +159,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				m.SetStart(s)
 				m.SetEnd(p.s.Location())
 				n = m
-			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
+			} else if peek.Type == lexer.TokenPunctuatorOpenParen && order <= exprOrderCallExpr {
 				// Async arrow function with parameter list
 				// OR
 				// Call to function named "async"
-- 
2.43.0


From 9d55254db8357267537f0f565d80ffecc2c16fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 46/84] fix: apply member, call, update and assignment
 operators to left-hand sides only

---
 ecmascript/parser/expression.go | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 72e53cf..efb9570 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -310,6 +310,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.SyntaxError(fmt.Sprintf("unexpected token `%s` after arrow function parameter", t.Source()))
 		}
 
+		// Only a left-hand side expression can be accessed, called, updated or
+		// assigned to.
+		if !isLeftHandSide(n) && takesLeftHandSide(t.Type) {
+			return n
+		}
+
 		// An arrow function can not be an operand, except of a comma.
 		if fn, ok := n.(ast.FunctionExpression); ok && fn.Arrow && t.Type != lexer.TokenPunctuatorComma {
 			return n
@@ -682,6 +688,36 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// isLeftHandSide returns true if the expression is a left-hand side expression.
+func isLeftHandSide(n ast.Node) bool {
+	switch n.(type) {
+	case *ast.UpdateExpression, *ast.UnaryExpression, ast.BinaryExpression,
+		ast.ConditionalExpression, ast.AssignmentExpression, ast.SequenceExpression:
+		return false
+	}
+	return true
+}
+
+// takesLeftHandSide returns true if the token is an operator with a left-hand
+// side expression as its left operand.
+func takesLeftHandSide(t lexer.TokenType) bool {
+	switch t {
+	case lexer.TokenPunctuatorDot, lexer.TokenPunctuatorOpenBracket,
+		lexer.TokenPunctuatorOpenParen, lexer.TokenPunctuatorOptionalChain,
+		lexer.TokenPunctuatorIncrement, lexer.TokenPunctuatorDecrement,
+		lexer.TokenPunctuatorAssign, lexer.TokenPunctuatorMultAssign,
+		lexer.TokenPunctuatorDivAssign, lexer.TokenPunctuatorModAssign,
+		lexer.TokenPunctuatorPlusAssign, lexer.TokenPunctuatorMinusAssign,
+		lexer.TokenPunctuatorLShiftAssign, lexer.TokenPunctuatorRShiftAssign,
+		lexer.TokenPunctuatorUnsignedRShiftAssign, lexer.TokenPunctuatorBitAndAssign,
+		lexer.TokenPunctuatorBitXorAssign, lexer.TokenPunctuatorBitOrAssign,
+		lexer.TokenPunctuatorExponentAssign, lexer.TokenPunctuatorLogicalAndAssign,
+		lexer.TokenPunctuatorLogicalOrAssign, lexer.TokenPunctuatorNullCoalesceAssign:
+		return true
+	}
+	return false
+}
+
 // atArrow returns true if the next token is the `=>` operator of an arrow
 // function, which is an assignment expression and whose `=>` operator has to be
 // on the same line as its parameters.
-- 
2.43.0


From ae3401a82c7d5df1eb7b566b76ddb38e46b97583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 47/84] fix: reject unparenthesized unary expressions as the
 base of **

---
 ecmascript/parser/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index efb9570..7c49dce 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -422,6 +422,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if t.Type == lexer.TokenPunctuatorExponent {
+			if _, ok := n.(*ast.UnaryExpression); ok {
+				p.s.SyntaxError("unary expression can not be the base of `**`")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorExponent, "expected `**` operator")
 			n = wrapbinary(ast.BinaryExponentOp, exprOrderExponentExpr)
 			continue
-- 
2.43.0


From 7f2a682ddbfa2edc4bb15c5f4684bc47494a3994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 48/84] fix: reject ?? mixed with other logical operators

---
 ecmascript/parser/expression.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 7c49dce..beb3432 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -558,6 +558,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if t.Type == lexer.TokenPunctuatorLogicalAnd {
+			if b, ok := n.(ast.BinaryExpression); ok && b.Operator == ast.BinaryCoalesceOp {
+				p.s.SyntaxError("can not mix `??` with other logical operators")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalAnd, "expected `&&` operator")
 			n = wrapbinary(ast.BinaryLogicalAndOp, exprOrderBitwiseOr)
 			continue
@@ -567,12 +570,18 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if t.Type == lexer.TokenPunctuatorLogicalOr {
+			if b, ok := n.(ast.BinaryExpression); ok && b.Operator == ast.BinaryCoalesceOp {
+				p.s.SyntaxError("can not mix `??` with other logical operators")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalOr, "expected `||` operator")
 			n = wrapbinary(ast.BinaryLogicalOrOp, exprOrderLogicalAnd)
 			continue
 		} else if t.Type == lexer.TokenPunctuatorNullCoalesce {
+			if b, ok := n.(ast.BinaryExpression); ok && (b.Operator == ast.BinaryLogicalAndOp || b.Operator == ast.BinaryLogicalOrOp) {
+				p.s.SyntaxError("can not mix `??` with other logical operators")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorNullCoalesce, "expected `??` operator")
-			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderLogicalAnd)
+			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderBitwiseOr)
 			continue
 		}
 		if order >= exprOrderLogicalOr {
-- 
2.43.0


From 1b1f619db68897bb0d084275e2a3b78ff2ec6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 49/84] fix: accept comma expressions as computed members

---
 ecmascript/parser/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index beb3432..7ade766 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -339,7 +339,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			m := ast.MemberExpression{
 				Object:   n,
 				Computed: true,
-				Property: p.parseExpression(exprOrderAssign, 0),
+				Property: p.parseExpression(exprOrderComma, 0),
 			}
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]` operator")
 			m.SetStart(s)
@@ -372,7 +372,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				m := ast.MemberExpression{
 					Object:   n,
 					Computed: true,
-					Property: p.parseExpression(exprOrderAssign, 0),
+					Property: p.parseExpression(exprOrderComma, 0),
 					Optional: true,
 				}
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]` operator")
-- 
2.43.0


From 9cd7722afc127538b8abb43f8cc7efd868306f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 50/84] fix: reject comma expressions as computed property keys

---
 ecmascript/parser/declaration.go | 2 +-
 ecmascript/parser/expression.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 7f0719d..7309a6f 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -119,7 +119,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 		case lexer.TokenPunctuatorOpenBracket:
 			m.Computed = true
-			m.Key = p.parseExpression(exprOrderComma, 0)
+			m.Key = p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 7ade766..514c9da 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1074,7 +1074,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorOpenBracket:
 			// Computed identifier.
 			prop.Computed = true
-			prop.Key = p.parseExpression(exprOrderComma, 0)
+			prop.Key = p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
-- 
2.43.0


From b3e808a2b9bd41a5bf404445ace918da16a33663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 51/84] fix: accept calls as superclasses

---
 ecmascript/parser/declaration.go | 2 +-
 ecmascript/parser/expression.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 7309a6f..2cb4d87 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -71,7 +71,7 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
 		p.s.Scan()
-		n.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
+		n.SuperClass = p.parseExpression(exprOrderLHSExpr, 0)
 	}
 
 	n.Body = p.parseClassBody()
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 514c9da..0cdd2b4 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -228,7 +228,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
 			p.s.Scan()
-			m.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
+			m.SuperClass = p.parseExpression(exprOrderLHSExpr, 0)
 		}
 		m.Body = p.parseClassBody()
 		n = m
-- 
2.43.0


From 33ac4b22f9a2d499ea3e86cfa4e90f8a80d39ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 52/84] fix: accept contextual keywords as names of class
 expressions

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 0cdd2b4..d077388 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -223,7 +223,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		n = m
 	case lexer.TokenKeywordClass:
 		m := ast.ClassExpression{}
-		if p.s.PeekAt(0).Type == lexer.TokenIdentifier {
+		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
 			m.ID = p.scanIdent("expected class name")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
-- 
2.43.0


From 0f8905fd2601675777a0531873fe463ff7f6a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 53/84] fix: keep the in operator out of conditional
 expressions in for headers

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index d077388..1982b49 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -592,7 +592,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.ScanExpect(lexer.TokenPunctuatorQuestionMark, "expected `?` operator in conditional expression")
 			a := p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` operator in conditional expression")
-			b := p.parseExpression(exprOrderAssign, 0)
+			b := p.parseExpression(exprOrderAssign, subflags)
 			m := ast.ConditionalExpression{
 				Test:       n,
 				Consequent: a,
-- 
2.43.0


From bd459016353b0013279225491d3431c682f88a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 54/84] fix: apply directives within the function bodies they
 start, and nowhere else

---
 ecmascript/parser/declaration.go |  4 +--
 ecmascript/parser/expression.go  |  8 ++---
 ecmascript/parser/statement.go   | 61 ++++++++++++++++++++++----------
 3 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 2cb4d87..41a4477 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -25,7 +25,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	// TODO: generator support
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
 	params := p.parseParametersTail()
-	body := p.parseBlock()
+	body := p.parseFunctionBody()
 	n := ast.FunctionDeclaration{
 		ID:     name,
 		Params: params,
@@ -128,7 +128,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 		fn := ast.FunctionExpression{}
 		fn.Params = p.parseParameters()
-		fn.Body = p.parseBlock()
+		fn.Body = p.parseFunctionBody()
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 1982b49..7598f8d 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -283,7 +283,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
 		var body ast.Node
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-			body = p.parseBlock()
+			body = p.parseFunctionBody()
 		} else {
 			body = p.parseExpression(exprOrderAssign, 0)
 		}
@@ -1088,7 +1088,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			// Getter/setter
 			fn := ast.FunctionExpression{}
 			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
 
@@ -1122,7 +1122,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 			fn.SetStart(p.s.Location())
 			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 
 			prop.Value = fn
@@ -1183,7 +1183,7 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 
 	wasgen := p.ctx.generator
 	p.ctx.generator = true
-	body := p.parseBlock()
+	body := p.parseFunctionBody()
 	p.ctx.generator = wasgen
 
 	m := ast.FunctionExpression{
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index cce4bd7..b6106b3 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -118,7 +118,7 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 
 func (p *Parser) parseBlockOrShorthand() ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-		return p.parseBlock()
+		return p.parseFunctionBody()
 	} else {
 		return p.parseExpression(exprOrderAssign, 0)
 	}
@@ -131,33 +131,38 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected block opening brace `{`")
 
-	// Early exit for empty block.
-	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
-		p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
-		return n
+	for {
+		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
+			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
+			break
+		}
+		n.Body = append(n.Body, p.parseStatementItem())
 	}
 
-	ctx := p.ctx
+	return n
+}
 
-	// Parse first statement so we can parse directives out of it.
-	stmt := p.parseStatementItem()
-	if expr, ok := stmt.(ast.ExpressionStatement); ok {
-		if str, ok := expr.Expression.(ast.StringLiteral); ok {
-			if str.Value == "use strict" {
-				ctx.strictMode = true
-				expr.Directive = "use strict"
-			}
-		}
-		stmt = expr
-	}
-	n.Body = append(n.Body, stmt)
+// parseFunctionBody parses a block that may start with directives.
+func (p *Parser) parseFunctionBody() ast.BlockStatement {
+	n := ast.BlockStatement{}
+	p.setStart(&n)
+	defer p.setEnd(&n)
+
+	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected block opening brace `{`")
+
+	ctx := p.ctx
 
+	prologue := true
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
 			break
 		}
-		n.Body = append(n.Body, p.parseStatementItem())
+		stmt := p.parseStatementItem()
+		if prologue {
+			stmt, prologue = p.parseDirective(stmt)
+		}
+		n.Body = append(n.Body, stmt)
 	}
 
 	p.ctx = ctx
@@ -165,6 +170,24 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 	return n
 }
 
+// parseDirective marks the statement as a directive if it is one, and applies
+// it. It returns false if the statement is not a directive.
+func (p *Parser) parseDirective(stmt ast.Node) (ast.Node, bool) {
+	expr, ok := stmt.(ast.ExpressionStatement)
+	if !ok {
+		return stmt, false
+	}
+	str, ok := expr.Expression.(ast.StringLiteral)
+	if !ok {
+		return stmt, false
+	}
+	if str.Value == "use strict" {
+		p.ctx.strictMode = true
+	}
+	expr.Directive = str.Value
+	return expr, true
+}
+
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
 	n := p.parseVariableStatementNoSemicolon()
 	p.expectSemicolon()
-- 
2.43.0


From d467765e4c01b29dc87b5d492eb3dd5437195d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 55/84] fix: recognise directives at the start of scripts and
 modules

---
 ecmascript/parser/module.go | 7 ++++++-
 ecmascript/parser/script.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 910c24c..5d735ed 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -15,11 +15,16 @@ func (p *Parser) parseModule() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	prologue := true
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
 		}
-		m.Body = append(m.Body, p.parseModuleItem())
+		stmt := p.parseModuleItem()
+		if prologue {
+			stmt, prologue = p.parseDirective(stmt)
+		}
+		m.Body = append(m.Body, stmt)
 	}
 
 	return m
diff --git a/ecmascript/parser/script.go b/ecmascript/parser/script.go
index a776ba6..3673349 100644
--- a/ecmascript/parser/script.go
+++ b/ecmascript/parser/script.go
@@ -10,11 +10,16 @@ func (p *Parser) parseScript() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	prologue := true
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
 		}
-		m.Body = append(m.Body, p.parseStatementItem())
+		stmt := p.parseStatementItem()
+		if prologue {
+			stmt, prologue = p.parseDirective(stmt)
+		}
+		m.Body = append(m.Body, stmt)
 	}
 
 	return m
-- 
2.43.0


From 326954ebebb738c1cdc58742e566721b6fc21f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:58 +0000
Subject: [PATCH 56/84] fix: parse each function in its own async and generator
 context

---
 ecmascript/parser/declaration.go |  7 +++---
 ecmascript/parser/expression.go  | 37 +++++++++++++++-----------------
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 41a4477..91fff4c 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -24,8 +24,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	name := p.scanIdent("expected identifier")
 	// TODO: generator support
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
-	params := p.parseParametersTail()
-	body := p.parseFunctionBody()
+	params, body := p.parseFunctionTail(false, false)
 	n := ast.FunctionDeclaration{
 		ID:     name,
 		Params: params,
@@ -127,8 +126,8 @@ func (p *Parser) parseClassBody() []ast.Node {
 		}
 
 		fn := ast.FunctionExpression{}
-		fn.Params = p.parseParameters()
-		fn.Body = p.parseFunctionBody()
+		p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
+		fn.Params, fn.Body = p.parseFunctionTail(false, false)
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 7598f8d..f975af2 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1087,8 +1087,8 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case prop.Kind == ast.GetProperty || prop.Kind == ast.SetProperty:
 			// Getter/setter
 			fn := ast.FunctionExpression{}
-			fn.Params = p.parseParameters()
-			fn.Body = p.parseFunctionBody()
+			p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
+			fn.Params, fn.Body = p.parseFunctionTail(false, false)
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
 
@@ -1111,25 +1111,19 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-			ctx := p.ctx
-			p.ctx.async = async
-			p.ctx.generator = generator
-
 			fn := ast.FunctionExpression{
 				Async:     async,
 				Generator: generator,
 			}
 
 			fn.SetStart(p.s.Location())
-			fn.Params = p.parseParameters()
-			fn.Body = p.parseFunctionBody()
+			p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
+			fn.Params, fn.Body = p.parseFunctionTail(async, generator)
 			fn.SetEnd(p.s.Location())
 
 			prop.Value = fn
 			prop.Method = true
 
-			p.ctx = ctx
-
 		case peek.Type == lexer.TokenPunctuatorComma ||
 			peek.Type == lexer.TokenPunctuatorCloseBrace:
 			// Shorthand syntax. We don't need to do anything, but we should
@@ -1179,12 +1173,7 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 		p.s.SyntaxError("expected parameter list following function expression head")
 	}
 
-	params := p.parseParametersTail()
-
-	wasgen := p.ctx.generator
-	p.ctx.generator = true
-	body := p.parseFunctionBody()
-	p.ctx.generator = wasgen
+	params, body := p.parseFunctionTail(async, generator)
 
 	m := ast.FunctionExpression{
 		ID:        name,
@@ -1230,10 +1219,18 @@ func (p *Parser) parseArguments() []ast.Node {
 	}
 }
 
-// Parses parameters.
-func (p *Parser) parseParameters() ast.FormalParameters {
-	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
-	return p.parseParametersTail()
+// Parses parameters, assuming a `(` was already consumed, and a body of a
+// function in its own context.
+func (p *Parser) parseFunctionTail(async, generator bool) (ast.FormalParameters, ast.BlockStatement) {
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = generator
+
+	params := p.parseParametersTail()
+	body := p.parseFunctionBody()
+
+	p.ctx = ctx
+	return params, body
 }
 
 func (p *Parser) parseParametersTail() ast.FormalParameters {
-- 
2.43.0


From b1e38b3328603601d2dafe331e898e34b6c97779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:00 +0000
Subject: [PATCH 57/84] fix: parse arrow function bodies in their own async and
 generator context

---
 ecmascript/parser/expression.go | 13 ++++---------
 ecmascript/parser/statement.go  | 14 +++++++++++---
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index f975af2..cc41266 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -152,7 +152,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
 				m := ast.FunctionExpression{
 					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
-					Body:   p.parseBlockOrShorthand(),
+					Body:   p.parseBlockOrShorthand(true),
 					Arrow:  true,
 					Async:  true,
 				}
@@ -173,7 +173,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					params := p.convertExprToArrowParams(inner)
 					m := ast.FunctionExpression{
 						Params: params,
-						Body:   p.parseBlockOrShorthand(),
+						Body:   p.parseBlockOrShorthand(true),
 						Arrow:  true,
 						Async:  true,
 					}
@@ -257,7 +257,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			params := p.convertExprToArrowParams(inner)
 			m := ast.FunctionExpression{
 				Params: params,
-				Body:   p.parseBlockOrShorthand(),
+				Body:   p.parseBlockOrShorthand(false),
 				Arrow:  true,
 			}
 			m.SetStart(s)
@@ -281,12 +281,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Handle single-parameter bare parameter list.
 	if i, ok := n.(ast.Identifier); ok && p.atArrow(order) {
 		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-		var body ast.Node
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-			body = p.parseFunctionBody()
-		} else {
-			body = p.parseExpression(exprOrderAssign, 0)
-		}
+		body := p.parseBlockOrShorthand(false)
 		m := ast.FunctionExpression{
 			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
 			Body:   body,
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index b6106b3..99bea44 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -116,12 +116,20 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseBlockOrShorthand() ast.Node {
+func (p *Parser) parseBlockOrShorthand(async bool) ast.Node {
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = false
+
+	var n ast.Node
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-		return p.parseFunctionBody()
+		n = p.parseFunctionBody()
 	} else {
-		return p.parseExpression(exprOrderAssign, 0)
+		n = p.parseExpression(exprOrderAssign, 0)
 	}
+
+	p.ctx = ctx
+	return n
 }
 
 func (p *Parser) parseBlock() ast.BlockStatement {
-- 
2.43.0


From b56960eb370073da3929d26cac991b6a77cb4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 58/84] fix: expect the * of generator functions before their
 names

---
 ecmascript/parser/expression.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index cc41266..4ba70d6 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1152,15 +1152,15 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 // Parse traditional function expression
 func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
-	name := ""
-	if t.Type == lexer.TokenIdentifier {
-		name = t.Literal
-		t = p.s.Scan()
-	}
-
 	generator := false
 	if t.Type == lexer.TokenPunctuatorMult {
 		generator = true
+		t = p.ctx.keywordToIdentifier(p.s.Scan(), false)
+	}
+
+	name := ""
+	if t.Type == lexer.TokenIdentifier {
+		name = t.Literal
 		t = p.s.Scan()
 	}
 
-- 
2.43.0


From c50b6db7e8dc133fa183fb53c874d95ad93ca563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 59/84] fix: parse class bodies in strict mode

---
 ecmascript/parser/declaration.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 91fff4c..b3ba34f 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -82,6 +82,10 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 	n := []ast.Node{}
 
+	// Class bodies are always strict.
+	ctx := p.ctx
+	p.ctx.strictMode = true
+
 	for {
 		peek := p.s.PeekAt(0)
 		if peek.Type == lexer.TokenPunctuatorCloseBrace {
@@ -134,5 +138,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 		n = append(n, m)
 	}
 
+	p.ctx = ctx
+
 	return n
 }
-- 
2.43.0


From fc9f6eb23ebcca689bf1a2be704cda72c2da28ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 60/84] fix: require both semicolons in for headers

---
 ecmascript/parser/statement.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 99bea44..5a6ea83 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -451,7 +451,7 @@ func (p *Parser) parseForStatement() ast.Node {
 	// TODO: let, const, more of/in cases, etc.
 	if t.Type == lexer.TokenPunctuatorSemicolon {
 		n.Init = nil
-		p.expectSemicolon()
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	} else {
 		var v ast.Node
 		if t.Type == lexer.TokenKeywordVar {
@@ -486,12 +486,12 @@ func (p *Parser) parseForStatement() ast.Node {
 			return m
 		}
 		n.Init = v
-		p.expectSemicolon()
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	}
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorSemicolon {
 		n.Test = p.parseExpression(exprOrderComma, 0)
 	}
-	p.expectSemicolon()
+	p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
-- 
2.43.0


From a0263ea16cbb023810ff9b21cc004bb669ecfa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 61/84] fix: reject comma expressions as the subject of for-of
 loops

---
 ecmascript/parser/statement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 5a6ea83..cd607d5 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -477,7 +477,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			p.s.ScanExpect(lexer.TokenKeywordOf, "expected `of`")
 			m := ast.ForOfStatement{
 				Left:  v,
-				Right: p.parseExpression(exprOrderComma, 0),
+				Right: p.parseExpression(exprOrderAssign, 0),
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-- 
2.43.0


From 4c49e8dff5e2892165cbca2506da920d91a5cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 62/84] fix: make the semicolon after do/while statements
 optional

---
 ecmascript/parser/statement.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index cd607d5..861d4fd 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -421,7 +421,10 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	p.expectSemicolon()
+	// A semicolon is always inserted after a do/while statement.
+	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon {
+		p.s.Scan()
+	}
 	return n
 }
 
-- 
2.43.0


From d4e25ee5ad4096c4e76b762bca443263cc6f939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 63/84] fix: reject trailing input in expression mode

---
 ecmascript/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index ecf5288..5ee4bf0 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -60,7 +60,9 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 	case ModuleMode:
 		return p.parseModule(), nil
 	case ExpressionMode:
-		return p.parseExpression(exprOrderComma, 0), nil
+		n := p.parseExpression(exprOrderComma, 0)
+		p.s.ScanExpect(lexer.TokenNone, "unexpected token after expression")
+		return n, nil
 	default:
 		panic(fmt.Errorf("unexpected parse mode %d", opt.Mode))
 	}
-- 
2.43.0


From ba4a788492a98509a409986b9183de08b97f7453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 64/84] fix: keep the in operator out of variable initializers
 in for headers

---
 ecmascript/parser/declaration.go |  4 ++--
 ecmascript/parser/statement.go   | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index b3ba34f..350bd27 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -49,10 +49,10 @@ func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 
 	switch p.s.Scan().Type {
 	case lexer.TokenKeywordLet:
-		n.Declarations = p.parseVariableDeclarations()
+		n.Declarations = p.parseVariableDeclarations(0)
 		n.Kind = ast.LetDeclaration
 	case lexer.TokenKeywordConst:
-		n.Declarations = p.parseVariableDeclarations()
+		n.Declarations = p.parseVariableDeclarations(0)
 		n.Kind = ast.ConstDeclaration
 	default:
 		p.s.SyntaxError("expected lexical declaration")
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 861d4fd..b0942fe 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -197,26 +197,26 @@ func (p *Parser) parseDirective(stmt ast.Node) (ast.Node, bool) {
 }
 
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
-	n := p.parseVariableStatementNoSemicolon()
+	n := p.parseVariableStatementNoSemicolon(0)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
 }
 
-func (p *Parser) parseVariableStatementNoSemicolon() ast.VariableDeclaration {
+func (p *Parser) parseVariableStatementNoSemicolon(flags exprFlags) ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordVar, "expected variable declaration")
-	n.Declarations = p.parseVariableDeclarations()
+	n.Declarations = p.parseVariableDeclarations(flags)
 	return n
 }
 
-func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
+func (p *Parser) parseVariableDeclarations(flags exprFlags) []ast.VariableDeclarator {
 	v := []ast.VariableDeclarator{}
 	for {
-		v = append(v, p.parseVariableDeclaration())
+		v = append(v, p.parseVariableDeclaration(flags))
 		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorComma {
 			break
 		}
@@ -225,7 +225,7 @@ func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
 	return v
 }
 
-func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
+func (p *Parser) parseVariableDeclaration(flags exprFlags) ast.VariableDeclarator {
 	v := ast.VariableDeclarator{}
 
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
@@ -242,7 +242,7 @@ func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
 
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorAssign {
 		p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected `=`")
-		v.Init = p.parseExpression(exprOrderAssign, 0)
+		v.Init = p.parseExpression(exprOrderAssign, flags)
 	}
 
 	return v
@@ -458,7 +458,7 @@ func (p *Parser) parseForStatement() ast.Node {
 	} else {
 		var v ast.Node
 		if t.Type == lexer.TokenKeywordVar {
-			v = p.parseVariableStatementNoSemicolon()
+			v = p.parseVariableStatementNoSemicolon(exprFlagDisallowIn)
 		} else {
 			v = p.parseExpression(exprOrderComma, exprFlagDisallowIn)
 		}
-- 
2.43.0


From 3275abcdf56f6bdd190ced7a71ef951f136ce890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:01 +0000
Subject: [PATCH 65/84] fix: allow operators after an identifier named let

---
 ecmascript/parser/statement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index b0942fe..707c713 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -66,7 +66,7 @@ func (p *Parser) parseStatement() ast.Node {
 			} else if p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBrace {
 				// Object destructuring let (let {)
 				return nil
-			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), true).Type == lexer.TokenIdentifier {
+			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), false).Type == lexer.TokenIdentifier {
 				// Let with identifier (let ident)
 				return nil
 			}
-- 
2.43.0


From 83ece63e8c018e7fa9f90f4f61ce4d5d08d90ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 66/84] fix: record the end of a node before returning a copy
 of it

---
 ecmascript/parser/declaration.go |  4 ++--
 ecmascript/parser/expression.go  |  6 ++++--
 ecmascript/parser/module.go      |  6 ++++--
 ecmascript/parser/script.go      |  2 +-
 ecmascript/parser/statement.go   | 33 +++++++++++++++++---------------
 5 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 350bd27..938ae2c 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -45,7 +45,6 @@ func (p *Parser) parseLexicalDeclaration() ast.VariableDeclaration {
 func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	switch p.s.Scan().Type {
 	case lexer.TokenKeywordLet:
@@ -57,13 +56,13 @@ func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 	default:
 		p.s.SyntaxError("expected lexical declaration")
 	}
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseClassDeclaration() ast.Node {
 	n := ast.ClassDeclaration{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordClass, "expected class")
 	n.ID = p.scanIdent("expected class name")
@@ -74,6 +73,7 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 	}
 
 	n.Body = p.parseClassBody()
+	p.setEnd(&n)
 	return n
 }
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 4ba70d6..4a884aa 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -889,7 +889,6 @@ func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
 func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 	n := ast.ArrayExpression{}
 	n.SetStart(start)
-	defer p.setEnd(&n)
 
 	for {
 		for p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
@@ -928,6 +927,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 	}
 
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
+	p.setEnd(&n)
 	return n
 }
 
@@ -935,7 +935,6 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 	n := ast.ObjectExpression{}
 	n.SetStart(start)
-	defer p.setEnd(&n)
 
 	atEndOfPropertyKey := func() bool {
 		// Colon ends the property key when not using shorthand, otherwise
@@ -973,6 +972,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		// object after trailing comma.
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+			p.setEnd(&n)
 			return n
 		}
 
@@ -1025,6 +1025,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 				if flags&exprFlagMaybeArrow != 0 {
 					n.Properties = append(n.Properties, ast.Property{Key: parseRest()})
 					p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+					p.setEnd(&n)
 					return n
 				}
 
@@ -1141,6 +1142,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		// Object ends after a property.
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+			p.setEnd(&n)
 			return n
 		}
 
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 5d735ed..17fb0fd 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -13,7 +13,6 @@ func (p *Parser) parseModule() ast.Node {
 
 	m := ast.ModuleNode{}
 	p.setStart(&m)
-	defer p.setEnd(&m)
 
 	prologue := true
 	for {
@@ -27,6 +26,7 @@ func (p *Parser) parseModule() ast.Node {
 		m.Body = append(m.Body, stmt)
 	}
 
+	p.setEnd(&m)
 	return m
 }
 
@@ -46,7 +46,6 @@ func (p *Parser) parseModuleItem() ast.Node {
 func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	n := ast.ImportDeclNode{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordImport, "expected `import` declaration")
 
@@ -55,6 +54,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	case lexer.TokenLiteralString:
 		n.Module = t.StringConstant()
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 
 	case lexer.TokenIdentifier:
@@ -71,6 +71,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 			t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
 			n.Module = t.StringConstant()
 			p.expectSemicolon()
+			p.setEnd(&n)
 			return n
 
 		default:
@@ -128,6 +129,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 
 	p.expectSemicolon()
 
+	p.setEnd(&n)
 	return n
 }
 
diff --git a/ecmascript/parser/script.go b/ecmascript/parser/script.go
index 3673349..f98b33d 100644
--- a/ecmascript/parser/script.go
+++ b/ecmascript/parser/script.go
@@ -8,7 +8,6 @@ import (
 func (p *Parser) parseScript() ast.Node {
 	m := ast.ScriptNode{}
 	p.setStart(&m)
-	defer p.setEnd(&m)
 
 	prologue := true
 	for {
@@ -22,5 +21,6 @@ func (p *Parser) parseScript() ast.Node {
 		m.Body = append(m.Body, stmt)
 	}
 
+	p.setEnd(&m)
 	return m
 }
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 707c713..a2e33f6 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -135,7 +135,6 @@ func (p *Parser) parseBlockOrShorthand(async bool) ast.Node {
 func (p *Parser) parseBlock() ast.BlockStatement {
 	n := ast.BlockStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected block opening brace `{`")
 
@@ -147,6 +146,7 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 		n.Body = append(n.Body, p.parseStatementItem())
 	}
 
+	p.setEnd(&n)
 	return n
 }
 
@@ -154,7 +154,6 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 func (p *Parser) parseFunctionBody() ast.BlockStatement {
 	n := ast.BlockStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected block opening brace `{`")
 
@@ -175,6 +174,7 @@ func (p *Parser) parseFunctionBody() ast.BlockStatement {
 
 	p.ctx = ctx
 
+	p.setEnd(&n)
 	return n
 }
 
@@ -206,10 +206,10 @@ func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
 func (p *Parser) parseVariableStatementNoSemicolon(flags exprFlags) ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordVar, "expected variable declaration")
 	n.Declarations = p.parseVariableDeclarations(flags)
+	p.setEnd(&n)
 	return n
 }
 
@@ -387,16 +387,15 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 func (p *Parser) parseEmptyExpression() ast.Node {
 	n := ast.EmptyStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseIfStatement() ast.Node {
 	n := ast.IfStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordIf, "expected `if` statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` after `if`")
@@ -407,13 +406,13 @@ func (p *Parser) parseIfStatement() ast.Node {
 		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
 		n.Alternate = p.parseSubStatement()
 	}
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseDoWhileStatement() ast.Node {
 	n := ast.DoWhileStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordDo, "expected `do` statement")
 	n.Body = p.parseSubStatement()
@@ -425,26 +424,26 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon {
 		p.s.Scan()
 	}
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseWhileStatement() ast.Node {
 	n := ast.WhileStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordWhile, "expected `while` statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
 	n.Body = p.parseSubStatement()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseForStatement() ast.Node {
 	n := ast.ForStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordFor, "expected `for` statement")
 	// TODO: async
@@ -500,13 +499,13 @@ func (p *Parser) parseForStatement() ast.Node {
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
 	n.Body = p.parseSubStatement()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseSwitchStatement() ast.Node {
 	n := ast.SwitchStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordSwitch, "expected `switch` statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
@@ -555,6 +554,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+			p.setEnd(&n)
 			return n
 
 		default:
@@ -566,51 +566,54 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 func (p *Parser) parseContinueStatement() ast.Node {
 	n := ast.ContinueStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordContinue, "expected continue statement")
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
 	if t.NewLine || t.Type != lexer.TokenIdentifier {
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 	}
 	n.Label = p.scanIdent("expected identifier")
 
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseBreakStatement() ast.Node {
 	n := ast.BreakStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordBreak, "expected break statement")
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
 	if t.NewLine || t.Type != lexer.TokenIdentifier {
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 	}
 	n.Label = p.scanIdent("expected identifier")
 
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseReturnStatement() ast.Node {
 	n := ast.ReturnStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordReturn, "expected return statement")
 	t := p.s.PeekAt(0)
 	if t.NewLine || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace {
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 	}
 
 	n.Argument = p.parseExpression(exprOrderComma, 0)
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
@@ -622,7 +625,6 @@ func (p *Parser) parseWithStatement() ast.Node {
 func (p *Parser) parseThrowStatement() ast.Node {
 	n := ast.ThrowStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordThrow, "expected throw statement")
 	if p.s.PeekAt(0).NewLine {
@@ -631,13 +633,13 @@ func (p *Parser) parseThrowStatement() ast.Node {
 
 	n.Argument = p.parseExpression(exprOrderComma, 0)
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseTryStatement() ast.Node {
 	n := ast.TryStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordTry, "expected try statement")
 	n.Block = p.parseBlock()
@@ -661,6 +663,7 @@ func (p *Parser) parseTryStatement() ast.Node {
 	if n.Handler == nil && n.Finalizer == nil {
 		p.s.SyntaxError("expected `catch` or `finally` after `try` block")
 	}
+	p.setEnd(&n)
 	return n
 }
 
@@ -688,10 +691,10 @@ func (p *Parser) parseDebuggerStatement() ast.Node {
 func (p *Parser) parseLabelledStatement() ast.Node {
 	n := ast.LabeledStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	n.Label = p.scanIdent("expected statement label")
 	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
 	n.Body = p.parseSubStatement()
+	p.setEnd(&n)
 	return n
 }
-- 
2.43.0


From b05583c46326d768acfb61d9b2caa8edf48f0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:06 +0000
Subject: [PATCH 67/84] fix: record the spans of primary expressions

---
 ecmascript/parser/expression.go | 51 ++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 4a884aa..3fbe3ec 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -86,6 +86,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return n
 	}
 
+	wrapident := func(name string) ast.Node {
+		m := ast.Identifier{Name: name}
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
+		return m
+	}
+
 	wrapbinary := func(op ast.BinaryOperator, next exprOrder) ast.Node {
 		m := ast.BinaryExpression{Operator: op}
 		m.Left = n
@@ -137,7 +144,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 	// Primary Expression
 	case lexer.TokenKeywordThis:
-		n = ast.ThisExpression{}
+		m := ast.ThisExpression{}
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
+		n = m
 	case lexer.TokenIdentifier:
 		if t.Literal == "async" {
 			peek := p.s.PeekAt(0)
@@ -163,6 +173,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// Async arrow function with parameter list
 				// OR
 				// Call to function named "async"
+				callee := wrapident(t.Literal)
 				p.s.Scan()
 				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
@@ -182,28 +193,46 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					n = m
 				} else {
 					// This was a call to a function named "async"
-					n = ast.CallExpression{
-						Callee:    ast.Identifier{Name: t.Literal},
+					m := ast.CallExpression{
+						Callee:    callee,
 						Arguments: p.convertExprToCallParams(inner),
 					}
+					m.SetStart(s)
+					m.SetEnd(p.s.Location())
+					n = m
 				}
 			} else {
 				// Async as a non-reserved identifier
-				n = ast.Identifier{Name: t.Literal}
+				n = wrapident(t.Literal)
 			}
 		} else {
-			n = ast.Identifier{Name: t.Literal}
+			n = wrapident(t.Literal)
 		}
 	case lexer.TokenKeywordNull:
-		n = ast.NullLiteral{}
+		m := ast.NullLiteral{}
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
+		n = m
 	case lexer.TokenKeywordTrue:
-		n = ast.BooleanLiteral{Value: true, Raw: t.Literal}
+		m := ast.BooleanLiteral{Value: true, Raw: t.Literal}
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
+		n = m
 	case lexer.TokenKeywordFalse:
-		n = ast.BooleanLiteral{Value: false, Raw: t.Literal}
+		m := ast.BooleanLiteral{Value: false, Raw: t.Literal}
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
+		n = m
 	case lexer.TokenLiteralNumber:
-		n = ast.NumberLiteral{Value: t.NumberConstant(), Raw: t.Literal}
+		m := ast.NumberLiteral{Value: t.NumberConstant(), Raw: t.Literal}
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
+		n = m
 	case lexer.TokenLiteralString:
-		n = ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
+		m := ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
+		n = m
 	case lexer.TokenPunctuatorOpenBracket:
 		n = p.parseArrayTail(s, flags&exprFlagMaybeArrow)
 	case lexer.TokenPunctuatorOpenBrace:
@@ -231,6 +260,8 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			m.SuperClass = p.parseExpression(exprOrderLHSExpr, 0)
 		}
 		m.Body = p.parseClassBody()
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenLiteralRegExp:
 		m := ast.RegExpLiteral{
-- 
2.43.0


From 776602360ccfc1a60ddd0056f633083bbcd22dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 68/84] fix: end sequence expressions and catch clauses after
 their last child

---
 ecmascript/parser/expression.go | 3 ++-
 ecmascript/parser/statement.go  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 3fbe3ec..03cec99 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -705,12 +705,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` operator")
 			if seq, ok := n.(ast.SequenceExpression); ok {
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.SetEnd(p.s.Location())
 				n = seq
 			} else {
 				seq := ast.SequenceExpression{Expressions: []ast.Node{n}}
 				seq.SetStart(s)
-				seq.SetEnd(p.s.Location())
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.SetEnd(p.s.Location())
 				n = seq
 			}
 			continue
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index a2e33f6..41fb4ab 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -644,16 +644,16 @@ func (p *Parser) parseTryStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenKeywordTry, "expected try statement")
 	n.Block = p.parseBlock()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordCatch {
-		p.s.ScanExpect(lexer.TokenKeywordCatch, "expected catch statement")
 		h := ast.CatchClause{}
 		h.SetStart(p.s.Location())
+		p.s.ScanExpect(lexer.TokenKeywordCatch, "expected catch statement")
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
 			h.Param = p.parseCatchParameter()
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
 		}
-		h.SetEnd(p.s.Location())
 		h.Body = p.parseBlock()
+		h.SetEnd(p.s.Location())
 		n.Handler = h
 	}
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordFinally {
-- 
2.43.0


From 12802ba0eec09d5b7fa9c02b87ae7fc321639d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 69/84] fix: record the spans of methods, accessors, spread
 arguments and member names

---
 ecmascript/parser/declaration.go |  9 ++++++++-
 ecmascript/parser/expression.go  | 23 +++++++++++++----------
 ecmascript/parser/parser.go      |  2 +-
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 938ae2c..284103a 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -95,6 +95,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 		// TODO: implement member variables...
 		m := ast.MethodDefinition{}
+		p.setStart(&m)
 
 		// Static specifier
 		if peek.Type == lexer.TokenKeywordStatic {
@@ -115,10 +116,14 @@ func (p *Parser) parseClassBody() []ast.Node {
 		}
 
 		// Identifier (possibly computed)
+		pos := p.s.Location()
 		t := p.s.Scan()
 		switch t.Type {
 		case lexer.TokenIdentifier:
-			m.Key = ast.Identifier{Name: t.Literal}
+			key := ast.Identifier{Name: t.Literal}
+			key.SetStart(pos)
+			p.setEnd(&key)
+			m.Key = key
 
 		case lexer.TokenPunctuatorOpenBracket:
 			m.Computed = true
@@ -130,10 +135,12 @@ func (p *Parser) parseClassBody() []ast.Node {
 		}
 
 		fn := ast.FunctionExpression{}
+		fn.SetStart(p.s.Location())
 		p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
 		fn.Params, fn.Body = p.parseFunctionTail(false, false)
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
+		p.setEnd(&m)
 
 		n = append(n, m)
 	}
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 03cec99..a9b5562 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -349,12 +349,14 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
+			property := ast.Identifier{}
+			p.setStart(&property)
+			property.Name = p.forceScanIdent("expected property name after `.` operator")
+			p.setEnd(&property)
 			m := ast.MemberExpression{
 				Object:   n,
 				Computed: false,
-				Property: ast.Identifier{
-					Name: p.forceScanIdent("expected property name after `.` operator"),
-				},
+				Property: property,
 			}
 			m.SetStart(s)
 			m.SetEnd(p.s.Location())
@@ -1115,6 +1117,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case prop.Kind == ast.GetProperty || prop.Kind == ast.SetProperty:
 			// Getter/setter
 			fn := ast.FunctionExpression{}
+			fn.SetStart(p.s.Location())
 			p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
 			fn.Params, fn.Body = p.parseFunctionTail(false, false)
 			fn.SetEnd(p.s.Location())
@@ -1228,16 +1231,16 @@ func (p *Parser) parseArguments() []ast.Node {
 		return n
 	}
 	for {
-		spread := false
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
+			m := ast.SpreadElement{}
+			p.setStart(&m)
 			p.s.Scan()
-			spread = true
-		}
-		m := p.parseExpression(exprOrderAssign, 0)
-		if spread {
-			m = ast.SpreadElement{Argument: m}
+			m.Argument = p.parseExpression(exprOrderAssign, 0)
+			p.setEnd(&m)
+			n = append(n, m)
+		} else {
+			n = append(n, p.parseExpression(exprOrderAssign, 0))
 		}
-		n = append(n, m)
 		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `)`")
 		}
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 5ee4bf0..5ec84dc 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -122,7 +122,7 @@ func (p *Parser) setStart(s spannedNode) {
 	s.SetStart(p.s.Location())
 }
 
-// setEnd sets the end of a node; ideal for use with defer.
+// setEnd sets the end of a node to the current location.
 func (p *Parser) setEnd(s spannedNode) {
 	s.SetEnd(p.s.Location())
 }
-- 
2.43.0


From 6cff063400d4972dce1511e963aa051522010049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 70/84] fix: emit the superclass under its ESTree key

---
 ecmascript/ast/declaration.go | 2 +-
 ecmascript/ast/expressions.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 086fc8f..2957a09 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -71,7 +71,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 48ddf84..b6318db 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -480,7 +480,7 @@ func (n ClassExpression) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
-- 
2.43.0


From 173a0360c92aa5f0af18d6b9d624b21eee0eff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 71/84] fix: emit empty bodies as empty arrays

---
 ecmascript/ast/declaration.go | 1 +
 ecmascript/ast/expressions.go | 1 +
 ecmascript/ast/module.go      | 1 +
 ecmascript/ast/script.go      | 1 +
 ecmascript/ast/statement.go   | 5 +++--
 5 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 2957a09..4605d6f 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -83,6 +83,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index b6318db..810e6c0 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -492,6 +492,7 @@ func (n ClassExpression) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 4d7c0f6..90f5a39 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -14,6 +14,7 @@ func (n ModuleNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "module",
 	}
 	for _, stmt := range n.Body {
diff --git a/ecmascript/ast/script.go b/ecmascript/ast/script.go
index b6894ae..9f21331 100644
--- a/ecmascript/ast/script.go
+++ b/ecmascript/ast/script.go
@@ -14,6 +14,7 @@ func (n ScriptNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "script",
 	}
 	for _, stmt := range n.Body {
diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 8141a6e..88403d8 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -93,8 +93,9 @@ func (n VariableDeclaration) ESTree() interface{} {
 		Declarations []interface{} `json:"declarations"`
 		Kind         string        `json:"kind"`
 	}{
-		Type: "VariableDeclaration",
-		Kind: estreeVarKindMap[n.Kind], // TODO
+		Type:         "VariableDeclaration",
+		Declarations: []interface{}{},
+		Kind:         estreeVarKindMap[n.Kind], // TODO
 	}
 	for _, decl := range n.Declarations {
 		e.Declarations = append(e.Declarations, decl.ESTree())
-- 
2.43.0


From b2c67c21aebf5919e4981d8fbfe05765ec155e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 72/84] fix: emit the defaults of object pattern properties

---
 ecmascript/ast/statement.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 88403d8..36d88c6 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -240,6 +240,17 @@ func (n BindingProperty) ESTree() interface{} {
 	if v == nil {
 		v, shorthand = k, true
 	}
+	if n.Init != nil {
+		v = struct {
+			Type  string      `json:"type"`
+			Left  interface{} `json:"left"`
+			Right interface{} `json:"right"`
+		}{
+			Type:  "AssignmentPattern",
+			Left:  v,
+			Right: estree(n.Init),
+		}
+	}
 	return struct {
 		Type      string      `json:"type"`
 		Key       interface{} `json:"key"`
-- 
2.43.0


From 0d89859803b2f067a9a6547c4a2a6170bea0104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 73/84] fix: mark arrow functions with an expression body

---
 ecmascript/ast/expressions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 810e6c0..edfc86a 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -116,8 +116,12 @@ type FunctionExpression struct {
 // ESTree returns the corresponding ESTree representation for this node.
 func (n FunctionExpression) ESTree() interface{} {
 	typ := "FunctionExpression"
+	expression := n.Expression
 	if n.Arrow {
 		typ = "ArrowFunctionExpression"
+		if _, ok := n.Body.(BlockStatement); !ok {
+			expression = true
+		}
 	}
 	return struct {
 		Type       string      `json:"type"`
@@ -133,7 +137,7 @@ func (n FunctionExpression) ESTree() interface{} {
 		Params:     n.Params.ESTree(),
 		Body:       estree(n.Body),
 		Generator:  n.Generator,
-		Expression: n.Expression,
+		Expression: expression,
 		Async:      n.Async,
 	}
 }
-- 
2.43.0


From 02a0c011d284904412f99e1b8bc9b9c800a026b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 74/84] fix: emit `??` as a logical expression

---
 ecmascript/ast/expressions_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index 0d70dba..cd6d992 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -232,7 +232,7 @@ type BinaryExpression struct {
 // ESTree returns the corresponding ESTree representation for this node.
 func (n BinaryExpression) ESTree() interface{} {
 	nodeType := "BinaryExpression"
-	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp {
+	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp || n.Operator == BinaryCoalesceOp {
 		nodeType = "LogicalExpression"
 	}
 
-- 
2.43.0


From e069daebb2171d5c00c6dac05d823e4e5f7e46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 75/84] fix: emit class constructors with their ESTree kind

---
 ecmascript/ast/declaration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 4605d6f..96897a2 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -118,6 +118,10 @@ type MethodDefinition struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n MethodDefinition) ESTree() interface{} {
+	kind := estreeMethodKindMap[n.Kind]
+	if key, ok := n.Key.(Identifier); ok && key.Name == "constructor" && n.Kind == Method && !n.Computed && !n.Static {
+		kind = "constructor"
+	}
 	return struct {
 		Type     string      `json:"type"`
 		Key      interface{} `json:"key"`
@@ -130,7 +134,7 @@ func (n MethodDefinition) ESTree() interface{} {
 		Key:      estree(n.Key),
 		Computed: n.Computed,
 		Value:    estree(n.Value),
-		Kind:     estreeMethodKindMap[n.Kind],
+		Kind:     kind,
 		Static:   n.Static,
 	}
 }
-- 
2.43.0


From 1a910bbdd5d55405299cb80f0ab95940e8d22853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 76/84] fix: emit import declarations instead of panicking

---
 ecmascript/ast/module.go    | 62 ++++++++++++++++++++++++++++++++++++-
 ecmascript/parser/module.go |  7 +++--
 2 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 90f5a39..d750b05 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -52,11 +52,32 @@ type ImportDeclNode struct {
 
 	// Module to import; string literal.
 	Module string
+
+	// ModuleRaw is the source text of the string literal.
+	ModuleRaw string
 }
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n ImportDeclNode) ESTree() interface{} {
-	panic("unimplemented")
+	e := struct {
+		Type       string        `json:"type"`
+		Specifiers []interface{} `json:"specifiers"`
+		Source     interface{}   `json:"source"`
+	}{
+		Type:       "ImportDeclaration",
+		Specifiers: []interface{}{},
+		Source:     StringLiteral{Value: n.Module, Raw: n.ModuleRaw}.ESTree(),
+	}
+	if n.DefaultBinding != nil {
+		e.Specifiers = append(e.Specifiers, n.DefaultBinding.ESTree())
+	}
+	if n.NameSpace != nil {
+		e.Specifiers = append(e.Specifiers, n.NameSpace.ESTree())
+	}
+	for _, elem := range n.NamedImports {
+		e.Specifiers = append(e.Specifiers, elem.ESTree())
+	}
+	return e
 }
 
 // ImportDefaultBinding contains the default import identifier.
@@ -64,13 +85,52 @@ type ImportDefaultBinding struct {
 	Identifier string
 }
 
+// ESTree returns the corresponding ESTree representation for this node.
+func (n ImportDefaultBinding) ESTree() interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Local interface{} `json:"local"`
+	}{
+		Type:  "ImportDefaultSpecifier",
+		Local: estreeIdent(n.Identifier),
+	}
+}
+
 // NameSpaceImport contains the namespace import identifier.
 type NameSpaceImport struct {
 	Identifier string
 }
 
+// ESTree returns the corresponding ESTree representation for this node.
+func (n NameSpaceImport) ESTree() interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Local interface{} `json:"local"`
+	}{
+		Type:  "ImportNamespaceSpecifier",
+		Local: estreeIdent(n.Identifier),
+	}
+}
+
 // NamedImport contains an individual named import binding.
 type NamedImport struct {
 	Identifier string
 	AsBinding  string
 }
+
+// ESTree returns the corresponding ESTree representation for this node.
+func (n NamedImport) ESTree() interface{} {
+	local := n.AsBinding
+	if local == "" {
+		local = n.Identifier
+	}
+	return struct {
+		Type     string      `json:"type"`
+		Imported interface{} `json:"imported"`
+		Local    interface{} `json:"local"`
+	}{
+		Type:     "ImportSpecifier",
+		Imported: estreeIdent(n.Identifier),
+		Local:    estreeIdent(local),
+	}
+}
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 17fb0fd..89458b1 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -52,7 +52,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
 	switch t.Type {
 	case lexer.TokenLiteralString:
-		n.Module = t.StringConstant()
+		n.Module, n.ModuleRaw = t.StringConstant(), t.Literal
 		p.expectSemicolon()
 		p.setEnd(&n)
 		return n
@@ -69,7 +69,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 
 		case lexer.TokenKeywordFrom:
 			t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
-			n.Module = t.StringConstant()
+			n.Module, n.ModuleRaw = t.StringConstant(), t.Literal
 			p.expectSemicolon()
 			p.setEnd(&n)
 			return n
@@ -125,7 +125,8 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	}
 
 	p.s.ScanExpect(lexer.TokenKeywordFrom, "expected `from` clause in import declaration")
-	n.Module = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`").StringConstant()
+	t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
+	n.Module, n.ModuleRaw = t.StringConstant(), t.Literal
 
 	p.expectSemicolon()
 
-- 
2.43.0


From 288847c522c7e6742a27066c81448dc8f95d2626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 77/84] fix: report a missing source argument instead of
 panicking

---
 web/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/parser/parser.go b/web/parser/parser.go
index 7e5c482..b51ab43 100644
--- a/web/parser/parser.go
+++ b/web/parser/parser.go
@@ -19,6 +19,9 @@ func main() {
 }
 
 func ParseES(this js.Value, p []js.Value) interface{} {
+	if len(p) == 0 {
+		return map[string]interface{}{"error": "expected source code argument"}
+	}
 	n, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(strings.NewReader(p[0].String()), nil))).Parse(parser.ParseOptions{Mode: parser.ScriptMode})
 	if err != nil {
 		return map[string]interface{}{"error": err.Error()}
-- 
2.43.0


From 96e507991bb9238e1ae75ce4f8875b93121b779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 78/84] fix: do not use assignments, conditionals and sequences
 as operands

After an arrow function with a block body, the operators that follow were
applied to the assignment, conditional or sequence that ends in it.
---
 ecmascript/parser/expression.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index a9b5562..70fff0b 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -342,8 +342,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			return n
 		}
 
-		// An arrow function can not be an operand, except of a comma.
-		if fn, ok := n.(ast.FunctionExpression); ok && fn.Arrow && t.Type != lexer.TokenPunctuatorComma {
+		// Nothing that binds as loosely as an assignment can be an operand,
+		// except of a comma.
+		if isAssignmentLevel(n) && t.Type != lexer.TokenPunctuatorComma {
 			return n
 		}
 
@@ -739,6 +740,18 @@ func isLeftHandSide(n ast.Node) bool {
 	return true
 }
 
+// isAssignmentLevel returns true if the expression does not bind tighter than an
+// assignment.
+func isAssignmentLevel(n ast.Node) bool {
+	switch n := n.(type) {
+	case ast.FunctionExpression:
+		return n.Arrow
+	case ast.ConditionalExpression, ast.AssignmentExpression, ast.SequenceExpression:
+		return true
+	}
+	return false
+}
+
 // takesLeftHandSide returns true if the token is an operator with a left-hand
 // side expression as its left operand.
 func takesLeftHandSide(t lexer.TokenType) bool {
-- 
2.43.0


From 1de059f5579eb36193b374e9d73c9fd848556e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 79/84] fix: reject let declarations in for statements

`for (let [a] of b)` and `for (let of b)` were parsed as if `let` was a
variable.
---
 ecmascript/parser/statement.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 41fb4ab..add81e6 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -459,6 +459,12 @@ func (p *Parser) parseForStatement() ast.Node {
 		if t.Type == lexer.TokenKeywordVar {
 			v = p.parseVariableStatementNoSemicolon(exprFlagDisallowIn)
 		} else {
+			if t.Type == lexer.TokenKeywordLet {
+				switch p.ctx.keywordToIdentifier(p.s.PeekAt(1), false).Type {
+				case lexer.TokenIdentifier, lexer.TokenPunctuatorOpenBracket, lexer.TokenPunctuatorOpenBrace:
+					p.s.SyntaxError("`let` declarations are not supported in `for` statements")
+				}
+			}
 			v = p.parseExpression(exprOrderComma, exprFlagDisallowIn)
 		}
 		// for in/of
-- 
2.43.0


From 54dcbd7f27877a5c5b154ba2305b42b744372a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 80/84] fix: allow async and let as labels

---
 ecmascript/parser/statement.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index add81e6..0760fbf 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -59,8 +59,13 @@ func (p *Parser) parseStatement() ast.Node {
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordAsync && p.s.PeekAt(1).Type == lexer.TokenKeywordFunction && !p.s.PeekAt(1).NewLine {
 			return nil
 		}
+		if p.s.PeekAt(0).Type == lexer.TokenKeywordAsync && p.s.PeekAt(1).Type == lexer.TokenPunctuatorColon {
+			return p.parseLabelledStatement()
+		}
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordLet {
-			if p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBracket {
+			if p.s.PeekAt(1).Type == lexer.TokenPunctuatorColon {
+				return p.parseLabelledStatement()
+			} else if p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBracket {
 				// Array destructuring let (let [)
 				return nil
 			} else if p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBrace {
-- 
2.43.0


From 4aae43a86c096338386db27d1f736dbc4d01b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 81/84] fix: do not allow newlines in the head of async arrow
 functions

---
 ecmascript/parser/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 70fff0b..bf1092a 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -159,6 +159,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine && order <= exprOrderAssign {
 				// Async arrow function with bare parameter
 				p.s.Scan()
+				if p.s.PeekAt(0).NewLine {
+					p.s.SyntaxError("illegal newline before `=>`")
+				}
 				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
 				m := ast.FunctionExpression{
 					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
@@ -177,7 +180,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				p.s.Scan()
 				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
-				if p.atArrow(order) {
+				if !peek.NewLine && p.atArrow(order) {
 					// This was an arrow function after all. Fix up the parenthesized
 					// expression to be a parameter list.
 					p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-- 
2.43.0


From fd90c43fbc367c2564d0a9bee5d28cd9d63c68e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 82/84] fix: do not allow in operators in arrow functions of
 for initializers

---
 ecmascript/parser/expression.go | 8 ++++----
 ecmascript/parser/statement.go  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index bf1092a..45fd6b1 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -165,7 +165,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
 				m := ast.FunctionExpression{
 					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
-					Body:   p.parseBlockOrShorthand(true),
+					Body:   p.parseBlockOrShorthand(true, subflags),
 					Arrow:  true,
 					Async:  true,
 				}
@@ -187,7 +187,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					params := p.convertExprToArrowParams(inner)
 					m := ast.FunctionExpression{
 						Params: params,
-						Body:   p.parseBlockOrShorthand(true),
+						Body:   p.parseBlockOrShorthand(true, subflags),
 						Arrow:  true,
 						Async:  true,
 					}
@@ -291,7 +291,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			params := p.convertExprToArrowParams(inner)
 			m := ast.FunctionExpression{
 				Params: params,
-				Body:   p.parseBlockOrShorthand(false),
+				Body:   p.parseBlockOrShorthand(false, subflags),
 				Arrow:  true,
 			}
 			m.SetStart(s)
@@ -315,7 +315,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Handle single-parameter bare parameter list.
 	if i, ok := n.(ast.Identifier); ok && p.atArrow(order) {
 		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-		body := p.parseBlockOrShorthand(false)
+		body := p.parseBlockOrShorthand(false, subflags)
 		m := ast.FunctionExpression{
 			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
 			Body:   body,
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 0760fbf..b3001e5 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -121,7 +121,7 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseBlockOrShorthand(async bool) ast.Node {
+func (p *Parser) parseBlockOrShorthand(async bool, flags exprFlags) ast.Node {
 	ctx := p.ctx
 	p.ctx.async = async
 	p.ctx.generator = false
@@ -130,7 +130,7 @@ func (p *Parser) parseBlockOrShorthand(async bool) ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
 		n = p.parseFunctionBody()
 	} else {
-		n = p.parseExpression(exprOrderAssign, 0)
+		n = p.parseExpression(exprOrderAssign, flags)
 	}
 
 	p.ctx = ctx
-- 
2.43.0


From 005d01af0bd2d75d995fdfb5f34055576b06ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 83/84] fix: allow contextual keywords as rest parameters in
 patterns

---
 ecmascript/parser/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 45fd6b1..74d3598 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -951,7 +951,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		if flags&exprFlagMaybeArrow != 0 && p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			rest := ast.TemporalArrayRestElement{}
-			switch p.s.PeekAt(0).Type {
+			switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 			case lexer.TokenPunctuatorCloseBracket:
 				p.s.SyntaxError("expected expression, got ']'")
 			case lexer.TokenPunctuatorOpenBracket:
@@ -1006,7 +1006,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 	parseRest := func() ast.TemporalObjectRestElement {
 		rest := ast.TemporalObjectRestElement{}
-		switch p.s.PeekAt(0).Type {
+		switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.SyntaxError("expected expression, got '}'")
 		case lexer.TokenIdentifier:
-- 
2.43.0


From efcd880ec16dd02a852aa2204ccec9fdb53087ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:09 +0000
Subject: [PATCH 84/84] fix: evaluate legacy octal literals of any size in base
 8

Literals beyond 64 bits fell through to the decimal conversion.
---
 ecmascript/lexer/token.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index f5112dc..6786143 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -395,8 +395,9 @@ func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
 	// Legacy octal literals, such as 017.
 	if len(t.Literal) > 1 && strings.Trim(t.Literal, "01234567") == "" && t.Literal[0] == '0' {
-		if v, err := strconv.ParseUint(t.Literal, 8, 64); err == nil {
-			return float64(v)
+		if i, ok := new(big.Int).SetString(t.Literal, 8); ok {
+			v, _ := new(big.Float).SetInt(i).Float64()
+			return v
 		}
 	}
 	// Decimal literals too large to represent evaluate to infinity.
-- 
2.43.0

