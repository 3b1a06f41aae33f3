From 1ecad2fafb8c89692a4d3c33f818004bb8ad77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 01/48] fix: byte string literals no longer share the scanner
 buffer

The bytes of a byte string token were overwritten by the tokens scanned after it.
---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 36fb80c..47480bb 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -468,7 +468,7 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	if r == token.Error {
 		return token.Error
 	}
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
 	return token.Bytes
 }
 
@@ -570,6 +570,6 @@ func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 		s.buffer.WriteByte(byte(d1*16 + d2))
 	}
 
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
 	return token.Bytes
 }
-- 
2.43.0


From c39a42b3c0d39221c42c2d7f964dae1ccb7eb128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 02/48] fix: reject unicode escapes which are not valid code
 points

They were replaced silently, or taken for end of file or for an error without a message.
---
 parser/scanner/scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 47480bb..a170153 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/leftmike/maho/parser/token"
 	"github.com/leftmike/maho/types"
@@ -16,6 +17,7 @@ var (
 	errMissingQuote     = errors.New(`scanner: missing terminating "'"`)
 	errIncompleteEscape = errors.New("scanner: incomplete escape")
 	errZeroParameter    = errors.New("scanner: zero parameter")
+	errBadCodePoint     = errors.New("scanner: invalid unicode code point")
 )
 
 type Position struct {
@@ -426,6 +428,10 @@ func (s *Scanner) scanUnicode(sctx *ScanCtx, digits int) rune {
 		u = u*16 + d
 		digits -= 1
 	}
+	if u > unicode.MaxRune || !utf8.ValidRune(rune(u)) {
+		sctx.Error = errBadCodePoint
+		return token.Error
+	}
 	return rune(u)
 }
 
-- 
2.43.0


From af7c04e4d33e3456e6cde41944ebe86ddba7e91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 03/48] fix: scan a trailing - or / instead of dropping it at
 end of file

---
 parser/scanner/scanner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index a170153..3e53b0e 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -144,8 +144,8 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
-			return r2
+		} else if r2 == token.Error {
+			return token.Error
 		} else {
 			s.unreadRune()
 		}
@@ -166,8 +166,8 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
-			return r2
+		} else if r2 == token.Error {
+			return token.Error
 		} else {
 			s.unreadRune()
 		}
-- 
2.43.0


From 42e6286d04b928524b61b513969d5b89664c909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 04/48] fix: report the position where a token starts

The position of - and / was that of the character after them, and the end of a
statement or of the file had the position of some earlier token.
---
 parser/scanner/scanner.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 3e53b0e..b913e57 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -117,6 +117,8 @@ SkipWhitespace:
 
 	for {
 		if r < 0 {
+			sctx.Column = s.column
+			sctx.Line = s.line
 			return r
 		}
 		if !unicode.IsSpace(r) {
@@ -126,6 +128,9 @@ SkipWhitespace:
 		r = s.readRune(sctx)
 	}
 
+	sctx.Column = s.column
+	sctx.Line = s.line
+
 	if r == ';' {
 		return token.EndOfStatement
 	}
@@ -173,9 +178,6 @@ SkipWhitespace:
 		}
 	}
 
-	sctx.Column = s.column
-	sctx.Line = s.line
-
 	if r == 'e' || r == 'E' {
 		if s.readRune(sctx) == '\'' {
 			return s.scanString(sctx, true)
-- 
2.43.0


From 5579986be0542240dcd29ccec91466174490c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 05/48] fix: allow a comment directly after an operator

---
 parser/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index b913e57..dd1ae56 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -226,7 +226,7 @@ SkipWhitespace:
 	} else if token.IsOpRune(r) {
 		s.buffer.WriteRune(r)
 		r2 := s.readRune(sctx)
-		if r2 == '-' || r2 == '+' {
+		if r2 == '-' || r2 == '+' || r2 == '/' {
 			s.unreadRune()
 			return r
 		} else if token.IsOpRune(r2) {
-- 
2.43.0


From f3ef4753140183090623ab64746693dc54475872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 06/48] fix: do not swallow the character after a lone $

If it was the end of the statement, the next statement was lost as well.
---
 parser/scanner/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index dd1ae56..520556d 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -245,6 +245,7 @@ SkipWhitespace:
 	} else if r == '$' {
 		r = s.readRune(sctx)
 		if !unicode.IsDigit(r) {
+			s.unreadRune()
 			sctx.Error = fmt.Errorf("scanner: expected parameter %s", s.buffer.String())
 			return token.Error
 		}
-- 
2.43.0


From 2f19c86541b572778b8ec4c3426fe030b21bc967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 07/48] fix: parse a number with a sign as an operator and a
 number after an expression

The scanner makes the sign part of the number, so 1-2 and a+1 were rejected unless there was
a space before the number. Also, the smallest integer could not be written at all.
---
 parser/parser.go          | 15 +++++++++++++++
 parser/scanner/scanner.go | 18 ++++++++++--------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d65da6f..a27ed56 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"io"
+	"math"
 	"runtime"
 	"strconv"
 
@@ -1160,6 +1161,20 @@ func (p *Parser) optionalBinaryOp() (sql.Op, bool, bool) {
 		case types.OR:
 			return sql.OrOp, true, true
 		}
+	} else if (r == token.Integer || r == token.Float) && p.sctx.Sign != 0 {
+		// The sign of a number following an expression, such as a-1, is a binary operator.
+		op := sql.AddOp
+		if p.sctx.Sign == '-' {
+			if p.sctx.Integer == math.MinInt64 && r == token.Integer {
+				p.error("integer value out of range")
+			}
+			op = sql.SubtractOp
+			p.sctx.Integer = -p.sctx.Integer
+			p.sctx.Float = -p.sctx.Float
+		}
+		p.sctx.Sign = 0
+		p.unscan()
+		return op, true, false
 	}
 
 	p.unscan()
diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 520556d..e1d16a7 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -34,6 +34,7 @@ type ScanCtx struct {
 	Bytes      []byte
 	Integer    int64
 	Float      float64
+	Sign       rune // '+' or '-' if there is a sign as part of an Integer or Float
 	Position
 }
 
@@ -202,18 +203,22 @@ SkipWhitespace:
 	} else if unicode.IsLetter(r) || r == '_' {
 		return s.scanIdentifier(sctx, r)
 	} else if unicode.IsDigit(r) {
-		return s.scanNumber(sctx, r, 1)
+		sctx.Sign = 0
+		return s.scanNumber(sctx, r)
 	} else if r == '+' {
 		r = s.readRune(sctx)
 		if unicode.IsDigit(r) {
-			return s.scanNumber(sctx, r, 1)
+			sctx.Sign = '+'
+			return s.scanNumber(sctx, r)
 		}
 		s.unreadRune()
 		return '+'
 	} else if r == '-' {
 		r = s.readRune(sctx)
 		if unicode.IsDigit(r) {
-			return s.scanNumber(sctx, r, -1)
+			sctx.Sign = '-'
+			s.buffer.WriteRune('-')
+			return s.scanNumber(sctx, r)
 		}
 		s.unreadRune()
 		return '-'
@@ -308,7 +313,7 @@ func (s *Scanner) scanIdentifier(sctx *ScanCtx, r rune) rune {
 	return token.Identifier
 }
 
-func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
+func (s *Scanner) scanNumber(sctx *ScanCtx, r rune) rune {
 	dbl := false
 	for {
 		s.buffer.WriteRune(r)
@@ -337,12 +342,9 @@ func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 		return token.Error
 	}
 	if dbl {
-		sctx.Float *= float64(sign)
 		return token.Float
-	} else {
-		sctx.Integer *= sign
-		return token.Integer
 	}
+	return token.Integer
 }
 
 func (s *Scanner) scanParameter(sctx *ScanCtx, r rune) rune {
-- 
2.43.0


From f1f1d3e0aa71b30696c05308cbe94ab521ff3613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 08/48] fix: hex and octal escapes in byte strings denote
 single bytes

b'\xff' was two bytes: the UTF-8 encoding of the code point 255.
---
 parser/scanner/scanner.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index e1d16a7..5c75941 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -466,7 +466,7 @@ func (s *Scanner) scanOctal(sctx *ScanCtx, r rune) rune {
 }
 
 func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
-	r := s.scanQuotedConstant(sctx, esc)
+	r := s.scanQuotedConstant(sctx, esc, false)
 	if r == token.Error {
 		return token.Error
 	}
@@ -475,7 +475,7 @@ func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
 }
 
 func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
-	r := s.scanQuotedConstant(sctx, esc)
+	r := s.scanQuotedConstant(sctx, esc, true)
 	if r == token.Error {
 		return token.Error
 	}
@@ -483,8 +483,9 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	return token.Bytes
 }
 
-func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
+func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc, byts bool) rune {
 	for {
+		var single bool // a single byte, specified by value, of a bytes constant
 		r := s.readRune(sctx)
 		if r == token.EOF {
 			sctx.Error = errMissingQuote
@@ -536,12 +537,14 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				r = 13 // carriage return
 			case 'x':
 				r = s.scanHex(sctx)
+				single = byts
 			case 'u':
 				r = s.scanUnicode(sctx, 4)
 			case 'U':
 				r = s.scanUnicode(sctx, 8)
 			case '0', '1', '2', '3', '4', '5', '6', '7':
 				r = s.scanOctal(sctx, r)
+				single = byts
 			}
 
 			if r == token.EOF {
@@ -551,7 +554,11 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				return token.Error
 			}
 		}
-		s.buffer.WriteRune(r)
+		if single {
+			s.buffer.WriteByte(byte(r))
+		} else {
+			s.buffer.WriteRune(r)
+		}
 	}
 
 	return token.String
-- 
2.43.0


From 3efe2aec5b905d7f813aaaebf965fc462bbf6b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 09/48] fix: an empty statement does not consume the statement
 after it

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index a27ed56..d8d0765 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -246,6 +246,7 @@ func (p *Parser) expectEndOfStatement() {
 
 func (p *Parser) parseStmt() sql.Stmt {
 	if p.maybeToken(token.EndOfStatement) {
+		p.unscan()
 		return nil
 	}
 
-- 
2.43.0


From a65759037949ee6771359cedc2606b41b78ca057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 10/48] fix: skip the rest of a statement which starts with a
 bad token

The rest was parsed as if it were a statement of its own. Also, include the position in the
error, like for all other errors.
---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d8d0765..d8f3bf1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -34,7 +34,8 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 	t, err := p.scanRune()
 	if err != nil {
-		return nil, err
+		p.failed = true
+		return nil, p.scanError(err)
 	} else if t == token.EOF {
 		return nil, io.EOF
 	}
@@ -44,7 +45,7 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 		for {
 			t, err = p.scanRune()
 			if err != nil {
-				return nil, err
+				return nil, p.scanError(err)
 			} else if t == token.EOF {
 				return nil, io.EOF
 			} else if t == token.EndOfStatement {
@@ -70,6 +71,10 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 	return
 }
 
+func (p *Parser) scanError(err error) error {
+	return fmt.Errorf("parser: %s: %w", p.sctx.Position, err)
+}
+
 func (p *Parser) error(msg string) {
 	panic(fmt.Errorf("parser: %s: %s", p.sctx.Position, msg))
 }
-- 
2.43.0


From 3be4c9c645c78c9296537ea0bc2c03d2446740da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 11/48] fix: report unsupported statements instead of taking
 them for empty ones

---
 parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d8f3bf1..02548bf 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -329,6 +329,8 @@ func (p *Parser) parseStmt() sql.Stmt {
 			// DROP TABLE ...
 			return p.parseDropTable()
 		}
+	case types.DETACH, types.EXECUTE, types.PREPARE:
+		p.error(fmt.Sprintf("%s is not supported", p.sctx.Identifier))
 		/*
 			case types.EXECUTE:
 				return p.parseExecute()
-- 
2.43.0


From 7e2c2339e75d8948506187e1231a8e73b37d42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 12/48] fix: allow an expression to continue after IS NULL, IN,
 ANY, SOME, and ALL

For example, a IS NULL AND b and a IN (SELECT ...) OR b were rejected.
---
 parser/parser.go | 52 ++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 02548bf..22a2582 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1263,19 +1263,24 @@ func (p *Parser) parseSubExpr() sql.Expr {
 		p.error(fmt.Sprintf("expected an expression, got %s", p.got()))
 	}
 
-	op, ok, bop := p.optionalBinaryOp()
-	if !ok {
-		if p.optionalReserved(types.IN, types.NOT, types.IS) {
+	for {
+		op, ok, bop := p.optionalBinaryOp()
+		if !ok {
+			if !p.optionalReserved(types.IN, types.NOT, types.IS) {
+				return e
+			}
+
 			switch p.sctx.Identifier {
 			case types.IN:
-				return &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
+				e = &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
 					Stmt: p.parseSubquery()}
 			case types.NOT:
-				if p.optionalReserved(types.IN) {
-					return &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e,
-						Stmt: p.parseSubquery()}
+				if !p.optionalReserved(types.IN) {
+					p.unscan()
+					return e
 				}
-				p.unscan()
+				e = &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e,
+					Stmt: p.parseSubquery()}
 			case types.IS:
 				var not bool
 				if p.optionalReserved(types.NOT) {
@@ -1285,29 +1290,24 @@ func (p *Parser) parseSubExpr() sql.Expr {
 
 				e = &sql.SExpr{Name: types.ID("is_null", false), Args: []sql.Expr{e}}
 				if not {
-					return &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
+					e = &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
 				}
-				return e
 			}
-		}
-
-		return e
-	}
-
-	if p.optionalReserved(types.ANY, types.SOME, types.ALL) {
-		if !bop {
-			p.error("expected boolean binary operator")
-		}
-		var subqueryOp sql.SubqueryOp
-		if p.sctx.Identifier == types.ALL {
-			subqueryOp = sql.All
+		} else if p.optionalReserved(types.ANY, types.SOME, types.ALL) {
+			if !bop {
+				p.error("expected boolean binary operator")
+			}
+			var subqueryOp sql.SubqueryOp
+			if p.sctx.Identifier == types.ALL {
+				subqueryOp = sql.All
+			} else {
+				subqueryOp = sql.Any
+			}
+			e = &sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()}
 		} else {
-			subqueryOp = sql.Any
+			return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
 		}
-		return &sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()}
 	}
-
-	return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
 }
 
 func (p *Parser) parseSubquery() sql.Stmt {
-- 
2.43.0


From 0d49b857f72918bba376e0cb6f28115881cb7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 13/48] fix: apply operator precedence to the expression
 compared with a subquery

(1 * 2 + 3) IN (SELECT ...) was grouped as 1 * (2 + 3).
---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 22a2582..55ebdb5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1124,6 +1124,10 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 		for idx, arg := range e.Args {
 			e.Args[idx] = adjustPrecedence(arg)
 		}
+	case *sql.Subquery:
+		if e.Expr != nil {
+			e.Expr = adjustPrecedence(e.Expr)
+		}
 	}
 
 	return e
-- 
2.43.0


From 0ef52229b2134d9d06f5595d44e32df5f6ce05a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 14/48] fix: adjust the precedence of each operand of an
 expression once

Every rotation adjusted the operands again, which took time exponential in the nesting of
expressions such as 1 * (1 * (1 * (...) + 1) + 1) + 1.
---
 parser/parser.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 55ebdb5..925954d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1093,6 +1093,26 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 	switch e := e.(type) {
 	case *sql.UnaryExpr:
 		e.Expr = adjustPrecedence(e.Expr)
+	case *sql.BinaryExpr:
+		e.Left = adjustPrecedence(e.Left)
+		e.Right = adjustPrecedence(e.Right)
+	case *sql.SExpr:
+		for idx, arg := range e.Args {
+			e.Args[idx] = adjustPrecedence(arg)
+		}
+	case *sql.Subquery:
+		if e.Expr != nil {
+			e.Expr = adjustPrecedence(e.Expr)
+		}
+	}
+
+	return rotateExpr(e)
+}
+
+// rotateExpr adjusts the precedence of an expression with operands that are already adjusted.
+func rotateExpr(e sql.Expr) sql.Expr {
+	switch e := e.(type) {
+	case *sql.UnaryExpr:
 		if e.Op == sql.NoOp {
 			return e
 		}
@@ -1100,33 +1120,22 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 		// - {2 * 3}  --> {- 2} * 3
 		if be, ok := e.Expr.(*sql.BinaryExpr); ok && opPrecedence[be.Op] < opPrecedence[e.Op] {
 			e.Expr = be.Left
-			be.Left = e
-			return adjustPrecedence(be)
+			be.Left = rotateExpr(e)
+			return rotateExpr(be)
 		}
 	case *sql.BinaryExpr:
-		e.Left = adjustPrecedence(e.Left)
-		e.Right = adjustPrecedence(e.Right)
-
 		// 1 * {2 + 3} --> {1 * 2} + 3
 		if be, ok := e.Right.(*sql.BinaryExpr); ok && opPrecedence[be.Op] <= opPrecedence[e.Op] {
 			e.Right = be.Left
-			be.Left = e
-			return adjustPrecedence(be)
+			be.Left = rotateExpr(e)
+			return rotateExpr(be)
 		}
 
 		// {1 + 2} * 3 --> 1 + {2 * 3}
 		if be, ok := e.Left.(*sql.BinaryExpr); ok && opPrecedence[be.Op] < opPrecedence[e.Op] {
 			e.Left = be.Right
-			be.Right = e
-			return adjustPrecedence(be)
-		}
-	case *sql.SExpr:
-		for idx, arg := range e.Args {
-			e.Args[idx] = adjustPrecedence(arg)
-		}
-	case *sql.Subquery:
-		if e.Expr != nil {
-			e.Expr = adjustPrecedence(e.Expr)
+			be.Right = rotateExpr(e)
+			return rotateExpr(be)
 		}
 	}
 
-- 
2.43.0


From 602de37be1781ed2c488aed1a1e0091e13d5c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 15/48] fix: reject NULL as the value in SET and USE

It crashed the parser.
---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 925954d..775fa8e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1704,7 +1704,7 @@ func (p *Parser) parseSet() sql.Stmt {
 	}
 	e := p.parseExpr()
 	l, ok := e.(sql.Literal)
-	if !ok {
+	if !ok || l.Value == nil {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
@@ -1882,7 +1882,7 @@ func (p *Parser) parseUse() sql.Stmt {
 
 	e := p.parseExpr()
 	l, ok := e.(sql.Literal)
-	if !ok {
+	if !ok || l.Value == nil {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
-- 
2.43.0


From 21e311c03874de8420f6a1b7fc2795ffba5647db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 16/48] fix: print SELECT without FROM and HAVING without GROUP
 BY

---
 parser/sql/query.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index ca2eb8b..11bf3ef 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -260,7 +260,9 @@ func (stmt *Select) String() string {
 			buf.WriteString(sr.String())
 		}
 	}
-	fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	if stmt.From != nil {
+		fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
 	}
@@ -272,9 +274,9 @@ func (stmt *Select) String() string {
 			}
 			buf.WriteString(e.String())
 		}
-		if stmt.Having != nil {
-			buf.WriteString(fmt.Sprintf(" HAVING %s", stmt.Having))
-		}
+	}
+	if stmt.Having != nil {
+		buf.WriteString(fmt.Sprintf(" HAVING %s", stmt.Having))
 	}
 	if stmt.OrderBy != nil {
 		buf.WriteString(" ORDER BY ")
-- 
2.43.0


From 4d67a810272d1028887e2eeb3dcc50ef62450332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 17/48] fix: print DEFAULT in INSERT and UPDATE

It crashed for INSERT.
---
 parser/sql/query.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index 11bf3ef..f9425ac 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -138,7 +138,11 @@ func (stmt *InsertValues) String() string {
 			if j > 0 {
 				buf.WriteString(", ")
 			}
-			buf.WriteString(v.String())
+			if v == nil {
+				buf.WriteString("DEFAULT")
+			} else {
+				buf.WriteString(v.String())
+			}
 		}
 
 		buf.WriteRune(')')
@@ -169,7 +173,11 @@ func (stmt *Update) String() string {
 		if i > 0 {
 			buf.WriteString(", ")
 		}
-		fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
+		if cu.Expr == nil {
+			fmt.Fprintf(&buf, "%s = DEFAULT", cu.Column)
+		} else {
+			fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
+		}
 	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
-- 
2.43.0


From 4dfaad2296593207fd218e2d2bf43043a40a7ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 18/48] fix: print COPY without columns and EXPLAIN VERBOSE

---
 parser/sql/query.go | 16 ++++++++++------
 parser/sql/stmt.go  |  3 +++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index f9425ac..15bdda1 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -69,14 +69,18 @@ type Copy struct {
 
 func (stmt *Copy) String() string {
 	var buf strings.Builder
-	fmt.Fprintf(&buf, "COPY %s (", stmt.Table)
-	for i, col := range stmt.Columns {
-		if i > 0 {
-			buf.WriteString(", ")
+	fmt.Fprintf(&buf, "COPY %s", stmt.Table)
+	if stmt.Columns != nil {
+		buf.WriteString(" (")
+		for i, col := range stmt.Columns {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
+			buf.WriteString(col.String())
 		}
-		buf.WriteString(col.String())
+		buf.WriteRune(')')
 	}
-	buf.WriteString(") FROM STDIN")
+	buf.WriteString(" FROM STDIN")
 
 	if stmt.Delimiter != '\t' {
 		fmt.Fprintf(&buf, " DELIMITER '%c'", stmt.Delimiter)
diff --git a/parser/sql/stmt.go b/parser/sql/stmt.go
index 3cb103a..915a967 100644
--- a/parser/sql/stmt.go
+++ b/parser/sql/stmt.go
@@ -67,6 +67,9 @@ type Explain struct {
 }
 
 func (stmt *Explain) String() string {
+	if stmt.Verbose {
+		return fmt.Sprintf("EXPLAIN VERBOSE %s", stmt.Stmt)
+	}
 	return fmt.Sprintf("EXPLAIN %s", stmt.Stmt)
 }
 
-- 
2.43.0


From 7cac748cb8da64f2709be030074435f45e7e16fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 19/48] fix: print database options in a fixed order

---
 parser/sql/datadef.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/sql/datadef.go b/parser/sql/datadef.go
index aa3aed1..6defd03 100644
--- a/parser/sql/datadef.go
+++ b/parser/sql/datadef.go
@@ -2,6 +2,7 @@ package sql
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/leftmike/maho/types"
@@ -219,14 +220,23 @@ type CreateDatabase struct {
 	Options  map[types.Identifier]string
 }
 
+func writeOptions(buf *strings.Builder, options map[types.Identifier]string) {
+	opts := make([]string, 0, len(options))
+	for opt, val := range options {
+		opts = append(opts, fmt.Sprintf(" %s = %s", opt, val))
+	}
+	sort.Strings(opts)
+	for _, opt := range opts {
+		buf.WriteString(opt)
+	}
+}
+
 func (stmt *CreateDatabase) String() string {
 	var buf strings.Builder
 	fmt.Fprintf(&buf, "CREATE DATABASE %s", stmt.Database)
 	if len(stmt.Options) > 0 {
 		buf.WriteString(" WITH")
-		for opt, val := range stmt.Options {
-			fmt.Fprintf(&buf, " %s = %s", opt, val)
-		}
+		writeOptions(&buf, stmt.Options)
 	}
 	return buf.String()
 }
@@ -358,9 +368,7 @@ func (stmt *DropDatabase) String() string {
 	buf.WriteString(stmt.Database.String())
 	if len(stmt.Options) > 0 {
 		buf.WriteString(" WITH")
-		for opt, val := range stmt.Options {
-			fmt.Fprintf(&buf, " %s = %s", opt, val)
-		}
+		writeOptions(&buf, stmt.Options)
 	}
 	return buf.String()
 }
-- 
2.43.0


From d3bd40c7abd90e23f09fe1b347b254afca5be643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 20/48] fix: print strings containing quotes as they are
 written in SQL

---
 types/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/value.go b/types/value.go
index 9ebb7fe..fca3171 100644
--- a/types/value.go
+++ b/types/value.go
@@ -141,7 +141,7 @@ func (f Float64Value) compare(val Value) int {
 type StringValue string
 
 func (s StringValue) String() string {
-	return fmt.Sprintf("'%s'", string(s)) // XXX
+	return fmt.Sprintf("'%s'", strings.ReplaceAll(string(s), "'", "''"))
 }
 
 func (_ StringValue) order() int {
-- 
2.43.0


From bf0f8ee3826c9c2a311749b6b2852ae0ddae971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 21/48] fix: data race between printing and creating
 identifiers

A concurrent map read and map write is a fatal error.
---
 types/identifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index 9f2c95a..b41e84b 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -320,6 +320,9 @@ func ID(s string, quoted bool) Identifier {
 }
 
 func (id Identifier) String() string {
+	mutex.RLock()
+	defer mutex.RUnlock()
+
 	return names[id]
 }
 
-- 
2.43.0


From f01fc4a6d8d0208d49ac483e0e82ceb1e4aeca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 22/48] fix: decode keywords which are not reserved to the
 identifier encoded

TEXT, PATH, BYTES, INT and so on were decoded to a different (quoted) identifier: a table with
such a column could not be opened.
---
 types/identifier.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index b41e84b..6116a92 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -346,10 +346,11 @@ func (id *Identifier) GobDecode(val []byte) error {
 }
 
 func (id Identifier) GobEncode() ([]byte, error) {
-	if id.IsReserved() {
-		return append([]byte{1}, []byte(id.String())...), nil
+	s := id.String()
+	if kid, ok := keywords[s]; ok && kid == id {
+		return append([]byte{1}, []byte(s)...), nil
 	}
-	return append([]byte{0}, []byte(id.String())...), nil
+	return append([]byte{0}, []byte(s)...), nil
 }
 
 func init() {
-- 
2.43.0


From 7683e4c4b28dcf51d5c77029e70bc614ccb22581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 23/48] fix: limit the length of names after folding case and
 without splitting a rune

Folding case can make a name longer: the engine panicked storing a name longer than the limit.
---
 types/identifier.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index 6116a92..36a0aaf 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"strings"
 	"sync"
+	"unicode/utf8"
 )
 
 type Identifier int
@@ -275,6 +276,19 @@ var (
 	mutex          sync.RWMutex
 )
 
+// truncateName limits a name to MaxIdentifier bytes without splitting a rune.
+func truncateName(s string) string {
+	if len(s) <= MaxIdentifier {
+		return s
+	}
+
+	n := MaxIdentifier
+	for n > MaxIdentifier-utf8.UTFMax && !utf8.RuneStart(s[n]) {
+		n -= 1
+	}
+	return s[:n]
+}
+
 func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 	if !quoted {
 		if id, ok := keywords[strings.ToUpper(s)]; ok {
@@ -283,6 +297,7 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 
 		s = strings.ToLower(s)
 	}
+	s = truncateName(s)
 
 	if id, ok := identifiers[s]; ok {
 		return id, true
@@ -299,10 +314,6 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 }
 
 func ID(s string, quoted bool) Identifier {
-	if len(s) > MaxIdentifier {
-		s = s[:MaxIdentifier]
-	}
-
 	mutex.RLock()
 	id, ok := lookupID(s, quoted, false)
 	mutex.RUnlock()
-- 
2.43.0


From 0c56c9652b1deeaf64a5d68677ccefe7583e945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 24/48] fix: compare numbers exactly and order NaN

NaN was equal to every number, and large integers were rounded when compared with floats: the
order was not transitive.
---
 types/value.go | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/types/value.go b/types/value.go
index fca3171..76bb519 100644
--- a/types/value.go
+++ b/types/value.go
@@ -98,12 +98,7 @@ func (i Int64Value) compare(val Value) int {
 		}
 		return 0
 	case Float64Value:
-		if Float64Value(i) < v {
-			return -1
-		} else if Float64Value(i) > v {
-			return 1
-		}
-		return 0
+		return compareInt64Float64(int64(i), float64(v))
 	}
 	panic(fmt.Sprintf("unexpected type for value: %T: %v", val, val))
 }
@@ -121,23 +116,50 @@ func (_ Float64Value) order() int {
 func (f Float64Value) compare(val Value) int {
 	switch v := val.(type) {
 	case Int64Value:
-		if f < Float64Value(v) {
-			return -1
-		} else if f > Float64Value(v) {
-			return 1
-		}
-		return 0
+		return -compareInt64Float64(int64(v), float64(f))
 	case Float64Value:
 		if f < v {
 			return -1
 		} else if f > v {
 			return 1
+		} else if f == v {
+			return 0
 		}
-		return 0
+
+		// NaN is equal to NaN and less than all other numbers, like for encode.MakeKey.
+		fnan, vnan := math.IsNaN(float64(f)), math.IsNaN(float64(v))
+		if fnan && vnan {
+			return 0
+		} else if fnan {
+			return -1
+		}
+		return 1
 	}
 	panic(fmt.Sprintf("unexpected type for value: %T: %v", val, val))
 }
 
+// compareInt64Float64 compares exactly, without rounding the integer to a float; NaN is less
+// than all integers.
+func compareInt64Float64(i int64, f float64) int {
+	if math.IsNaN(f) || f < -(1<<63) {
+		return 1
+	} else if f >= 1<<63 {
+		return -1
+	}
+
+	t := math.Trunc(f)
+	if i < int64(t) {
+		return -1
+	} else if i > int64(t) {
+		return 1
+	} else if t < f {
+		return -1
+	} else if t > f {
+		return 1
+	}
+	return 0
+}
+
 type StringValue string
 
 func (s StringValue) String() string {
-- 
2.43.0


From ab27bd536421e85503c77c5e8ac26f946213d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 25/48] fix: report floats which are out of range when
 converting to an integer

NaN and large values were converted to arbitrary integers.
---
 types/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/value.go b/types/value.go
index 76bb519..0afa82c 100644
--- a/types/value.go
+++ b/types/value.go
@@ -306,6 +306,10 @@ func CastValue(vt ValueType, val Value) (Value, error) {
 		}
 	case Int64Type:
 		if f, ok := val.(Float64Value); ok {
+			// This is false for NaN as well.
+			if !(f >= -(1<<63) && f < 1<<63) {
+				return nil, fmt.Errorf("expected an integer: %v: value out of range", val)
+			}
 			return Int64Value(f), nil
 		} else if s, ok := val.(StringValue); ok {
 			i, err := strconv.ParseInt(strings.Trim(string(s), " \t\n"), 10, 64)
-- 
2.43.0


From 5a668df0a4a5473dd68a7a469a1dbbfa3ebc23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 26/48] fix: basic: skip NULL in scans with a predicate

It crashed.
---
 storage/basic/basic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 0380e21..a6b50f4 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -348,7 +348,8 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 				return false
 			}
 
-			if predFn != nil && !predFn(it.row[predCol]) {
+			// NULL never satisfies a predicate.
+			if predFn != nil && (it.row[predCol] == nil || !predFn(it.row[predCol])) {
 				return true
 			}
 
-- 
2.43.0


From 9f27e76c2a6238527e5234ce476ed740444e20ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 27/48] fix: basic: delete the rows of a dropped table

They came back when a table with the same number was created.
---
 storage/basic/basic.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index a6b50f4..9ae890f 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -220,7 +220,21 @@ func (tx *transaction) DropTable(ctx context.Context, tid storage.TableId) error
 		panic(fmt.Sprintf("basic: unable to delete table type: %d", tid))
 	}
 
-	// XXX: delete all rows in the table
+	rel := toRelationId(tid, primaryIndexId)
+	var items []item
+	tx.tree.AscendGreaterOrEqual(item{rel: rel},
+		func(it item) bool {
+			if it.rel != rel {
+				return false
+			}
+
+			items = append(items, it)
+			return true
+		})
+	for _, it := range items {
+		tx.tree.Delete(it)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 9cf954c4d5e96046fc1db401103a703e30ff4926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 28/48] fix: basic: a failing insert leaves none of its rows
 behind

---
 storage/basic/basic.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 9ae890f..68b5440 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -382,6 +382,18 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 	tbl.tx.forWrite()
 
+	var items []item
+	err := tbl.insertRows(rows, &items)
+	if err != nil {
+		// All of the rows are inserted or none of them.
+		for _, it := range items {
+			tbl.tx.tree.Delete(it)
+		}
+	}
+	return err
+}
+
+func (tbl *table) insertRows(rows []types.Row, items *[]item) error {
 	rel := toRelationId(tbl.tid, primaryIndexId)
 	for _, row := range rows {
 		row, err := types.ConvertRow(tbl.tt.ColumnTypes, row)
@@ -391,16 +403,21 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 
 		it := rowToItem(rel, tbl.tt.Key, row)
 		if tbl.tx.tree.Has(it) {
-			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
-				tbl.tt.Name, row)
+			return tbl.duplicateKey(row)
 		}
 
 		tbl.tx.tree.ReplaceOrInsert(it)
+		*items = append(*items, it)
 	}
 
 	return nil
 }
 
+func (tbl *table) duplicateKey(row types.Row) error {
+	return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
+		tbl.tt.Name, row)
+}
+
 func (rs *rows) Next(ctx context.Context) (types.Row, error) {
 	if rs.next < 0 {
 		panic(fmt.Sprintf("basic: next on closed rows for table %d", rs.tbl.tid))
-- 
2.43.0


From 7aeb0fb0fae2f29e7284a2b048c5a09c17ff0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 29/48] fix: basic: convert and check the values of an update

An update could store values of the wrong type, values that are too large, and NULL in columns
which must not be NULL.
---
 storage/basic/basic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 68b5440..f2eceb5 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -472,7 +472,11 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	}
 	row := append(make([]types.Value, 0, len(it.row)), it.row...)
 	for idx, col := range cols {
-		row[col] = vals[idx]
+		val, err := types.ConvertValue(rr.tbl.tt.ColumnTypes[col], vals[idx])
+		if err != nil {
+			return err
+		}
+		row[col] = val
 	}
 
 	rr.tbl.tx.forWrite()
-- 
2.43.0


From c7b6a1f3a5554f2c1fdf6de37fea067c0cd75284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 30/48] fix: basic: an update which fails because of a
 duplicate key keeps the row

The row was deleted.
---
 storage/basic/basic.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index f2eceb5..2f00a83 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -482,14 +482,16 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	rr.tbl.tx.forWrite()
 
 	if types.ColumnKeyUpdated(rr.tbl.tt.Key, cols) {
-		err := rr.Delete(ctx)
-		if err != nil {
-			return err
+		nit := rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row)
+		if !bytes.Equal(nit.key, rr.key) && rr.tbl.tx.tree.Has(nit) {
+			return rr.tbl.duplicateKey(row)
 		}
-		err = rr.tbl.Insert(ctx, []types.Row{row})
+
+		err := rr.Delete(ctx)
 		if err != nil {
 			return err
 		}
+		rr.tbl.tx.tree.ReplaceOrInsert(nit)
 	} else {
 		rr.tbl.tx.tree.ReplaceOrInsert(
 			rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row))
-- 
2.43.0


From f5e5378ddac9891068e78a2c98399815cdca92d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 31/48] fix: read NULLable typed table fields of every
 supported type

Pointers to anything but bool, string, float64, and int64 (*int32, for example) could be stored
but crashed when read.
---
 engine/typedtable.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index e1a429a..fdf24fd 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -99,8 +99,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetBool(bool(b))
 			} else {
-				b := bool(b)
-				fval.Set(reflect.ValueOf(&b))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetBool(bool(b))
 			}
 		case types.StringType:
 			s, ok := row[cdx].(types.StringValue)
@@ -110,8 +110,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetString(string(s))
 			} else {
-				s := string(s)
-				fval.Set(reflect.ValueOf(&s))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetString(string(s))
 			}
 		case types.BytesType:
 			b, ok := row[cdx].(types.BytesValue)
@@ -127,8 +127,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetFloat(float64(f))
 			} else {
-				f := float64(f)
-				fval.Set(reflect.ValueOf(&f))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetFloat(float64(f))
 			}
 		case types.Int64Type:
 			i, ok := row[cdx].(types.Int64Value)
@@ -138,8 +138,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetInt(int64(i))
 			} else {
-				i := int64(i)
-				fval.Set(reflect.ValueOf(&i))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetInt(int64(i))
 			}
 		default:
 			panic(fmt.Sprintf("typed table: unexpected column type: %#v %d", ct, ct.Type))
-- 
2.43.0


From 94a8d65395cec2d32779cd51637532cb158afe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 32/48] fix: report an error for a table definition which is
 too large to be stored

It crashed.
---
 engine/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index 188d1f2..8323ee3 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -84,6 +84,8 @@ const (
 	schemasTableId
 	tablesTableId
 
+	maxTableTypeSize = 8192 // the size of tablesRow.Type
+
 	maxReservedTableId  storage.TableId = 511
 	nextTableIdSequence                 = "next_table_id"
 )
@@ -398,6 +400,8 @@ func (tx *transaction) CreateTable(ctx context.Context, tn types.TableName,
 	buf, err := tt.Encode()
 	if err != nil {
 		return err
+	} else if len(buf) > maxTableTypeSize {
+		return fmt.Errorf("engine: table definition too large: %s", tn)
 	}
 	tid, err := tx.nextTableId(ctx)
 	if err != nil {
-- 
2.43.0


From b558691499101e5e8163974b30ef81c7e6301025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 33/48] fix: drop the schemas and tables of a dropped database
 or schema

They came back when a database or schema with the same name was created.
---
 engine/engine.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index 8323ee3..22b9c3d 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -178,8 +178,34 @@ func (eng *engine) DropDatabase(dn types.Identifier, ifExists bool) error {
 				return fmt.Errorf("engine: database not found: %s", dn)
 			}
 
-			// XXX: delete schemas and tables etc in the database
-			return nil
+			err = TypedTableDelete(ctx, tx, schemasTypedInfo,
+				&schemasRow{
+					Database: dr.Database,
+				}, nil,
+				func(row types.Row) (bool, error) {
+					var sr schemasRow
+					schemasTypedInfo.RowToStruct(row, &sr)
+					if sr.Database != dr.Database {
+						return false, io.EOF
+					}
+					return true, nil
+				})
+			if err != nil {
+				return err
+			}
+
+			return TypedTableDelete(ctx, tx, tablesTypedInfo,
+				&tablesRow{
+					Database: dr.Database,
+				}, nil,
+				func(row types.Row) (bool, error) {
+					var tr tablesRow
+					tablesTypedInfo.RowToStruct(row, &tr)
+					if tr.Database != dr.Database {
+						return false, io.EOF
+					}
+					return true, nil
+				})
 		})
 }
 
@@ -269,8 +295,19 @@ func (tx *transaction) DropSchema(ctx context.Context, sn types.SchemaName, ifEx
 		return fmt.Errorf("engine: schema not found: %s", sn)
 	}
 
-	// XXX: delete tables etc in the schema
-	return nil
+	return TypedTableDelete(ctx, tx.tx, tablesTypedInfo,
+		&tablesRow{
+			Database: sr.Database,
+			Schema:   sr.Schema,
+		}, nil,
+		func(row types.Row) (bool, error) {
+			var tr tablesRow
+			tablesTypedInfo.RowToStruct(row, &tr)
+			if tr.Database != sr.Database || tr.Schema != sr.Schema {
+				return false, io.EOF
+			}
+			return true, nil
+		})
 }
 
 func (tx *transaction) ListSchemas(ctx context.Context, dn types.Identifier) ([]types.Identifier,
-- 
2.43.0


From c3543109486e1907e81397c039c7ac57c8663adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 34/48] fix: parse a chain of joins which each have a condition

---
 parser/parser.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 775fa8e..fe71f89 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1569,7 +1569,7 @@ join-type = [INNER] JOIN
     | CROSS JOIN
 */
 
-func (p *Parser) parseFromItem() sql.FromItem {
+func (p *Parser) parseFromOperand() sql.FromItem {
 	var fi sql.FromItem
 	if p.maybeToken(token.LParen) {
 		if s, ok := p.optionalSubquery(); ok {
@@ -1583,6 +1583,21 @@ func (p *Parser) parseFromItem() sql.FromItem {
 		fi = p.parseTableAlias()
 	}
 
+	return fi
+}
+
+func (p *Parser) parseFromItem() sql.FromItem {
+	fi := p.parseFromOperand()
+	for {
+		jt := p.parseJoinType()
+		if jt == sql.NoJoin {
+			return fi
+		}
+		fi = p.parseJoin(fi, jt)
+	}
+}
+
+func (p *Parser) parseJoinType() sql.JoinType {
 	jt := sql.NoJoin
 	if p.optionalReserved(types.JOIN) {
 		jt = sql.Join
@@ -1606,11 +1621,16 @@ func (p *Parser) parseFromItem() sql.FromItem {
 		jt = sql.CrossJoin
 	}
 
-	if jt == sql.NoJoin {
-		return fi
-	}
+	return jt
+}
 
-	fj := sql.FromJoin{Left: fi, Right: p.parseFromItem(), Type: jt}
+func (p *Parser) parseJoin(left sql.FromItem, jt sql.JoinType) sql.FromItem {
+	fj := sql.FromJoin{Left: left, Type: jt}
+	if jt == sql.CrossJoin {
+		fj.Right = p.parseFromOperand()
+	} else {
+		fj.Right = p.parseFromItem()
+	}
 	if p.optionalReserved(types.ON) {
 		fj.On = p.parseExpr()
 	} else if p.optionalReserved(types.USING) {
-- 
2.43.0


From 11d2fd0002412956a0e6a28a8ae68cb4afe5e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 35/48] fix: reject a reused name of a CHECK or FOREIGN KEY
 constraint

---
 parser/parser.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fe71f89..dcbf34a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -599,6 +599,7 @@ func (p *Parser) parseCreateDetails(s *sql.CreateTable) {
 			p.addKeyConstraint(s, sql.UniqueConstraint, makeKeyConstraintName(cn, key, "unique"),
 				key)
 		} else if p.optionalReserved(types.CHECK) {
+			p.checkConstraintName(s, cn)
 			p.expectTokens(token.LParen)
 			s.Constraints = append(s.Constraints,
 				sql.Constraint{
@@ -609,6 +610,7 @@ func (p *Parser) parseCreateDetails(s *sql.CreateTable) {
 				})
 			p.expectTokens(token.RParen)
 		} else if p.optionalReserved(types.FOREIGN) {
+			p.checkConstraintName(s, cn)
 			p.expectReserved(types.KEY)
 			s.ForeignKeys = append(s.ForeignKeys, p.parseForeignKey(cn))
 		} else if cn != 0 {
@@ -708,13 +710,28 @@ func makeKeyConstraintName(cn types.Identifier, key sql.IndexKey, suffix string)
 	return types.ID(nam+suffix, false)
 }
 
-func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
-	cn types.Identifier, nkey sql.IndexKey) {
+func (p *Parser) checkConstraintName(s *sql.CreateTable, cn types.Identifier) {
+	if cn == 0 {
+		return
+	}
 
 	for _, c := range s.Constraints {
 		if c.Name == cn {
 			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
 		}
+	}
+	for _, fk := range s.ForeignKeys {
+		if fk.Name == cn {
+			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
+		}
+	}
+}
+
+func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
+	cn types.Identifier, nkey sql.IndexKey) {
+
+	p.checkConstraintName(s, cn)
+	for _, c := range s.Constraints {
 		if c.Type == sql.PrimaryConstraint && ct == sql.PrimaryConstraint {
 			p.error("only one primary key allowed")
 		}
@@ -738,10 +755,9 @@ func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
 func (p *Parser) addColumnConstraint(s *sql.CreateTable, ct sql.ConstraintType,
 	cn types.Identifier, colNum int) {
 
+	p.checkConstraintName(s, cn)
 	for _, c := range s.Constraints {
-		if c.Name == cn {
-			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
-		} else if colNum == c.ColNum && ct == c.Type {
+		if colNum == c.ColNum && ct == c.Type {
 			p.error(fmt.Sprintf("duplicate %s constraint on %s", ct, s.Columns[colNum]))
 		}
 	}
@@ -826,6 +842,7 @@ func (p *Parser) parseColumn(s *sql.CreateTable) {
 					Reverse: []bool{false},
 				})
 		} else if p.optionalReserved(types.CHECK) {
+			p.checkConstraintName(s, cn)
 			p.expectTokens(token.LParen)
 			s.Constraints = append(s.Constraints,
 				sql.Constraint{
@@ -836,6 +853,7 @@ func (p *Parser) parseColumn(s *sql.CreateTable) {
 				})
 			p.expectTokens(token.RParen)
 		} else if p.optionalReserved(types.REFERENCES) {
+			p.checkConstraintName(s, cn)
 			rtn := p.parseTableName()
 			var refCols []types.Identifier
 			if p.maybeToken(token.LParen) {
-- 
2.43.0


From 8bd924e399de5af1d554478a1105deade36def60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 36/48] fix: select the column named by in SHOW CONFIG

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index dcbf34a..b55dc64 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1820,7 +1820,7 @@ func (p *Parser) parseShow() sql.Stmt {
 			Results: []sql.SelectResult{
 				sql.ExprResult{Expr: sql.Ref{types.ID("name", false)}},
 				sql.ExprResult{Expr: sql.Ref{types.ID("value", false)}},
-				sql.ExprResult{Expr: sql.Ref{types.ID("by", false)}},
+				sql.ExprResult{Expr: sql.Ref{types.ID("by", true)}},
 			},
 			From: &sql.FromTableAlias{
 				TableName: types.TableName{
-- 
2.43.0


From 8502686ed7fb9bcae04377549ac92d3d8e5697be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 37/48] fix: report no error at the end of input after a
 malformed last statement

---
 parser/parser.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b55dc64..c9f98ca 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -32,18 +32,9 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 }
 
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
-	t, err := p.scanRune()
-	if err != nil {
-		p.failed = true
-		return nil, p.scanError(err)
-	} else if t == token.EOF {
-		return nil, io.EOF
-	}
-	p.unscan()
-
 	if p.failed {
 		for {
-			t, err = p.scanRune()
+			t, err := p.scanRune()
 			if err != nil {
 				return nil, p.scanError(err)
 			} else if t == token.EOF {
@@ -55,6 +46,15 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 		p.failed = false
 	}
 
+	t, err := p.scanRune()
+	if err != nil {
+		p.failed = true
+		return nil, p.scanError(err)
+	} else if t == token.EOF {
+		return nil, io.EOF
+	}
+	p.unscan()
+
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-- 
2.43.0


From ba2dab1541346fe125bb709eae1e896265ddc68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 38/48] fix: testutil: keep a NUL character at the start of a
 string

---
 testutil/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/testutil/parse.go b/testutil/parse.go
index 744f1de..cf10495 100644
--- a/testutil/parse.go
+++ b/testutil/parse.go
@@ -69,7 +69,7 @@ func expectRune(rs io.RuneScanner, e rune, err error, eofAllowed bool) bool {
 
 func readRunes(rs io.RuneScanner, r rune, eofAllowed bool, pred func(rune) bool) string {
 	var buf strings.Builder
-	if r != 0 {
+	if r >= 0 {
 		buf.WriteRune(r)
 	}
 
@@ -144,7 +144,7 @@ func parseValue(rs io.RuneScanner) types.Value {
 			panicError(errBadBytesString)
 		}
 
-		s := readRunes(rs, 0, false,
+		s := readRunes(rs, -1, false,
 			func(r rune) bool {
 				return r != '\''
 			})
-- 
2.43.0


From 1ae494088b41aae55768d87c3644254702f1834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 39/48] fix: refuse struct field sizes that do not fit a column
 size

---
 engine/typedinfo.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/typedinfo.go b/engine/typedinfo.go
index add81bf..ea54ce6 100644
--- a/engine/typedinfo.go
+++ b/engine/typedinfo.go
@@ -118,9 +118,9 @@ func MakeTypedInfo(tid storage.TableId, tn types.TableName, st interface{}) *Typ
 
 		size := uint32(1)
 		if val, ok := tags["size"]; ok {
-			n, err := strconv.Atoi(val)
-			if err != nil || n <= 0 {
-				panic(fmt.Sprintf("typed table: size not a positive integer: %s: %s", val, err))
+			n, err := strconv.ParseUint(val, 10, 32)
+			if err != nil || n == 0 || n > types.MaxColumnSize {
+				panic(fmt.Sprintf("typed table: size not a positive integer: %s: %v", val, err))
 			}
 			size = uint32(n)
 		}
-- 
2.43.0


From 9f3e99424e984ab597ff4d6caef83978d9418641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 40/48] fix: refuse struct fields that are not exported

---
 engine/typedinfo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/typedinfo.go b/engine/typedinfo.go
index ea54ce6..51b531a 100644
--- a/engine/typedinfo.go
+++ b/engine/typedinfo.go
@@ -108,6 +108,10 @@ func MakeTypedInfo(tid storage.TableId, tn types.TableName, st interface{}) *Typ
 	var fldNames []string
 	for idx := 0; idx < typ.NumField(); idx += 1 {
 		fld := typ.Field(idx)
+		if !fld.IsExported() {
+			panic(fmt.Sprintf("typed table: field must be exported: %s", fld.Name))
+		}
+
 		tags := fieldTags(fld.Tag.Get("maho"))
 		if name, ok := tags["name"]; ok {
 			colNames = append(colNames, types.ID(name, true))
-- 
2.43.0


From 0deb97a24b96b6b2245cfdc61bec7102d5caf7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 41/48] fix: check the range of integers for 8 bit integer
 columns

A struct field of type int8 makes an integer column of size one, but a value out of its range was
accepted by an update and came back as another number.
---
 types/value.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types/value.go b/types/value.go
index 0afa82c..6a433c7 100644
--- a/types/value.go
+++ b/types/value.go
@@ -373,7 +373,9 @@ func ConvertValue(ct ColumnType, val Value) (Value, error) {
 			return nil, fmt.Errorf("expected an integer value: %v", val)
 		}
 
-		if ct.Size == 2 && (i > math.MaxInt16 || i < math.MinInt16) {
+		if ct.Size == 1 && (i > math.MaxInt8 || i < math.MinInt8) {
+			return nil, fmt.Errorf("expected an 8 bit integer value: %d", i)
+		} else if ct.Size == 2 && (i > math.MaxInt16 || i < math.MinInt16) {
 			return nil, fmt.Errorf("expected a 16 bit integer value: %d", i)
 		} else if ct.Size == 4 && (i > math.MaxInt32 || i < math.MinInt32) {
 			return nil, fmt.Errorf("expected a 32 bit integer value: %d", i)
-- 
2.43.0


From 2d3ba40ad8cdb53b6d786ee99f2fbce35379dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 42/48] fix: report a failure to read the input after looking
 ahead

---
 parser/scanner/scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 5c75941..fb35bd5 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -43,6 +43,7 @@ type Scanner struct {
 	rr          io.RuneReader
 	unread      bool
 	read        rune
+	err         error // if read is token.Error
 	filename    string
 	line        int
 	column      int
@@ -264,6 +265,9 @@ SkipWhitespace:
 func (s *Scanner) readRune(sctx *ScanCtx) rune {
 	if s.unread {
 		s.unread = false
+		if s.read == token.Error {
+			sctx.Error = s.err
+		}
 		return s.read
 	}
 
@@ -273,6 +277,8 @@ func (s *Scanner) readRune(sctx *ScanCtx) rune {
 		s.read = token.EOF
 		return token.EOF
 	} else if err != nil {
+		s.read = token.Error
+		s.err = err
 		sctx.Error = err
 		return token.Error
 	}
-- 
2.43.0


From 7f242df46bd9b33382f9d41768590561ca82f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 43/48] fix: do not lose a failure to read the line of COPY

---
 parser/scanner/scanner.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index fb35bd5..e9da894 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -77,13 +77,18 @@ func (s *Scanner) Scan(sctx *ScanCtx) {
 }
 
 type runeReader struct {
-	s *Scanner
+	s   *Scanner
+	err error // from before the data
 }
 
 func (s *Scanner) RuneReader() (io.RuneReader, int) {
+	rr := runeReader{
+		s: s,
+	}
 	for {
 		r, _, err := s.rr.ReadRune()
 		if err != nil {
+			rr.err = err
 			break
 		}
 		if r == '\n' {
@@ -93,12 +98,14 @@ func (s *Scanner) RuneReader() (io.RuneReader, int) {
 		}
 	}
 
-	return runeReader{
-		s: s,
-	}, s.line
+	return rr, s.line
 }
 
 func (rr runeReader) ReadRune() (rune, int, error) {
+	if rr.err != nil {
+		return 0, 0, rr.err
+	}
+
 	r, size, err := rr.s.rr.ReadRune()
 	if err != nil {
 		return 0, 0, err
-- 
2.43.0


From 38f2c25c7e3dad3ef1c49c0f8249ab6ae3a57e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 44/48] fix: end the console when its input cannot be read

---
 main.go          | 20 +++++++++++++++++++-
 parser/parser.go |  2 +-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 09140cc..f49fbf5 100644
--- a/main.go
+++ b/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -26,8 +27,22 @@ import (
 -- physical: storage
 */
 
+type reader struct {
+	io.Reader
+	err error
+}
+
+func (rd *reader) Read(buf []byte) (int, error) {
+	n, err := rd.Reader.Read(buf)
+	if err != nil && err != io.EOF {
+		rd.err = err
+	}
+	return n, err
+}
+
 func main() {
-	p := parser.NewParser(bufio.NewReader(os.Stdin), "console")
+	rd := &reader{Reader: os.Stdin}
+	p := parser.NewParser(bufio.NewReader(rd), "console")
 	for {
 		fmt.Print("maho: ")
 		stmt, err := p.Parse()
@@ -35,6 +50,9 @@ func main() {
 			break
 		} else if err != nil {
 			fmt.Printf("maho: %s\n", err)
+			if rd.err != nil && errors.Is(err, rd.err) {
+				os.Exit(1)
+			}
 			continue
 		}
 
diff --git a/parser/parser.go b/parser/parser.go
index c9f98ca..c196fd1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -97,7 +97,7 @@ func (p *Parser) scanRune() (rune, error) {
 func (p *Parser) scan() rune {
 	r, err := p.scanRune()
 	if err != nil {
-		p.error(err.Error())
+		panic(p.scanError(err))
 	}
 	return r
 }
-- 
2.43.0


From 13138f0dd887a4927831fd968f549d4f2b91f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 45/48] fix: testutil: refuse bytes with digits that are not
 hexadecimal

---
 testutil/parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/testutil/parse.go b/testutil/parse.go
index cf10495..92346b1 100644
--- a/testutil/parse.go
+++ b/testutil/parse.go
@@ -100,6 +100,8 @@ func hexDigit(ch byte) byte {
 		return ch - '0'
 	} else if ch >= 'a' && ch <= 'f' {
 		return ch - 'a' + 10
+	} else if ch < 'A' || ch > 'F' {
+		panicError(errBadBytesString)
 	}
 	return ch - 'A' + 10
 }
-- 
2.43.0


From df5d43b98b403dddd17cea9f922004ee1c48424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 46/48] fix: testutil: refuse column sizes that are too large

---
 testutil/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/testutil/parse.go b/testutil/parse.go
index 92346b1..fd6bb92 100644
--- a/testutil/parse.go
+++ b/testutil/parse.go
@@ -361,6 +361,10 @@ func parseOptionalSize(rs io.RuneScanner) (uint32, bool) {
 		panicError(err)
 	}
 
+	if i > types.MaxColumnSize {
+		panicError(fmt.Errorf("parse: size too large: %d", i))
+	}
+
 	expectRune(rs, ')', errExpectedCloseParen, false)
 	return uint32(i), true
 }
-- 
2.43.0


From 6b1c44360aca1f8f580110c0fb188ef4e664769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 47/48] fix: statements nested too deeply are refused, rather
 than running out of stack

---
 parser/parser.go | 53 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c196fd1..181a597 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -13,7 +13,10 @@ import (
 	"github.com/leftmike/maho/types"
 )
 
-const lookBackAmount = 3
+const (
+	lookBackAmount = 3
+	maxDepth       = 100000 // of statements, so that they do not run out of stack
+)
 
 type Parser struct {
 	scanner   scanner.Scanner
@@ -23,6 +26,8 @@ type Parser struct {
 	unscanned uint
 	scanned   rune
 	failed    bool
+	depth     int // of what is being parsed
+	deepest   int // of the parts next to it
 }
 
 func NewParser(rr io.RuneReader, fn string) *Parser {
@@ -55,6 +60,7 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 	}
 	p.unscan()
 
+	p.depth, p.deepest = 0, 0
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
@@ -79,6 +85,23 @@ func (p *Parser) error(msg string) {
 	panic(fmt.Errorf("parser: %s: %s", p.sctx.Position, msg))
 }
 
+// deeper is called for everything that makes what is being parsed deeper: each level of nesting, and
+// each operand of an operator or join.
+func (p *Parser) deeper() {
+	p.depth += 1
+	if p.depth > maxDepth {
+		p.error("nested too deeply")
+	}
+}
+
+// endPart is called after a part which began at depth, and is next to other parts.
+func (p *Parser) endPart(depth int) {
+	if p.deepest < p.depth {
+		p.deepest = p.depth
+	}
+	p.depth = depth
+}
+
 func (p *Parser) scanRune() (rune, error) {
 	p.current = (p.current + 1) % lookBackAmount
 	p.sctx = &p.lookBack[p.current]
@@ -1024,6 +1047,12 @@ func (p *Parser) parseDropIndex() sql.Stmt {
 }
 
 func (p *Parser) optionalSubquery() (sql.Stmt, bool) {
+	deepest := p.deepest
+	p.deepest = p.depth
+	defer func() {
+		p.depth, p.deepest = p.deepest, deepest
+	}()
+
 	if p.optionalReserved(types.SELECT) {
 		// ( select )
 		return p.parseSelect(), true
@@ -1043,6 +1072,7 @@ func (p *Parser) optionalSubquery() (sql.Stmt, bool) {
 }
 
 func (p *Parser) ParseExpr() (e sql.Expr, err error) {
+	p.depth, p.deepest = 0, 0
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
@@ -1161,7 +1191,10 @@ func rotateExpr(e sql.Expr) sql.Expr {
 }
 
 func (p *Parser) parseExpr() sql.Expr {
-	return adjustPrecedence(p.parseSubExpr())
+	depth := p.depth
+	e := p.parseSubExpr()
+	p.endPart(depth)
+	return adjustPrecedence(e)
 }
 
 /*
@@ -1221,6 +1254,8 @@ func (p *Parser) optionalBinaryOp() (sql.Op, bool, bool) {
 }
 
 func (p *Parser) parseSubExpr() sql.Expr {
+	p.deeper()
+
 	var e sql.Expr
 	r := p.scan()
 	if r == token.Reserved {
@@ -1258,13 +1293,19 @@ func (p *Parser) parseSubExpr() sql.Expr {
 					p.expectTokens(token.RParen)
 					se.Name = types.COUNT_ALL
 				} else {
+					depth, deepest := p.depth, p.depth
 					for {
 						se.Args = append(se.Args, p.parseSubExpr())
+						if deepest < p.depth {
+							deepest = p.depth
+						}
 						if p.maybeToken(token.RParen) {
 							break
 						}
 						p.expectTokens(token.Comma)
+						p.depth = depth
 					}
+					p.depth = deepest
 				}
 			}
 			e = se
@@ -1301,6 +1342,7 @@ func (p *Parser) parseSubExpr() sql.Expr {
 				return e
 			}
 
+			p.deeper()
 			switch p.sctx.Identifier {
 			case types.IN:
 				e = &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
@@ -1328,6 +1370,7 @@ func (p *Parser) parseSubExpr() sql.Expr {
 			if !bop {
 				p.error("expected boolean binary operator")
 			}
+			p.deeper()
 			var subqueryOp sql.SubqueryOp
 			if p.sctx.Identifier == types.ALL {
 				subqueryOp = sql.All
@@ -1532,7 +1575,9 @@ func (p *Parser) parseSelect() *sql.Select {
 	}
 
 	if p.optionalReserved(types.FROM) {
+		depth := p.depth
 		s.From = p.parseFromList()
+		p.endPart(depth)
 	}
 
 	if p.optionalReserved(types.WHERE) {
@@ -1588,6 +1633,8 @@ join-type = [INNER] JOIN
 */
 
 func (p *Parser) parseFromOperand() sql.FromItem {
+	p.deeper()
+
 	var fi sql.FromItem
 	if p.maybeToken(token.LParen) {
 		if s, ok := p.optionalSubquery(); ok {
@@ -1650,7 +1697,7 @@ func (p *Parser) parseJoin(left sql.FromItem, jt sql.JoinType) sql.FromItem {
 		fj.Right = p.parseFromItem()
 	}
 	if p.optionalReserved(types.ON) {
-		fj.On = p.parseExpr()
+		fj.On = adjustPrecedence(p.parseSubExpr())
 	} else if p.optionalReserved(types.USING) {
 		p.expectTokens(token.LParen)
 		for {
-- 
2.43.0


From 92af95f7910dc903341d8a521afca2f1fd34214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:42 +0000
Subject: [PATCH 48/48] fix: print the quote as the delimiter of COPY as a
 string constant

---
 parser/sql/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index 15bdda1..c360b74 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -83,7 +83,7 @@ func (stmt *Copy) String() string {
 	buf.WriteString(" FROM STDIN")
 
 	if stmt.Delimiter != '\t' {
-		fmt.Fprintf(&buf, " DELIMITER '%c'", stmt.Delimiter)
+		fmt.Fprintf(&buf, " DELIMITER %s", types.StringValue(stmt.Delimiter))
 	}
 	return buf.String()
 }
-- 
2.43.0

