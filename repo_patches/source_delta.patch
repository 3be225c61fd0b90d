From 8a50ecfcf0ea6481bbf86310b35547ed5e26da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 01/53] fix: report an unterminated delimited identifier
 instead of reading past the end of input forever

---
 sqltoken/tokenizer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index edbada6..177bf3a 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -283,6 +283,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			if n == end {
 				break
 			}
+			if n == scanner.EOF {
+				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
+			}
 			s = append(s, n)
 		}
 		t.Col += 2 + len(s)
-- 
2.43.0


From 94ad58822bcb775adad17ef45d35a1ce28c977e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:50 +0000
Subject: [PATCH 02/53] fix: keep the text of block comments containing an
 asterisk or CRLF intact

---
 sqltoken/tokenizer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 177bf3a..e14c33b 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -514,10 +514,12 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 	t.Col += 2
 	for {
 		n := t.Scanner.Next()
+		crlf := false
 
 		if n == '\r' {
 			if t.Scanner.Peek() == '\n' {
 				t.Scanner.Next()
+				crlf = true
 			}
 			t.Col = 1
 			t.Line += 1
@@ -534,12 +536,15 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 			if n == '/' {
 				break
 			} else {
-				str = append(str, n)
+				str = append(str, '*')
 			}
 		}
 		mayBeClosingComment = n == '*'
 		if !mayBeClosingComment {
 			str = append(str, n)
+			if crlf {
+				str = append(str, '\n')
+			}
 		}
 	}
 
-- 
2.43.0


From 427519fa2a923c7ed34ed1fe38b51912d8483e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 03/53] fix: advance the position over quoted tokens by source
 characters and line breaks

---
 sqltoken/tokenizer.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index e14c33b..1494fc6 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -275,9 +275,11 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 
 	case t.Dialect.IsDelimitedIdentifierStart(r):
 		t.Scanner.Next()
+		t.Col += 1
 		end := matchingEndQuote(r)
 
 		var s []rune
+		prev := r
 		for {
 			n := t.Scanner.Next()
 			if n == end {
@@ -286,9 +288,11 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			if n == scanner.EOF {
 				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
 			}
+			t.advance(prev, n)
+			prev = n
 			s = append(s, n)
 		}
-		t.Col += 2 + len(s)
+		t.Col += 1
 
 		return SQLKeyword, MakeKeyword(string(s), r), nil
 
@@ -481,17 +485,22 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 	var builder strings.Builder
 	t.Scanner.Next()
+	t.Col += 1
+	prev := '\''
 	for {
 		n := t.Scanner.Peek()
 		if n == '\'' {
 			t.Scanner.Next()
+			t.Col += 1
 			if t.Scanner.Peek() == '\'' {
 				// str = append(str, '\'')
 				builder.WriteRune('\'')
 				t.Scanner.Next()
+				t.Col += 1
 			} else {
 				break
 			}
+			prev = n
 			continue
 		}
 		if n == scanner.EOF {
@@ -499,13 +508,26 @@ func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 		}
 
 		t.Scanner.Next()
+		t.advance(prev, n)
+		prev = n
 		builder.WriteRune(n)
 		// str = append(str, n)
 	}
-	str := builder.String()
-	t.Col += 2 + len(str)
 
-	return str, nil
+	return builder.String(), nil
+}
+
+// advance moves the current position over r, a character of a quoted token preceded by prev.
+func (t *Tokenizer) advance(prev, r rune) {
+	switch {
+	case r == '\n' && prev == '\r':
+		// the line was already advanced by CR
+	case r == '\n' || r == '\r':
+		t.Line += 1
+		t.Col = 1
+	default:
+		t.Col += 1
+	}
 }
 
 func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
-- 
2.43.0


From c441069ee56c7a493d27e7244aaf9931546168a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 04/53] fix: end a line comment at CR and CRLF as at LF

---
 sqltoken/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 1494fc6..47fb0b9 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -334,7 +334,7 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			var s []rune
 			for {
 				ch := t.Scanner.Peek()
-				if ch != scanner.EOF && ch != '\n' {
+				if ch != scanner.EOF && ch != '\n' && ch != '\r' {
 					t.Scanner.Next()
 					s = append(s, ch)
 				} else {
-- 
2.43.0


From f05ace92e0c1044f140b7348374874c0caec6c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 05/53] fix: report a failure of the source reader instead of
 treating it as the end of input

---
 sqltoken/tokenizer.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 47fb0b9..2e90e5c 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -124,13 +124,30 @@ type Tokenizer struct {
 	Line         int
 	Col          int
 	parseComment bool
+	src          *sourceReader
+}
+
+// sourceReader remembers a read error, which the scanner does not distinguish from the end of the source.
+type sourceReader struct {
+	src io.Reader
+	err error
+}
+
+func (r *sourceReader) Read(p []byte) (int, error) {
+	n, err := r.src.Read(p)
+	if err != nil && err != io.EOF {
+		r.err = err
+	}
+	return n, err
 }
 
 func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 	var scan scanner.Scanner
+	reader := &sourceReader{src: src}
 	return &Tokenizer{
 		Dialect:      dialect,
-		Scanner:      scan.Init(src),
+		Scanner:      scan.Init(reader),
+		src:          reader,
 		Line:         1,
 		Col:          1,
 		parseComment: true,
@@ -456,6 +473,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		t.Col += 1
 		return RBrace, "}", nil
 	case scanner.EOF == r:
+		if t.src != nil && t.src.err != nil {
+			return ILLEGAL, "", errors.Errorf("read source failed: %w", t.src.err)
+		}
 		return ILLEGAL, "", io.EOF
 	default:
 		t.Scanner.Next()
-- 
2.43.0


From aedda9ebbf658a7a13c6a39bcd4335f14d5733f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 06/53] fix: accept a select list that ends at the end of input

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index f0c25ba..8a23bb7 100644
--- a/parser.go
+++ b/parser.go
@@ -505,7 +505,7 @@ func (p *Parser) parseSelectList() ([]sqlast.SQLSelectItem, error) {
 			}
 		}
 
-		if t, _ := p.peekToken(); t.Kind == sqltoken.Comma {
+		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
 			p.mustNextToken()
 		} else {
 			break
-- 
2.43.0


From d49cd7daec65fa1c04f45fb0e4576ddc43ed3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 07/53] fix: return an error instead of panicking on malformed
 input

---
 parser.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 8a23bb7..5b86ae7 100644
--- a/parser.go
+++ b/parser.go
@@ -83,7 +83,16 @@ func (p *Parser) ParseFile() (*sqlast.File, error) {
 	}, nil
 }
 
-func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
+// recoverError turns a panic raised by unexpected tokens into a parse error.
+func recoverError(err *error) {
+	if r := recover(); r != nil {
+		*err = errors.Errorf("parse failed: %v", r)
+	}
+}
+
+func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
+	defer recoverError(&err)
+
 	var stmts []sqlast.Stmt
 	var expectingDelimiter bool
 
@@ -126,7 +135,9 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	return stmts, nil
 }
 
-func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
+func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
+	defer recoverError(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, err
@@ -169,7 +180,9 @@ func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
 	}
 }
 
-func (p *Parser) ParseDataType() (sqlast.Type, error) {
+func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
+	defer recoverError(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
@@ -296,7 +309,9 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 	}
 }
 
-func (p *Parser) ParseExpr() (sqlast.Node, error) {
+func (p *Parser) ParseExpr() (_ sqlast.Node, err error) {
+	defer recoverError(&err)
+
 	return p.parseSubexpr(0)
 }
 
-- 
2.43.0


From cf1b8fdee93d56ed930230c0cfac0af6877b32be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:10 +0000
Subject: [PATCH 08/53] fix: accept empty statements and a missing final
 semicolon in a script

---
 parser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 5b86ae7..04765ee 100644
--- a/parser.go
+++ b/parser.go
@@ -97,10 +97,13 @@ func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
 	var expectingDelimiter bool
 
 	for {
-		ok, _ := p.consumeToken(sqltoken.Semicolon)
-		if !ok && expectingDelimiter {
-			tok, _ := p.peekToken()
-			return nil, errors.Errorf("expect semicolon but %+v", tok)
+		// stray semicolons separate empty statements
+		for {
+			ok, _ := p.consumeToken(sqltoken.Semicolon)
+			if !ok {
+				break
+			}
+			expectingDelimiter = false
 		}
 
 		if p.parseComment {
@@ -123,6 +126,11 @@ func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
 			}
 		}
 
+		if expectingDelimiter {
+			tok, _ := p.peekToken()
+			return nil, errors.Errorf("expect semicolon but %+v", tok)
+		}
+
 		stmt, err := p.ParseStatement()
 		if err != nil {
 			return nil, errors.Errorf("parseStatement failed: %w", err)
-- 
2.43.0


From 8b0305b3e1e2497bd8b532c10a110838a37760f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 09/53] fix: do not read LIMIT, HAVING or ON as an alias

---
 dialect/keywords.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dialect/keywords.go b/dialect/keywords.go
index 07f152e..42c8246 100644
--- a/dialect/keywords.go
+++ b/dialect/keywords.go
@@ -359,7 +359,9 @@ func init() {
 	ReservedForTableAlias[SELECT] = struct{}{}
 	ReservedForTableAlias[WHERE] = struct{}{}
 	ReservedForTableAlias[GROUP] = struct{}{}
+	ReservedForTableAlias[HAVING] = struct{}{}
 	ReservedForTableAlias[ORDER] = struct{}{}
+	ReservedForTableAlias[LIMIT] = struct{}{}
 	ReservedForTableAlias[UNION] = struct{}{}
 	ReservedForTableAlias[EXCEPT] = struct{}{}
 	ReservedForTableAlias[INTERSECT] = struct{}{}
@@ -378,11 +380,14 @@ func init() {
 	ReservedForColumnAlias[SELECT] = struct{}{}
 	ReservedForColumnAlias[WHERE] = struct{}{}
 	ReservedForColumnAlias[GROUP] = struct{}{}
+	ReservedForColumnAlias[HAVING] = struct{}{}
 	ReservedForColumnAlias[ORDER] = struct{}{}
+	ReservedForColumnAlias[LIMIT] = struct{}{}
 	ReservedForColumnAlias[UNION] = struct{}{}
 	ReservedForColumnAlias[EXCEPT] = struct{}{}
 	ReservedForColumnAlias[INTERSECT] = struct{}{}
 	ReservedForColumnAlias[FROM] = struct{}{}
+	ReservedForColumnAlias[ON] = struct{}{}
 }
 
 const (
-- 
2.43.0


From 0c069688b6b066c243f7890371cc0e20d4f40e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:06 +0000
Subject: [PATCH 10/53] fix: keep MATERIALIZED of CREATE MATERIALIZED VIEW

---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 04765ee..e887b97 100644
--- a/parser.go
+++ b/parser.go
@@ -547,9 +547,13 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	}
 
 	mok, _, _ := p.parseKeyword("MATERIALIZED")
-	vok, _, _ := p.parseKeyword("VIEW")
+	if mok {
+		p.prevToken()
+		return p.parseCreateView(t)
+	}
 
-	if mok || vok {
+	vok, _, _ := p.parseKeyword("VIEW")
+	if vok {
 		p.prevToken()
 		return p.parseCreateView(t)
 	}
-- 
2.43.0


From ce55bf522ebc8c900656b8e0e054e13ce36be26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 11/53] fix: keep the joins to the left of a CROSS JOIN

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index e887b97..7dfb538 100644
--- a/parser.go
+++ b/parser.go
@@ -1650,7 +1650,7 @@ func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
 			}
 			e = rtp
 		case *sqlast.CrossJoin:
-			rtp.Reference = leftElem
+			rtp.Reference = e
 			e = rtp
 		case *sqlast.QualifiedJoin:
 			rtp.LeftElement = &sqlast.TableJoinElement{
-- 
2.43.0


From 6388e5b446c79f83bffc546a5f25f8cca42c9cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 12/53] fix: keep column constraints preceding DEFAULT or
 AUTO_INCREMENT

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 7dfb538..84b0398 100644
--- a/parser.go
+++ b/parser.go
@@ -895,7 +895,7 @@ COLUMN_DEF_LOOP:
 			if err != nil {
 				return nil, nil, nil, errors.Errorf("parseColumnConstraints failed: %w", err)
 			}
-			specs = s
+			specs = append(specs, s...)
 		case "AUTO_INCREMENT":
 			p.mustNextToken()
 			decorates = append(decorates, &sqlast.AutoIncrement{
-- 
2.43.0


From 944ba6eeee6986837ad71322cad4f76a5d2eeeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 13/53] fix: consume the right parenthesis of table function
 arguments

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index 84b0398..11f8d05 100644
--- a/parser.go
+++ b/parser.go
@@ -1866,6 +1866,7 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 			return nil, errors.Errorf("parseOptionalArgs failed: %w", err)
 		}
 		args = a
+		p.expectToken(sqltoken.RParen)
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
-- 
2.43.0


From 51800eb97af097ee8996914a170487d6d7029954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 14/53] fix: parse the bounds of BETWEEN as expressions

---
 parser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 11f8d05..54c6eac 100644
--- a/parser.go
+++ b/parser.go
@@ -2139,14 +2139,16 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 }
 
 func (p *Parser) parseBetween(expr sqlast.Node, negated bool) (sqlast.Node, error) {
-	low, err := p.parsePrefix()
+	// the bounds bind tighter than BETWEEN itself
+	const betweenPrecedence = 20
+	low, err := p.parseSubexpr(betweenPrecedence)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr failed: %w", err)
 	}
 	p.expectKeyword("AND")
-	high, err := p.parsePrefix()
+	high, err := p.parseSubexpr(betweenPrecedence)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr failed: %w", err)
 	}
 
 	return &sqlast.Between{
-- 
2.43.0


From fae87a2b27c3579c86518da86f1b9199b80fa02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 15/53] fix: bind NOT IN, NOT BETWEEN and NOT LIKE as the
 operators they negate

---
 parser.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/parser.go b/parser.go
index 54c6eac..fd1d219 100644
--- a/parser.go
+++ b/parser.go
@@ -2165,6 +2165,26 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 	if tok == nil {
 		return 0, nil
 	}
+
+	// an infix NOT is a part of NOT IN, NOT BETWEEN or NOT LIKE and binds as the operator it negates
+	idx := p.index
+	if ok, _, _ := p.parseKeyword("NOT"); ok {
+		tok, _ = p.peekToken()
+		p.index = idx
+		if tok == nil {
+			return 0, nil
+		}
+		word, ok := tok.Value.(*sqltoken.SQLWord)
+		if !ok {
+			return 0, nil
+		}
+		switch word.Keyword {
+		case "IN", "BETWEEN", "LIKE":
+		default:
+			return 0, nil
+		}
+	}
+
 	return p.getPrecedence(tok), nil
 }
 
-- 
2.43.0


From 3d9578087e3cb30005805e436b045155a0f8a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 16/53] fix: never read a quoted identifier as a keyword

---
 parser.go | 56 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/parser.go b/parser.go
index fd1d219..70df671 100644
--- a/parser.go
+++ b/parser.go
@@ -155,7 +155,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		return nil, errors.Errorf("a keyword at the beginning of statement %s", tok.Value)
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "SELECT", "WITH":
 		p.prevToken()
 		return p.parseQuery()
@@ -184,7 +184,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		}
 		return &sqlast.ExplainStmt{Stmt: stmt}, nil
 	default:
-		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", word.Keyword)
+		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", keyword(word))
 	}
 }
 
@@ -200,7 +200,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		return nil, errors.Errorf("must be datatype name but %v", tok)
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "BOOLEAN":
 		return &sqlast.Boolean{
 			From: tok.From,
@@ -428,7 +428,7 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 		return nil
 	}
 	word := token.Value.(*sqltoken.SQLWord)
-	switch word.Keyword {
+	switch keyword(word) {
 	case "UNION":
 		return &sqlast.UnionOperator{}
 	case "EXCEPT":
@@ -685,7 +685,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 		}
 
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "CONSTRAINT", "PRIMARY", "CHECK", "FOREIGN", "UNIQUE":
 			p.prevToken()
 			constraints, err := p.parseTableConstraints()
@@ -752,7 +752,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 
 	var constraintPos sqltoken.Pos
 	var name *sqlast.Ident
-	if ok && word.Keyword == "CONSTRAINT" {
+	if ok && keyword(word) == "CONSTRAINT" {
 		constraintPos = tok.From
 		p.mustNextToken()
 		i, err := p.parseIdentifier()
@@ -766,7 +766,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 
 	var spec sqlast.TableConstraintSpec
 	word = tok.Value.(*sqltoken.SQLWord)
-	switch word.Keyword {
+	switch keyword(word) {
 	case "UNIQUE":
 		p.mustNextToken()
 		if _, _, err := p.parseKeyword("KEY"); err != nil {
@@ -880,7 +880,7 @@ COLUMN_DEF_LOOP:
 
 		word := t.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keyword(word) {
 		case "DEFAULT":
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 				d, err := p.parseDefaultExpr(0)
@@ -924,7 +924,7 @@ CONSTRAINT_LOOP:
 		word, ok := tok.Value.(*sqltoken.SQLWord)
 
 		var name *sqlast.Ident
-		if ok && word.Keyword == "CONSTRAINT" {
+		if ok && keyword(word) == "CONSTRAINT" {
 			p.mustNextToken()
 			i, err := p.parseIdentifier()
 			if err != nil {
@@ -941,7 +941,7 @@ CONSTRAINT_LOOP:
 		var spec sqlast.ColumnConstraintSpec
 
 		word = tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "NOT":
 			p.mustNextToken()
 			ok, ntok, _ := p.parseKeyword("NULL")
@@ -1050,7 +1050,7 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 	word, _ := tok.Value.(*sqltoken.SQLWord)
 
 	p.mustNextToken()
-	switch word.Keyword {
+	switch keyword(word) {
 	case "ENGINE":
 		opt := &sqlast.MyEngine{
 			Engine: tok.From,
@@ -1450,7 +1450,7 @@ func (p *Parser) parseAlterColumn(alt *sqltoken.Token) (*sqlast.AlterColumnTable
 
 	word := tok.Value.(*sqltoken.SQLWord)
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "SET":
 		if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 			def, err := p.parseDefaultExpr(0)
@@ -1528,7 +1528,7 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 		tok, _ := p.peekToken()
 		if tok != nil && tok.Kind == sqltoken.SQLKeyword {
 			w := tok.Value.(*sqltoken.SQLWord)
-			if w.Keyword == "NOT" || w.Keyword == "NULL" {
+			if keyword(w) == "NOT" || keyword(w) == "NULL" {
 				break
 			}
 		}
@@ -1559,7 +1559,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	if maybeAlias.Kind == sqltoken.SQLKeyword {
 
 		word := maybeAlias.Value.(*sqltoken.SQLWord)
-		if afterAs || !containsStr(reservedKeywords, word.Keyword) {
+		if afterAs || !containsStr(reservedKeywords, keyword(word)) {
 			return &sqlast.Ident{
 				Value: word.String(),
 				From:  maybeAlias.From,
@@ -1681,7 +1681,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 		return nil, nil
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "NATURAL":
 		tp, err := p.parseJoinType()
 		if err != nil {
@@ -1765,7 +1765,7 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 		return nil, errors.Errorf("unknown join type %v", tok)
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "INNER":
 		return &sqlast.JoinType{
 			Condition: sqlast.INNER,
@@ -2022,7 +2022,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		operator = sqlast.Divide
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "AND":
 			operator = sqlast.And
 		case "OR":
@@ -2053,7 +2053,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	if tok.Kind == sqltoken.SQLKeyword {
 		word := tok.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keyword(word) {
 		case "IS":
 			if ok, _, _ := p.parseKeyword("NULL"); ok {
 				return &sqlast.IsNull{
@@ -2178,7 +2178,7 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 		if !ok {
 			return 0, nil
 		}
-		switch word.Keyword {
+		switch keyword(word) {
 		case "IN", "BETWEEN", "LIKE":
 		default:
 			return 0, nil
@@ -2192,7 +2192,7 @@ func (p *Parser) getPrecedence(ts *sqltoken.Token) uint {
 	switch ts.Kind {
 	case sqltoken.SQLKeyword:
 		word := ts.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "OR":
 			return 5
 		case "AND":
@@ -2232,7 +2232,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 	switch tok.Kind {
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "TRUE", "FALSE", "NULL":
 			p.prevToken()
 			t, err := p.parseSQLValue()
@@ -2541,7 +2541,7 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		var u sqlast.WindowFrameUnit
 
 		// FIXME
-		units, err := u.FromStr(w.Keyword)
+		units, err := u.FromStr(keyword(w))
 		if err != nil {
 			return nil, errors.Errorf("invalid window frame unit: %w", err)
 		}
@@ -2638,7 +2638,7 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keyword(word) {
 		case "TRUE":
 			return &sqlast.BooleanValue{
 				From:    tok.From,
@@ -3153,7 +3153,7 @@ func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 		return false, tok, nil
 	}
 
-	if strings.EqualFold(word.Value, expected) {
+	if word.QuoteStyle == 0 && strings.EqualFold(word.Value, expected) {
 		p.mustNextToken()
 		return true, tok, nil
 	}
@@ -3167,6 +3167,14 @@ func (p *Parser) Debug() {
 	fmt.Println()
 }
 
+// keyword returns the keyword spelled by word, a quoted identifier being none.
+func keyword(word *sqltoken.SQLWord) string {
+	if word.QuoteStyle != 0 {
+		return ""
+	}
+	return word.Keyword
+}
+
 func containsStr(strmap map[string]struct{}, t string) bool {
 	_, ok := strmap[t]
 	return ok
-- 
2.43.0


From 6d54142df35be14ed9d7303a0bba5e6f2ad955c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 17/53] fix: accept BIGINT at the end of input and take its
 position from its own tokens

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 70df671..1030d0d 100644
--- a/parser.go
+++ b/parser.go
@@ -226,8 +226,8 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		unsigned, pos := p.parseMyUnsigned()
 		return &sqlast.Int{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "BIGINT":
-		unsigned, u, _ := p.parseKeyword("UNSIGNED")
-		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: u.To}, nil
+		unsigned, pos := p.parseMyUnsigned()
+		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "VARCHAR":
 		p, r, err := p.parseOptionalPrecision()
 		if err != nil {
-- 
2.43.0


From 98a2fd3ad182d1abbf8eeecc95b78abb59ceb683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 18/53] fix: read comma separated table options and reject a
 dangling comma

---
 parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 1030d0d..7d3e1de 100644
--- a/parser.go
+++ b/parser.go
@@ -1025,10 +1025,9 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 			return nil, err
 		}
 
-		if tok.Kind == sqltoken.Comma {
-			tok = p.mustNextToken()
-		}
-		if tok.Kind != sqltoken.SQLKeyword {
+		if tok.Kind == sqltoken.Comma && len(opts) > 0 {
+			p.mustNextToken()
+		} else if tok.Kind != sqltoken.SQLKeyword {
 			break
 		}
 		opt, err := p.parseTableOption()
-- 
2.43.0


From 27e470c3e4b36e2ef1212a7e95d212ed095b1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 19/53] fix: reject an integer literal out of range instead of
 clamping it

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 7d3e1de..e6770c1 100644
--- a/parser.go
+++ b/parser.go
@@ -2671,7 +2671,10 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 				Double: f,
 			}, nil
 		} else {
-			i, _ := strconv.Atoi(num)
+			i, err := strconv.Atoi(num)
+			if err != nil {
+				return nil, errors.Errorf("parse integer literal failed: %w", err)
+			}
 			return &sqlast.LongValue{
 				Long: int64(i),
 				From: tok.From,
-- 
2.43.0


From e02f5bf5a5e8dec7c392838c2f352ea1c871632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 20/53] fix: print an integral double as a decimal literal

---
 sqlast/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlast/value.go b/sqlast/value.go
index e954b18..f2b7dac 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -1,6 +1,7 @@
 package sqlast
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"strconv"
@@ -76,6 +77,10 @@ func (d *DoubleValue) ToSQLString() string {
 func (d *DoubleValue) WriteTo(w io.Writer) (int64, error) {
 	var b [32] byte
 	buf := strconv.AppendFloat(b[:0], d.Double, 'f', -1, 64)
+	if !bytes.ContainsRune(buf, '.') {
+		// without a fraction it would be an integer literal
+		buf = append(buf, ".0"...)
+	}
 	n, err := w.Write(buf)
 	return int64(n), err
 }
-- 
2.43.0


From 0fc9444b1b0e4545d9bf4a6c3c59893076350cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 21/53] fix: escape quotes when printing string literals

---
 sqlast/value.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index f2b7dac..1e38c87 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/akito0107/xsqlparser/sqltoken"
@@ -85,6 +86,11 @@ func (d *DoubleValue) WriteTo(w io.Writer) (int64, error) {
 	return int64(n), err
 }
 
+// escapeQuotes doubles the quotes in the text of a quoted literal.
+func escapeQuotes(s string) string {
+	return strings.ReplaceAll(s, "'", "''")
+}
+
 type SingleQuotedString struct {
 	From, To sqltoken.Pos
 	String   string
@@ -117,7 +123,7 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n), err
 	}
-	n1, err := io.WriteString(w, s.String)
+	n1, err := io.WriteString(w, escapeQuotes(s.String))
 	if err != nil {
 		return int64(n + n1), err
 	}
@@ -149,7 +155,7 @@ func (n *NationalStringLiteral) Value() interface{} {
 }
 
 func (n *NationalStringLiteral) ToSQLString() string {
-	return fmt.Sprintf("N'%s'", n.String)
+	return fmt.Sprintf("N'%s'", escapeQuotes(n.String))
 }
 
 func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
@@ -157,7 +163,7 @@ func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n0), err
 	}
-	n1, err := io.WriteString(w, n.String)
+	n1, err := io.WriteString(w, escapeQuotes(n.String))
 	if err != nil {
 		return int64(n0 + n1), err
 	}
-- 
2.43.0


From 1e96d90c6c1f99f9a295a5a08a8db074e6909f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 22/53] fix: do not print empty parentheses for CREATE TABLE
 and CREATE INDEX without a list

---
 sqlast/stmt.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index bc52ea8..b85c7ad 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -299,11 +299,14 @@ func (c *CreateTableStmt) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Bytes([]byte("CREATE TABLE "))
 	sw.If(c.NotExists, []byte("IF NOT EXISTS "))
-	sw.Node(c.Name).Space().LParen()
-	for i, element := range c.Elements {
-		sw.JoinComma(i, element)
+	sw.Node(c.Name).Space()
+	if len(c.Elements) != 0 {
+		sw.LParen()
+		for i, element := range c.Elements {
+			sw.JoinComma(i, element)
+		}
+		sw.RParen()
 	}
-	sw.RParen()
 	if len(c.Options) != 0 {
 		for i, option := range c.Options {
 			sw.JoinComma(i, option)
@@ -1081,7 +1084,9 @@ func (c *CreateIndexStmt) WriteTo(w io.Writer) (int64, error) {
 	if c.MethodName != nil {
 		sw.Bytes([]byte(" USING ")).Node(c.MethodName)
 	}
-	sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	if len(c.ColumnNames) != 0 {
+		sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	}
 	if c.Selection != nil {
 		sw.Bytes([]byte(" WHERE ")).Node(c.Selection)
 	}
-- 
2.43.0


From e46d9d01761f7054757fffca99aa9648a76f619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 23/53] fix: read every table name of DROP TABLE

---
 parser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index e6770c1..0a89117 100644
--- a/parser.go
+++ b/parser.go
@@ -1416,9 +1416,16 @@ func (p *Parser) parseDrop() (sqlast.Stmt, error) {
 		}, nil
 	}
 	exists, _, _ := p.parseKeywords("IF", "EXISTS")
-	tableName, err := p.parseObjectName()
-	if err != nil {
-		return nil, errors.Errorf("parseObjectName failed: %w", err)
+	var tableNames []*sqlast.ObjectName
+	for {
+		tableName, err := p.parseObjectName()
+		if err != nil {
+			return nil, errors.Errorf("parseObjectName failed: %w", err)
+		}
+		tableNames = append(tableNames, tableName)
+		if ok, _ := p.consumeToken(sqltoken.Comma); !ok {
+			break
+		}
 	}
 
 	var caspos sqltoken.Pos
@@ -1429,7 +1436,7 @@ func (p *Parser) parseDrop() (sqlast.Stmt, error) {
 
 	return &sqlast.DropTableStmt{
 		Drop:       tok.From,
-		TableNames: []*sqlast.ObjectName{tableName},
+		TableNames: tableNames,
 		Cascade:    cascade,
 		IfExists:   exists,
 		CascadePos: caspos,
-- 
2.43.0


From c00469e09725ac5ba9e051376fc8cb6ac77037f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 24/53] fix: keep WITH TIME ZONE of TIME and reject WITH
 WITHOUT TIME ZONE

---
 parser.go      | 33 ++++++++++++++++++++++-----------
 sqlast/type.go | 13 ++++++++-----
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/parser.go b/parser.go
index 0a89117..39a26ed 100644
--- a/parser.go
+++ b/parser.go
@@ -254,24 +254,22 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "DATE":
 		return &sqlast.Date{}, nil
 	case "TIMESTAMP":
-		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
-		if wok || ook {
-			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
-		}
+		wok, _, _ := p.parseTimeZone()
 		return &sqlast.Timestamp{
 			Timestamp:    tok.From,
 			WithTimeZone: wok,
 		}, nil
 	case "TIME":
-		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
+		wok, ook, zone := p.parseTimeZone()
+		to := tok.To
 		if wok || ook {
-			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
+			to = zone.To
 		}
-		return &sqlast.Time{}, nil
+		return &sqlast.Time{
+			WithTimeZone: wok,
+			From:         tok.From,
+			To:           to,
+		}, nil
 	case "REGCLASS":
 		return &sqlast.Regclass{}, nil
 	case "TEXT":
@@ -2917,6 +2915,19 @@ func (p *Parser) parseExistsExpression(negatedTok *sqltoken.Token) (sqlast.Node,
 	}, nil
 }
 
+// parseTimeZone parses an optional { WITH | WITHOUT } TIME ZONE and returns which one it is and the ZONE keyword.
+func (p *Parser) parseTimeZone() (with bool, without bool, zone *sqltoken.Token) {
+	with, _, _ = p.parseKeyword("WITH")
+	if !with {
+		without, _, _ = p.parseKeyword("WITHOUT")
+	}
+	if with || without {
+		p.expectKeyword("TIME")
+		zone = p.expectKeyword("ZONE")
+	}
+	return with, without, zone
+}
+
 func (p *Parser) parseMyUnsigned() (bool, sqltoken.Pos) {
 	if ok, u, _ := p.parseKeyword("UNSIGNED"); ok {
 		return ok, u.To
diff --git a/sqlast/type.go b/sqlast/type.go
index d1445ff..926b79c 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -403,7 +403,8 @@ func (*Date) WriteTo(w io.Writer) (int64, error) {
 }
 
 type Time struct {
-	From, To sqltoken.Pos
+	WithTimeZone bool
+	From, To     sqltoken.Pos
 }
 
 func (t *Time) Pos() sqltoken.Pos {
@@ -414,12 +415,14 @@ func (t *Time) End() sqltoken.Pos {
 	return t.To
 }
 
-func (*Time) ToSQLString() string {
-	return "time"
+func (t *Time) ToSQLString() string {
+	return toSQLString(t)
 }
 
-func (*Time) WriteTo(w io.Writer) (int64, error) {
-	return writeSingleBytes(w, []byte("time"))
+func (t *Time) WriteTo(w io.Writer) (int64, error) {
+	sw := newSQLWriter(w)
+	sw.Bytes([]byte("time")).If(t.WithTimeZone, []byte(" with time zone"))
+	return sw.End()
 }
 
 type Timestamp struct {
-- 
2.43.0


From fef8af17ab403e978a8a3883f6acc6ba9cbcbdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 25/53] fix: accept NUMERIC without a precision

---
 parser.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/parser.go b/parser.go
index 39a26ed..a398379 100644
--- a/parser.go
+++ b/parser.go
@@ -283,14 +283,12 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "BYTEA":
 		return &sqlast.Bytea{}, nil
 	case "NUMERIC":
-		precision, scale, err := p.parseOptionalPrecisionScale()
+		precision, scale, r, err := p.parseOptionalPrecisionScale()
 		if err != nil {
 			return nil, errors.Errorf("parseOptionalPrecisionScale failed: %w", err)
 		}
-		p.prevToken()
-		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
-			return nil, errors.Errorf("expected RParen but %s", r)
+		if precision == nil {
+			r = tok.To
 		}
 
 		unsigned, pos := p.parseMyUnsigned()
@@ -298,7 +296,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 			Precision:  precision,
 			Scale:      scale,
 			Numeric:    tok.From,
-			RParen:     r.To,
+			RParen:     r,
 			IsUnsigned: unsigned,
 			Unsigned:   pos,
 		}, nil
@@ -2724,26 +2722,29 @@ func (p *Parser) parseOptionalPrecision() (*uint, sqltoken.Pos, error) {
 	}
 }
 
-func (p *Parser) parseOptionalPrecisionScale() (*uint, *uint, error) {
+func (p *Parser) parseOptionalPrecisionScale() (*uint, *uint, sqltoken.Pos, error) {
 	if ok, _ := p.consumeToken(sqltoken.LParen); !ok {
-		return nil, nil, nil
+		return nil, nil, sqltoken.Pos{}, nil
 	}
 	n, _, err := p.parseLiteralInt()
 	if err != nil {
-		return nil, nil, errors.Errorf("parseLiteralInt failed: %w", err)
+		return nil, nil, sqltoken.Pos{}, errors.Errorf("parseLiteralInt failed: %w", err)
 	}
 	var scale *uint
 	if ok, _ := p.consumeToken(sqltoken.Comma); ok {
 		s, _, err := p.parseLiteralInt()
 		if err != nil {
-			return nil, nil, errors.Errorf("parseLiteralInt failed: %w", err)
+			return nil, nil, sqltoken.Pos{}, errors.Errorf("parseLiteralInt failed: %w", err)
 		}
 		us := uint(s)
 		scale = &us
 	}
-	p.expectToken(sqltoken.RParen)
+	r, _ := p.nextToken()
+	if r == nil || r.Kind != sqltoken.RParen {
+		return nil, nil, sqltoken.Pos{}, errors.Errorf("expected RParen but %+v", r)
+	}
 	i := uint(n)
-	return &i, scale, nil
+	return &i, scale, r.To, nil
 }
 
 func (p *Parser) parseLiteralInt() (int, *sqltoken.Token, error) {
-- 
2.43.0


From 8de6fd51848669cc9949428af4660544fd109e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 26/53] fix: set the source extent of every data type

---
 parser.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index a398379..eaefff3 100644
--- a/parser.go
+++ b/parser.go
@@ -234,8 +234,12 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 			return nil, errors.Errorf("parsePrecision failed: %w", err)
 
 		}
+		var varying sqltoken.Pos
+		if p == nil {
+			varying = tok.To
+		}
 		// FIXME Character
-		return &sqlast.VarcharType{Size: p, RParen: r, Character: tok.From}, nil
+		return &sqlast.VarcharType{Size: p, RParen: r, Character: tok.From, Varying: varying}, nil
 	case "CHAR", "CHARACTER":
 		if ok, v, _ := p.parseKeyword("VARYING"); ok {
 			p, r, err := p.parseOptionalPrecision()
@@ -252,12 +256,17 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "UUID":
 		return &sqlast.UUID{From: tok.From, To: tok.To}, nil
 	case "DATE":
-		return &sqlast.Date{}, nil
+		return &sqlast.Date{From: tok.From, To: tok.To}, nil
 	case "TIMESTAMP":
-		wok, _, _ := p.parseTimeZone()
+		wok, _, zone := p.parseTimeZone()
+		var zonePos sqltoken.Pos
+		if wok {
+			zonePos = zone.To
+		}
 		return &sqlast.Timestamp{
 			Timestamp:    tok.From,
 			WithTimeZone: wok,
+			Zone:         zonePos,
 		}, nil
 	case "TIME":
 		wok, ook, zone := p.parseTimeZone()
@@ -271,17 +280,22 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 			To:           to,
 		}, nil
 	case "REGCLASS":
-		return &sqlast.Regclass{}, nil
+		return &sqlast.Regclass{From: tok.From, To: tok.To}, nil
 	case "TEXT":
+		text := &sqlast.Text{From: tok.From, To: tok.To}
 		if ok, _ := p.consumeToken(sqltoken.LBracket); ok {
-			p.expectToken(sqltoken.RBracket)
+			r, _ := p.nextToken()
+			if r == nil || r.Kind != sqltoken.RBracket {
+				return nil, errors.Errorf("expected RBracket but %+v", r)
+			}
 			return &sqlast.Array{
-				Ty: &sqlast.Text{},
+				Ty:     text,
+				RParen: r.To,
 			}, nil
 		}
-		return &sqlast.Text{}, nil
+		return text, nil
 	case "BYTEA":
-		return &sqlast.Bytea{}, nil
+		return &sqlast.Bytea{From: tok.From, To: tok.To}, nil
 	case "NUMERIC":
 		precision, scale, r, err := p.parseOptionalPrecisionScale()
 		if err != nil {
-- 
2.43.0


From 9cdbe3facb0a699277879276a6197986b05c53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 27/53] fix: reject a column constraint name without a
 constraint

---
 parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index eaefff3..a3581f4 100644
--- a/parser.go
+++ b/parser.go
@@ -944,7 +944,10 @@ CONSTRAINT_LOOP:
 		}
 
 		tok, _ = p.peekToken()
-		if tok.Kind != sqltoken.SQLKeyword {
+		if tok == nil || tok.Kind != sqltoken.SQLKeyword {
+			if name != nil {
+				return nil, errors.Errorf("expected a constraint after CONSTRAINT %s but %+v", name.Value, tok)
+			}
 			break
 		}
 
@@ -1012,6 +1015,9 @@ CONSTRAINT_LOOP:
 				RParen: r.To,
 			}
 		default:
+			if name != nil {
+				return nil, errors.Errorf("expected a constraint after CONSTRAINT %s but %+v", name.Value, tok)
+			}
 			break CONSTRAINT_LOOP
 		}
 
-- 
2.43.0


From 144a50ed1abbc33b0980f500ee87c01fddd37eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 28/53] fix: reject a foreign key referencing no columns

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index a3581f4..9418239 100644
--- a/parser.go
+++ b/parser.go
@@ -829,6 +829,9 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		w := t.Value.(*sqltoken.SQLWord)
 		p.expectToken(sqltoken.LParen)
 		refcolumns, err := p.parseColumnNames()
+		if err != nil {
+			return nil, errors.Errorf("parseColumnNames failed: %w", err)
+		}
 		r, _ := p.nextToken()
 		if r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
-- 
2.43.0


From 37189f3d24f9d3d2369b7c2835b161dfef9d461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 29/53] fix: reject a second DEFAULT of a column instead of
 dropping the first

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 9418239..68439f6 100644
--- a/parser.go
+++ b/parser.go
@@ -895,6 +895,9 @@ COLUMN_DEF_LOOP:
 
 		switch keyword(word) {
 		case "DEFAULT":
+			if def != nil {
+				return nil, nil, nil, errors.Errorf("multiple default values: %v", t)
+			}
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 				d, err := p.parseDefaultExpr(0)
 				if err != nil {
-- 
2.43.0


From 13a2746aed4e1d77341f5359517ecd46fbe9be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 30/53] fix: separate the statements of a printed file with
 semicolons

---
 sqlast/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 20144c4..3271d2c 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -55,6 +55,9 @@ func (f *File) ToSQLString() string {
 func (f *File) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	for i, stmt := range f.Stmts {
+		if i > 0 {
+			sw.Bytes([]byte(";"))
+		}
 		sw.JoinNewLine(i, stmt)
 	}
 	return sw.End()
-- 
2.43.0


From 6b7ee4bfdff0ba2c149b9600bce08ff8783845f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 31/53] fix: keep the empty argument list of a table function

---
 parser.go       | 3 +++
 sqlast/query.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 68439f6..622f223 100644
--- a/parser.go
+++ b/parser.go
@@ -1894,6 +1894,9 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 			return nil, errors.Errorf("parseOptionalArgs failed: %w", err)
 		}
 		args = a
+		if args == nil {
+			args = []sqlast.Node{}
+		}
 		p.expectToken(sqltoken.RParen)
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
diff --git a/sqlast/query.go b/sqlast/query.go
index 8638133..9d681bc 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -340,7 +340,7 @@ func (t *Table) ToSQLString() string {
 func (t *Table) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Node(t.Name)
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		sw.LParen().Nodes(t.Args).RParen()
 	}
 	if t.Alias != nil {
-- 
2.43.0


From 95b74dfa673cad226208173490d2971b38e430a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 32/53] fix: reject a reserved word in place of an operand

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 622f223..6b7fc1c 100644
--- a/parser.go
+++ b/parser.go
@@ -2318,6 +2318,9 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				Expr: expr,
 			}, nil
 		default:
+			if containsStr(dialect.ReservedForColumnAlias, keyword(word)) {
+				return nil, errors.Errorf("expected an expression but the reserved word %s", word)
+			}
 			t, _ := p.peekToken()
 			if t == nil || (t.Kind != sqltoken.LParen && t.Kind != sqltoken.Period) {
 				return &sqlast.Ident{Value: word.String(),
-- 
2.43.0


From 2ace90fb4df413e538054b142f869381c81161af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:39 +0000
Subject: [PATCH 33/53] fix: walk children with the visitor returned by Visit

---
 sqlast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 398eb9b..71303f0 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -21,7 +21,7 @@ func walkASTNodeLists(v Visitor, list []Node) {
 }
 
 func Walk(v Visitor, node Node) {
-	if v := v.Visit(node); v == nil {
+	if v = v.Visit(node); v == nil {
 		return
 	}
 
-- 
2.43.0


From 5ad77a62d5ee3004ed21e7117ddf49df6d4e2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 34/53] fix: walk every child node and never an absent one

---
 sqlast/walk.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 71303f0..9159617 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -71,7 +71,16 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Over)
 		}
 	case *CaseExpr:
-		Walk(v, n.Operand)
+		if n.Operand != nil {
+			Walk(v, n.Operand)
+		}
+		for i := range n.Conditions {
+			Walk(v, n.Conditions[i])
+			Walk(v, n.Results[i])
+		}
+		if n.ElseResult != nil {
+			Walk(v, n.ElseResult)
+		}
 	case *Exists:
 		Walk(v, n.Query)
 	case *SubQuery:
@@ -158,7 +167,7 @@ func Walk(v Visitor, node Node) {
 	case *JoinType:
 	// nothing to do
 	case *NamedColumnsJoin:
-	// nothing to do
+		walkIdentLists(v, n.ColumnList)
 	case *JoinCondition:
 		Walk(v, n.SearchCondition)
 	case *NaturalJoin:
@@ -168,6 +177,9 @@ func Walk(v Visitor, node Node) {
 	case *CrossJoin:
 		Walk(v, n.Factor)
 		Walk(v, n.Reference)
+	case *PartitionedJoinTable:
+		Walk(v, n.Factor)
+		walkIdentLists(v, n.ColumnList)
 	case *Table:
 		Walk(v, n.Name)
 		if n.Alias != nil {
@@ -192,7 +204,7 @@ func Walk(v Visitor, node Node) {
 	case *OrderByExpr:
 		Walk(v, n.Expr)
 	case *LimitExpr:
-		if !n.All {
+		if n.LimitValue != nil {
 			Walk(v, n.LimitValue)
 		}
 		if n.OffsetValue != nil {
@@ -241,9 +253,9 @@ func Walk(v Visitor, node Node) {
 	case *Bytea:
 		// nothing to do
 	case *Array:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *Custom:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *InsertStmt:
 		Walk(v, n.TableName)
 		walkIdentLists(v, n.Columns)
@@ -271,7 +283,9 @@ func Walk(v Visitor, node Node) {
 		for _, a := range n.Assignments {
 			Walk(v, a)
 		}
-		Walk(v, n.Selection)
+		if n.Selection != nil {
+			Walk(v, n.Selection)
+		}
 	case *DeleteStmt:
 		Walk(v, n.TableName)
 		if n.Selection != nil {
@@ -285,6 +299,13 @@ func Walk(v Visitor, node Node) {
 		for _, e := range n.Elements {
 			Walk(v, e)
 		}
+		for _, o := range n.Options {
+			Walk(v, o)
+		}
+	case *MyEngine:
+		Walk(v, n.Name)
+	case *MyCharset:
+		Walk(v, n.Name)
 	case *Assignment:
 		Walk(v, n.ID)
 		Walk(v, n.Value)
@@ -309,9 +330,14 @@ func Walk(v Visitor, node Node) {
 		if n.Default != nil {
 			Walk(v, n.Default)
 		}
+		for _, d := range n.MyDataTypeDecoration {
+			Walk(v, d)
+		}
 		for _, c := range n.Constraints {
 			Walk(v, c)
 		}
+	case *AutoIncrement:
+		// nothing to do
 	case *ColumnConstraint:
 		if n.Name != nil {
 			Walk(v, n.Name)
-- 
2.43.0


From 6c33ef02deaf2c7b94bd3f6f04e91bc069beff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 35/53] fix: apply to every child node and never to an absent
 one

---
 sqlastutil/rewrite.go | 56 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index c51d7e2..2f87d28 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -169,7 +169,13 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Over", nil, n.Over)
 		}
 	case *sqlast.CaseExpr:
-		a.apply(n, "Operand", nil, n.Operand)
+		if n.Operand != nil {
+			a.apply(n, "Operand", nil, n.Operand)
+		}
+		a.applyLists(n, "Conditions", "Results")
+		if n.ElseResult != nil {
+			a.apply(n, "ElseResult", nil, n.ElseResult)
+		}
 	case *sqlast.Exists:
 		a.apply(n, "QueryStmt", nil, n.Query)
 	case *sqlast.SubQuery:
@@ -238,6 +244,8 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		a.apply(n, "Ref", nil, n.Ref)
 	case *sqlast.JoinType:
 		// nothing to do
+	case *sqlast.NamedColumnsJoin:
+		a.applyList(n, "ColumnList")
 	case *sqlast.JoinCondition:
 		a.apply(n, "SearchCondition", nil, n.SearchCondition)
 	case *sqlast.NaturalJoin:
@@ -247,6 +255,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CrossJoin:
 		a.apply(n, "Factor", nil, n.Factor)
 		a.apply(n, "Reference", nil, n.Reference)
+	case *sqlast.PartitionedJoinTable:
+		a.apply(n, "Factor", nil, n.Factor)
+		a.applyList(n, "ColumnList")
 	case *sqlast.Table:
 		a.apply(n, "Name", nil, n.Name)
 		if n.Alias != nil {
@@ -271,7 +282,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.OrderByExpr:
 		a.apply(n, "Expr", nil, n.Expr)
 	case *sqlast.LimitExpr:
-		if !n.All {
+		if n.LimitValue != nil {
 			a.apply(n, "LimitValue", nil, n.LimitValue)
 		}
 		if n.OffsetValue != nil {
@@ -320,9 +331,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.Bytea:
 		// nothing to do
 	case *sqlast.Array:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.Custom:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.InsertStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Columns")
@@ -340,7 +351,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.UpdateStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Assignments")
-		a.apply(n, "Selection", nil, n.Selection)
+		if n.Selection != nil {
+			a.apply(n, "Selection", nil, n.Selection)
+		}
 	case *sqlast.DeleteStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		if n.Selection != nil {
@@ -352,6 +365,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
+		a.applyList(n, "Options")
+	case *sqlast.MyEngine:
+		a.apply(n, "Name", nil, n.Name)
+	case *sqlast.MyCharset:
+		a.apply(n, "Name", nil, n.Name)
 	case *sqlast.Assignment:
 		a.apply(n, "ID", nil, n.ID)
 		a.apply(n, "Value", nil, n.Value)
@@ -376,7 +394,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		if n.Default != nil {
 			a.apply(n, "Default", nil, n.Default)
 		}
+		a.applyList(n, "MyDataTypeDecoration")
 		a.applyList(n, "Constraints")
+	case *sqlast.AutoIncrement:
+		// nothing to do
 	case *sqlast.ColumnConstraint:
 		if n.Name != nil {
 			a.apply(n, "Name", nil, n.Name)
@@ -456,6 +477,31 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	a.cursor = saved
 }
 
+// applyLists applies to the elements of several lists alternately.
+func (a *application) applyLists(parent sqlast.Node, names ...string) {
+	iters := make([]iterator, len(names))
+	for done := false; !done; {
+		done = true
+		for i, name := range names {
+			iter := &iters[i]
+			v := reflect.Indirect(reflect.ValueOf(parent)).FieldByName(name)
+			if iter.index >= v.Len() {
+				continue
+			}
+			done = false
+
+			var x sqlast.Node
+			if e := v.Index(iter.index); e.IsValid() {
+				x = e.Interface().(sqlast.Node)
+			}
+
+			iter.step = 1
+			a.apply(parent, name, iter, x)
+			iter.index += iter.step
+		}
+	}
+}
+
 func (a *application) applyList(parent sqlast.Node, name string) {
 	saved := a.iter
 	a.iter.index = 0
-- 
2.43.0


From efdda4d1f34e9fee2c633e1d99047bb11cc3a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 36/53] fix: name the field of a query as it is declared so
 that the cursor can reach it

---
 sqlastutil/rewrite.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index 2f87d28..8f3b901 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -177,9 +177,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "ElseResult", nil, n.ElseResult)
 		}
 	case *sqlast.Exists:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.ObjectName:
 		a.applyList(n, "Idents")
 	case *sqlast.WindowSpec:
@@ -209,12 +209,12 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Limit", nil, n.Limit)
 		}
 	case *sqlast.CTE:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 		a.apply(n, "Alias", nil, n.Alias)
 	case *sqlast.SelectExpr:
 		a.apply(n, "Select", nil, n.Select)
 	case *sqlast.QueryExpr:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SetOperationExpr:
 		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Left", nil, n.Left)
@@ -361,7 +361,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		}
 	case *sqlast.CreateViewStmt:
 		a.apply(n, "Name", nil, n.Name)
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
-- 
2.43.0


From 376f5b8907f98baf5f558acfab5c8117f84451c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 37/53] fix: traverse nodes in source order

---
 sqlast/walk.go        | 10 +++++-----
 sqlastutil/rewrite.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 9159617..b2fa8d6 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -125,15 +125,15 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Limit)
 		}
 	case *CTE:
-		Walk(v, n.Query)
 		Walk(v, n.Alias)
+		Walk(v, n.Query)
 	case *SelectExpr:
 		Walk(v, n.Select)
 	case *QueryExpr:
 		Walk(v, n.Query)
 	case *SetOperationExpr:
-		Walk(v, n.Op)
 		Walk(v, n.Left)
+		Walk(v, n.Op)
 		Walk(v, n.Right)
 	case *UnionOperator:
 		// nothing to do
@@ -175,17 +175,17 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Type)
 		Walk(v, n.RightElement)
 	case *CrossJoin:
-		Walk(v, n.Factor)
 		Walk(v, n.Reference)
+		Walk(v, n.Factor)
 	case *PartitionedJoinTable:
 		Walk(v, n.Factor)
 		walkIdentLists(v, n.ColumnList)
 	case *Table:
 		Walk(v, n.Name)
+		walkASTNodeLists(v, n.Args)
 		if n.Alias != nil {
 			Walk(v, n.Alias)
 		}
-		walkASTNodeLists(v, n.Args)
 		walkASTNodeLists(v, n.WithHints)
 	case *Derived:
 		Walk(v, n.SubQuery)
@@ -381,10 +381,10 @@ func Walk(v Visitor, node Node) {
 			Walk(v, t)
 		}
 	case *CreateIndexStmt:
-		Walk(v, n.TableName)
 		if n.IndexName != nil {
 			Walk(v, n.IndexName)
 		}
+		Walk(v, n.TableName)
 		if n.MethodName != nil {
 			Walk(v, n.MethodName)
 		}
diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index 8f3b901..e0abeaa 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -209,15 +209,15 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Limit", nil, n.Limit)
 		}
 	case *sqlast.CTE:
-		a.apply(n, "Query", nil, n.Query)
 		a.apply(n, "Alias", nil, n.Alias)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SelectExpr:
 		a.apply(n, "Select", nil, n.Select)
 	case *sqlast.QueryExpr:
 		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SetOperationExpr:
-		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Left", nil, n.Left)
+		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Right", nil, n.Right)
 	case *sqlast.UnionOperator:
 		// nothing to do
@@ -253,17 +253,17 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		a.apply(n, "Type", nil, n.Type)
 		a.apply(n, "RightElement", nil, n.RightElement)
 	case *sqlast.CrossJoin:
-		a.apply(n, "Factor", nil, n.Factor)
 		a.apply(n, "Reference", nil, n.Reference)
+		a.apply(n, "Factor", nil, n.Factor)
 	case *sqlast.PartitionedJoinTable:
 		a.apply(n, "Factor", nil, n.Factor)
 		a.applyList(n, "ColumnList")
 	case *sqlast.Table:
 		a.apply(n, "Name", nil, n.Name)
+		a.applyList(n, "Args")
 		if n.Alias != nil {
 			a.apply(n, "Alias", nil, n.Alias)
 		}
-		a.applyList(n, "Args")
 		a.applyList(n, "WithHints")
 	case *sqlast.Derived:
 		a.apply(n, "SubQuery", nil, n.SubQuery)
@@ -439,10 +439,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.DropTableStmt:
 		a.applyList(n, "TableNames")
 	case *sqlast.CreateIndexStmt:
-		a.apply(n, "TableName", nil, n.TableName)
 		if n.IndexName != nil {
 			a.apply(n, "IndexName", nil, n.IndexName)
 		}
+		a.apply(n, "TableName", nil, n.TableName)
 		if n.MethodName != nil {
 			a.apply(n, "MethodName", nil, n.MethodName)
 		}
-- 
2.43.0


From a6fdbff62d3406757887f665a9e483cfd4f33c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 38/53] fix: positions of nodes without optional parts do not
 panic

---
 sqlast/ast.go  | 21 +++++++++++++++++++++
 sqlast/stmt.go | 29 +++++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 3271d2c..fceac7f 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -28,6 +28,12 @@ type File struct {
 }
 
 func (f *File) End() sqltoken.Pos {
+	if len(f.Stmts) == 0 {
+		if len(f.Comments) == 0 {
+			return sqltoken.Pos{}
+		}
+		return f.Comments[len(f.Comments)-1].End()
+	}
 
 	if len(f.Comments) != 0 {
 		if sqltoken.ComparePos(f.Comments[len(f.Comments)-1].End(), f.Stmts[len(f.Stmts)-1].End()) == 1 {
@@ -39,6 +45,13 @@ func (f *File) End() sqltoken.Pos {
 }
 
 func (f *File) Pos() sqltoken.Pos {
+	if len(f.Stmts) == 0 {
+		if len(f.Comments) == 0 {
+			return sqltoken.Pos{}
+		}
+		return f.Comments[0].Pos()
+	}
+
 	if len(f.Comments) != 0 {
 		if sqltoken.ComparePos(f.Stmts[0].Pos(), f.Comments[0].Pos()) == 1 {
 			return f.Comments[0].Pos()
@@ -576,6 +589,10 @@ func (s *WindowSpec) Pos() sqltoken.Pos {
 		return s.Order
 	}
 
+	if s.WindowsFrame == nil {
+		return sqltoken.Pos{}
+	}
+
 	return s.WindowsFrame.Pos()
 }
 
@@ -588,6 +605,10 @@ func (s *WindowSpec) End() sqltoken.Pos {
 		return s.OrderBy[len(s.OrderBy)-1].End()
 	}
 
+	if len(s.PartitionBy) == 0 {
+		return sqltoken.Pos{}
+	}
+
 	return s.PartitionBy[len(s.PartitionBy)-1].End()
 }
 
diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index b85c7ad..239c1fa 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -288,7 +288,15 @@ func (c *CreateTableStmt) Pos() sqltoken.Pos {
 }
 
 func (c *CreateTableStmt) End() sqltoken.Pos {
-	return c.Elements[len(c.Elements)-1].End()
+	if len(c.Options) != 0 {
+		return c.Options[len(c.Options)-1].End()
+	}
+
+	if len(c.Elements) != 0 {
+		return c.Elements[len(c.Elements)-1].End()
+	}
+
+	return c.Name.End()
 }
 
 func (c *CreateTableStmt) ToSQLString() string {
@@ -495,7 +503,24 @@ func (c *ColumnDef) Pos() sqltoken.Pos {
 }
 
 func (c *ColumnDef) End() sqltoken.Pos {
-	return c.Constraints[len(c.Constraints)-1].End()
+	end := c.DataType.End()
+	latest := func(n Node) {
+		if sqltoken.ComparePos(n.End(), end) == 1 {
+			end = n.End()
+		}
+	}
+
+	if c.Default != nil {
+		latest(c.Default)
+	}
+	for _, m := range c.MyDataTypeDecoration {
+		latest(m)
+	}
+	for _, cons := range c.Constraints {
+		latest(cons)
+	}
+
+	return end
 }
 
 func (c *ColumnDef) ToSQLString() string {
-- 
2.43.0


From a97c7e9e015cbc39e820e3fd6ca1328813c386d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 39/53] fix: take the position of an OFFSET value from its own
 token

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 6b7fc1c..37b8b2e 100644
--- a/parser.go
+++ b/parser.go
@@ -1935,8 +1935,8 @@ func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
 	}
 
 	var offset *sqlast.LongValue
-	if ok, tok, _ := p.parseKeyword("OFFSET"); ok {
-		o, _, err := p.parseLiteralInt()
+	if ok, _, _ := p.parseKeyword("OFFSET"); ok {
+		o, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("invalid offset value: %w", err)
 		}
-- 
2.43.0


From 731937e3e0cb003dea14a48c31bd69f87f2e5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 40/53] fix: report an error of the tokenizer in astprinter
 instead of crashing

---
 cmd/astprinter/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/astprinter/main.go b/cmd/astprinter/main.go
index fd46503..eef250e 100644
--- a/cmd/astprinter/main.go
+++ b/cmd/astprinter/main.go
@@ -29,7 +29,10 @@ func main() {
 		src = file
 	}
 
-	parser, _ := xsqlparser.NewParser(src, &dialect.GenericSQLDialect{})
+	parser, err := xsqlparser.NewParser(src, &dialect.GenericSQLDialect{})
+	if err != nil {
+		log.Fatal(err)
+	}
 	stmt, err := parser.ParseStatement()
 	if err != nil {
 		log.Fatal(err)
-- 
2.43.0


From 5b6826b800b39f10bdf096d2ffb71c894789acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 41/53] fix: set the source extents of clauses, joins, window
 frames and statements

---
 parser.go       | 176 +++++++++++++++++++++++++++++++-----------------
 sqlast/ast.go   |   4 +-
 sqlast/query.go |   4 +-
 3 files changed, 120 insertions(+), 64 deletions(-)

diff --git a/parser.go b/parser.go
index 37b8b2e..9644e4e 100644
--- a/parser.go
+++ b/parser.go
@@ -182,7 +182,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		if err != nil {
 			return nil, err
 		}
-		return &sqlast.ExplainStmt{Stmt: stmt}, nil
+		return &sqlast.ExplainStmt{Stmt: stmt, Explain: tok.From}, nil
 	default:
 		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", keyword(word))
 	}
@@ -384,14 +384,20 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 		}
 		s.Select = tok.From
 		expr = s
-	} else if ok, _ := p.consumeToken(sqltoken.LParen); ok {
+	} else if l, _ := p.peekToken(); l != nil && l.Kind == sqltoken.LParen {
+		p.mustNextToken()
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r, _ := p.nextToken()
+		if r == nil || r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
 		expr = &sqlast.QueryExpr{
-			Query: subquery,
+			LParen: l.From,
+			RParen: r.To,
+			Query:  subquery,
 		}
 	} else {
 		log.Panicln("expect SELECT or subquery in the query body")
@@ -440,11 +446,11 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 	word := token.Value.(*sqltoken.SQLWord)
 	switch keyword(word) {
 	case "UNION":
-		return &sqlast.UnionOperator{}
+		return &sqlast.UnionOperator{From: token.From, To: token.To}
 	case "EXCEPT":
-		return &sqlast.ExceptOperator{}
+		return &sqlast.ExceptOperator{From: token.From, To: token.To}
 	case "INTERSECT":
-		return &sqlast.IntersectOperator{}
+		return &sqlast.IntersectOperator{From: token.From, To: token.To}
 	}
 
 	return nil
@@ -572,7 +578,7 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX")
 
 	if iok || uiok {
-		return p.parseCreateIndex(uiok)
+		return p.parseCreateIndex(t, uiok)
 	}
 
 	log.Panicln("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
@@ -628,7 +634,7 @@ func (p *Parser) parseCreateView(create *sqltoken.Token) (sqlast.Stmt, error) {
 
 }
 
-func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
+func (p *Parser) parseCreateIndex(create *sqltoken.Token, unique bool) (sqlast.Stmt, error) {
 	var indexName *sqlast.Ident
 	ok, _, _ := p.parseKeyword("ON")
 	if !ok {
@@ -655,12 +661,17 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	var columns []*sqlast.Ident
+	var rparen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		columns, err = p.parseColumnNames()
 		if err != nil {
 			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r, _ := p.nextToken()
+		if r == nil || r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
+		rparen = r.To
 	}
 
 	var selection sqlast.Node
@@ -673,11 +684,13 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	return &sqlast.CreateIndexStmt{
+		Create:      create.From,
 		IsUnique:    unique,
 		IndexName:   indexName,
 		TableName:   tableName,
 		MethodName:  methodName,
 		ColumnNames: columns,
+		RParen:      rparen,
 		Selection:   selection,
 	}, nil
 }
@@ -1753,7 +1766,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 				Ref: ref,
 			},
 			Spec: spec,
-			Type: &sqlast.JoinType{Condition: sqlast.INNER},
+			Type: &sqlast.JoinType{Condition: sqlast.INNER, From: tok.From, To: tok.To},
 		}, nil
 	case "LEFT", "RIGHT", "FULL", "JOIN":
 		p.prevToken()
@@ -1801,12 +1814,12 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "LEFT":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, outerTok, _ := p.parseKeyword("OUTER")
 		if outer {
 			return &sqlast.JoinType{
 				Condition: sqlast.LEFTOUTER,
 				From:      tok.From,
-				To:        tok.To,
+				To:        outerTok.To,
 			}, nil
 		}
 		return &sqlast.JoinType{
@@ -1815,17 +1828,17 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "RIGHT":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, outerTok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{Condition: sqlast.RIGHTOUTER}, nil
+			return &sqlast.JoinType{Condition: sqlast.RIGHTOUTER, From: tok.From, To: outerTok.To}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.RIGHT}, nil
+		return &sqlast.JoinType{Condition: sqlast.RIGHT, From: tok.From, To: tok.To}, nil
 	case "FULL":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, outerTok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{Condition: sqlast.FULLOUTER}, nil
+			return &sqlast.JoinType{Condition: sqlast.FULLOUTER, From: tok.From, To: outerTok.To}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.FULL}, nil
+		return &sqlast.JoinType{Condition: sqlast.FULL, From: tok.From, To: tok.To}, nil
 	case "JOIN":
 		p.prevToken()
 		return &sqlast.JoinType{Condition: sqlast.IMPLICIT}, nil
@@ -1846,7 +1859,7 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 		}, nil
 	}
 
-	ok, _, _ := p.parseKeyword("USING")
+	ok, using, _ := p.parseKeyword("USING")
 	if !ok {
 		tok, _ := p.nextToken()
 		return nil, errors.Errorf("unknown join spec need USING or ON but: %v", tok)
@@ -1857,26 +1870,42 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 	if err != nil {
 		return nil, errors.Errorf("parse named columns join list failed: %w", err)
 	}
-	p.expectToken(sqltoken.RParen)
+	r, _ := p.nextToken()
+	if r == nil || r.Kind != sqltoken.RParen {
+		return nil, errors.Errorf("expected RParen but %+v", r)
+	}
 
 	return &sqlast.NamedColumnsJoin{
 		ColumnList: idents,
+		Using:      using.From,
+		RParen:     r.To,
 	}, nil
 }
 
 func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
-	isLateral, _, _ := p.parseKeyword("LATERAL")
+	isLateral, lateral, _ := p.parseKeyword("LATERAL")
+	var lateralPos sqltoken.Pos
+	if isLateral {
+		lateralPos = lateral.From
+	}
+	l, _ := p.peekToken()
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r, _ := p.nextToken()
+		if r == nil || r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
 		alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 		return &sqlast.Derived{
-			Lateral:  isLateral,
-			SubQuery: subquery,
-			Alias:    alias,
+			Lateral:    isLateral,
+			LateralPos: lateralPos,
+			LParen:     l.From,
+			RParen:     r.To,
+			SubQuery:   subquery,
+			Alias:      alias,
 		}, nil
 	} else if isLateral && !ok {
 		t, _ := p.nextToken()
@@ -1888,6 +1917,7 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		return nil, errors.Errorf("parseObjectName failed: %w", err)
 	}
 	var args []sqlast.Node
+	var argsRParen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		a, err := p.parseOptionalArgs()
 		if err != nil {
@@ -1897,11 +1927,16 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		if args == nil {
 			args = []sqlast.Node{}
 		}
-		p.expectToken(sqltoken.RParen)
+		r, _ := p.nextToken()
+		if r == nil || r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
+		argsRParen = r.To
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
 	var withHints []sqlast.Node
+	var withHintsRParen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("WITH"); ok {
 		if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 			h, err := p.parseExprList()
@@ -1909,24 +1944,30 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 				return nil, errors.Errorf("parseExprList failed: %w", err)
 			}
 			withHints = h
-			p.expectToken(sqltoken.RParen)
+			r, _ := p.nextToken()
+			if r == nil || r.Kind != sqltoken.RParen {
+				return nil, errors.Errorf("expected RParen but %+v", r)
+			}
+			withHintsRParen = r.To
 		} else {
 			p.prevToken()
 		}
 	}
 
 	return &sqlast.Table{
-		Name:      name,
-		Args:      args,
-		Alias:     alias,
-		WithHints: withHints,
+		Name:            name,
+		Args:            args,
+		ArgsRParen:      argsRParen,
+		Alias:           alias,
+		WithHints:       withHints,
+		WithHintsRParen: withHintsRParen,
 	}, nil
 
 }
 
 func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
-	if ok, _, _ := p.parseKeyword("ALL"); ok {
-		return &sqlast.LimitExpr{All: true}, nil
+	if ok, tok, _ := p.parseKeyword("ALL"); ok {
+		return &sqlast.LimitExpr{All: true, AllPos: tok.To}, nil
 	}
 
 	i, tok, err := p.parseLiteralInt()
@@ -2117,13 +2158,14 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	return nil, nil
 }
 
-// TODO position
 func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 	tp, err := p.ParseDataType()
 	if err != nil {
 		return nil, errors.Errorf("ParseDataType failed: %w", err)
 	}
 	return &sqlast.Cast{
+		Cast:     expr.Pos(),
+		RParen:   tp.End(),
 		Expr:     expr,
 		DataType: tp,
 	}, nil
@@ -2314,7 +2356,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 			}
 			return &sqlast.UnaryExpr{
 				From: tok.From,
-				Op:   &sqlast.Operator{Type: sqlast.Not},
+				Op:   &sqlast.Operator{Type: sqlast.Not, From: tok.From, To: tok.To},
 				Expr: expr,
 			}, nil
 		default:
@@ -2468,6 +2510,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 	}
 
 	var over *sqlast.WindowSpec
+	var overPos sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("OVER"); ok {
 		p.expectToken(sqltoken.LParen)
 
@@ -2499,7 +2542,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 			order = otok.From
 		}
 
-		windowFrame, err := p.parseWindowFrame()
+		windowFrame, overRParen, err := p.parseWindowFrame()
 		if err != nil {
 			return nil, errors.Errorf("parseWindowFrame failed: %w", err)
 		}
@@ -2511,6 +2554,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 			Partition:    partition,
 			Order:        order,
 		}
+		overPos = overRParen
 	}
 
 	return &sqlast.Function{
@@ -2518,6 +2562,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 		Args:       args,
 		Over:       over,
 		ArgsRParen: r.To,
+		OverRparen: overPos,
 	}, nil
 }
 
@@ -2544,17 +2589,22 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 		}
 		var asc *bool
 
-		if ok, _, _ := p.parseKeyword("ASC"); ok {
+		var orderingPos sqltoken.Pos
+
+		if ok, tok, _ := p.parseKeyword("ASC"); ok {
 			b := true
 			asc = &b
-		} else if ok, _, _ := p.parseKeyword("DESC"); ok {
+			orderingPos = tok.To
+		} else if ok, tok, _ := p.parseKeyword("DESC"); ok {
 			b := false
 			asc = &b
+			orderingPos = tok.To
 		}
 
 		exprList = append(exprList, &sqlast.OrderByExpr{
-			Expr: expr,
-			ASC:  asc,
+			Expr:        expr,
+			OrderingPos: orderingPos,
+			ASC:         asc,
 		})
 
 		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
@@ -2567,7 +2617,7 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 	return exprList, nil
 }
 
-func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
+func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, sqltoken.Pos, error) {
 	var windowFrame *sqlast.WindowFrame
 	t, _ := p.peekToken()
 	if t.Kind == sqltoken.SQLKeyword {
@@ -2577,19 +2627,20 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		// FIXME
 		units, err := u.FromStr(keyword(w))
 		if err != nil {
-			return nil, errors.Errorf("invalid window frame unit: %w", err)
+			return nil, sqltoken.Pos{}, errors.Errorf("invalid window frame unit: %w", err)
 		}
+		units.From, units.To = t.From, t.To
 		p.mustNextToken()
 
 		if ok, _, _ := p.parseKeyword("BETWEEN"); ok {
 			startBound, err := p.parseWindowFrameBound()
 			if err != nil {
-				return nil, errors.Errorf("parseWindowFrameBound: %w", err)
+				return nil, sqltoken.Pos{}, errors.Errorf("parseWindowFrameBound: %w", err)
 			}
 			p.expectKeyword("AND")
 			endBound, err := p.parseWindowFrameBound()
 			if err != nil {
-				return nil, errors.Errorf("parseWindowFrameBound: %w", err)
+				return nil, sqltoken.Pos{}, errors.Errorf("parseWindowFrameBound: %w", err)
 			}
 
 			windowFrame = &sqlast.WindowFrame{
@@ -2600,7 +2651,7 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		} else {
 			startBound, err := p.parseWindowFrameBound()
 			if err != nil {
-				return nil, errors.Errorf("parseWindowFrameBound: %w", err)
+				return nil, sqltoken.Pos{}, errors.Errorf("parseWindowFrameBound: %w", err)
 			}
 			windowFrame = &sqlast.WindowFrame{
 				StartBound: startBound,
@@ -2609,25 +2660,29 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		}
 	}
 
-	p.expectToken(sqltoken.RParen)
-	return windowFrame, nil
+	r, _ := p.nextToken()
+	if r == nil || r.Kind != sqltoken.RParen {
+		return nil, sqltoken.Pos{}, errors.Errorf("expected RParen but %+v", r)
+	}
+	return windowFrame, r.To, nil
 }
 
 func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
-	if ok, _, _ := p.parseKeywords("CURRENT", "ROW"); ok {
-		return &sqlast.CurrentRow{}, nil
+	if ok, toks, _ := p.parseKeywords("CURRENT", "ROW"); ok {
+		return &sqlast.CurrentRow{Current: toks[0].From, Row: toks[1].To}, nil
 	}
 
 	var rows *uint64
-	if ok, _, _ := p.parseKeyword("UNBOUNDED"); ok {
-		if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-			return &sqlast.UnboundedPreceding{}, nil
+	var from sqltoken.Pos
+	if ok, u, _ := p.parseKeyword("UNBOUNDED"); ok {
+		if ok, tok, _ := p.parseKeyword("PRECEDING"); ok {
+			return &sqlast.UnboundedPreceding{Unbounded: u.From, Preceding: tok.To}, nil
 		}
-		if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-			return &sqlast.UnboundedFollowing{}, nil
+		if ok, tok, _ := p.parseKeyword("FOLLOWING"); ok {
+			return &sqlast.UnboundedFollowing{Unbounded: u.From, Following: tok.To}, nil
 		}
 	} else {
-		i, _, err := p.parseLiteralInt()
+		i, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("parseLiteralInt failed: %w", err)
 		}
@@ -2636,13 +2691,14 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 		}
 		ui := uint64(i)
 		rows = &ui
+		from = tok.From
 	}
 
-	if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-		return &sqlast.Preceding{Bound: rows}, nil
+	if ok, tok, _ := p.parseKeyword("PRECEDING"); ok {
+		return &sqlast.Preceding{Bound: rows, From: from, Preceding: tok.To}, nil
 	}
-	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-		return &sqlast.Following{Bound: rows}, nil
+	if ok, tok, _ := p.parseKeyword("FOLLOWING"); ok {
+		return &sqlast.Following{Bound: rows, From: from, Following: tok.To}, nil
 	}
 	log.Panicln("expected PRECEDING or FOLLOWING")
 	return nil, nil
diff --git a/sqlast/ast.go b/sqlast/ast.go
index fceac7f..ea4dbc3 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -526,11 +526,11 @@ type SubQuery struct {
 }
 
 func (s *SubQuery) Pos() sqltoken.Pos {
-	return s.RParen
+	return s.LParen
 }
 
 func (s *SubQuery) End() sqltoken.Pos {
-	return s.LParen
+	return s.RParen
 }
 
 func (s *SubQuery) ToSQLString() string {
diff --git a/sqlast/query.go b/sqlast/query.go
index 9d681bc..d61c3d3 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -326,7 +326,7 @@ func (t *Table) End() sqltoken.Pos {
 		return t.Alias.End()
 	}
 
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		return t.ArgsRParen
 	}
 
@@ -375,7 +375,7 @@ func (d *Derived) End() sqltoken.Pos {
 		return d.Alias.End()
 	}
 
-	return d.LParen
+	return d.RParen
 }
 
 func (d *Derived) ToSQLString() string {
-- 
2.43.0


From 67e5b941b0c4e723f9f2ea9c4262b10459dcf277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 42/53] fix: report too deeply nested input instead of
 overflowing the stack

---
 parser.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/parser.go b/parser.go
index 9644e4e..77a71f7 100644
--- a/parser.go
+++ b/parser.go
@@ -20,6 +20,23 @@ type Parser struct {
 	index        uint
 	comments     map[sqltoken.Pos]*sqlast.CommentGroup
 	parseComment bool
+	nesting      int
+}
+
+// maxNesting limits how deep statements, queries and expressions may be nested, the parser being recursive.
+const maxNesting = 100000
+
+// enter begins a nested construct, which leave ends.
+func (p *Parser) enter() error {
+	if p.nesting >= maxNesting {
+		return errors.Errorf("nested deeper than %d levels", maxNesting)
+	}
+	p.nesting++
+	return nil
+}
+
+func (p *Parser) leave() {
+	p.nesting--
 }
 
 type ParserOption func(*Parser)
@@ -146,6 +163,11 @@ func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
 func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 	defer recoverError(&err)
 
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, err
@@ -334,6 +356,11 @@ func (p *Parser) ParseExpr() (_ sqlast.Node, err error) {
 }
 
 func (p *Parser) parseQuery() (*sqlast.QueryStmt, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	hasCTE, _, _ := p.parseKeyword("WITH")
 	var ctes []*sqlast.CTE
 	if hasCTE {
@@ -1667,6 +1694,11 @@ func (p *Parser) parseFromClause() ([]sqlast.TableReference, error) {
 }
 
 func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	leftElem, err := p.parseTableFactor()
 	if err != nil {
 		return nil, errors.Errorf("parse joined table left element failed: %w", err)
@@ -2297,6 +2329,11 @@ func (p *Parser) getPrecedence(ts *sqltoken.Token) uint {
 }
 
 func (p *Parser) parsePrefix() (sqlast.Node, error) {
+	if err := p.enter(); err != nil {
+		return nil, err
+	}
+	defer p.leave()
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, errors.Errorf("nextToken error: %w", err)
-- 
2.43.0


From 2a4a82004a6f4c226ea0f0462d630ef6cd989839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 43/53] fix: reject CREATE INDEX UNIQUE INDEX

---
 parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 77a71f7..0178849 100644
--- a/parser.go
+++ b/parser.go
@@ -601,11 +601,12 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 		return p.parseCreateView(t)
 	}
 
-	iok, _, _ := p.parseKeyword("INDEX")
-	uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX")
+	if iok, _, _ := p.parseKeyword("INDEX"); iok {
+		return p.parseCreateIndex(t, false)
+	}
 
-	if iok || uiok {
-		return p.parseCreateIndex(t, uiok)
+	if uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX"); uiok {
+		return p.parseCreateIndex(t, true)
 	}
 
 	log.Panicln("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
-- 
2.43.0


From 5fe744c24e53e8c05c197bd5c553eef6fa5599ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 44/53] fix: report a missing alias after AS at the end of the
 text

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 0178849..1aafe58 100644
--- a/parser.go
+++ b/parser.go
@@ -1622,6 +1622,9 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	maybeAlias, _ := p.nextToken()
 
 	if maybeAlias == nil {
+		if afterAs {
+			log.Panicf("expected an identifier after AS")
+		}
 		return nil
 	}
 
-- 
2.43.0


From a3c3300146bb598164eee89e0186f2f443eeb174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 45/53] fix: do not drop SELECT before WITH in a parenthesised
 subquery

---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 1aafe58..27f8d53 100644
--- a/parser.go
+++ b/parser.go
@@ -2210,7 +2210,10 @@ func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 	p.expectToken(sqltoken.LParen)
 	sok, _, _ := p.parseKeyword("SELECT")
-	wok, _, _ := p.parseKeyword("WITH")
+	wok := false
+	if !sok {
+		wok, _, _ = p.parseKeyword("WITH")
+	}
 	var inop sqlast.Node
 	if sok || wok {
 		p.prevToken()
@@ -2498,7 +2501,10 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		return v, nil
 	case sqltoken.LParen:
 		sok, _, _ := p.parseKeyword("SELECT")
-		wok, _, _ := p.parseKeyword("WITH")
+		wok := false
+		if !sok {
+			wok, _, _ = p.parseKeyword("WITH")
+		}
 
 		var ast sqlast.Node
 
-- 
2.43.0


From 9f67f7f24670e523bd076d40ee0156782a831812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 46/53] fix: place nodes whose keyword position is not recorded
 by their parts

---
 sqlast/query.go | 15 +++++++++++++++
 sqlast/stmt.go  | 10 ++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/sqlast/query.go b/sqlast/query.go
index d61c3d3..5bf6b61 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -19,6 +19,9 @@ type QueryStmt struct {
 
 func (q *QueryStmt) Pos() sqltoken.Pos {
 	if len(q.CTEs) != 0 {
+		if q.With == (sqltoken.Pos{}) {
+			return q.CTEs[0].Pos()
+		}
 		return q.With
 	}
 
@@ -77,6 +80,9 @@ func (c *CTE) Pos() sqltoken.Pos {
 }
 
 func (c *CTE) End() sqltoken.Pos {
+	if c.RParen == (sqltoken.Pos{}) {
+		return c.Query.End()
+	}
 	return c.RParen
 }
 
@@ -762,6 +768,15 @@ type LimitExpr struct {
 }
 
 func (l *LimitExpr) Pos() sqltoken.Pos {
+	if l.Limit == (sqltoken.Pos{}) {
+		if l.LimitValue != nil {
+			return l.LimitValue.Pos()
+		}
+		return sqltoken.Pos{
+			Line: l.AllPos.Line,
+			Col:  l.AllPos.Col - len("ALL"),
+		}
+	}
 	return l.Limit
 }
 
diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index 239c1fa..d56a2e8 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -82,6 +82,9 @@ type ConstructorSource struct {
 }
 
 func (c *ConstructorSource) Pos() sqltoken.Pos {
+	if c.Values == (sqltoken.Pos{}) {
+		return c.Rows[0].Pos()
+	}
 	return c.Values
 }
 
@@ -573,10 +576,13 @@ type ColumnConstraint struct {
 }
 
 func (c *ColumnConstraint) Pos() sqltoken.Pos {
-	if c.Name == nil {
+	if c.Constraint != (sqltoken.Pos{}) {
 		return c.Constraint
 	}
-	return c.Name.Pos()
+	if c.Name != nil {
+		return c.Name.Pos()
+	}
+	return c.Spec.Pos()
 }
 
 func (c *ColumnConstraint) End() sqltoken.Pos {
-- 
2.43.0


From b366e01b118237585372225d44236168028dd5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 47/53] fix: end an index without columns with its method or
 table

---
 sqlast/stmt.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index d56a2e8..4179265 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -1098,7 +1098,15 @@ func (c *CreateIndexStmt) End() sqltoken.Pos {
 		return c.Selection.End()
 	}
 
-	return c.RParen
+	if len(c.ColumnNames) != 0 {
+		return c.RParen
+	}
+
+	if c.MethodName != nil {
+		return c.MethodName.End()
+	}
+
+	return c.TableName.End()
 }
 
 func (c *CreateIndexStmt) ToSQLString() string {
-- 
2.43.0


From 4dbf7c0fea18e9626c36e4bafee6323cbe11968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 48/53] fix: set the extent of the join type of a plain JOIN

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 27f8d53..7d41784 100644
--- a/parser.go
+++ b/parser.go
@@ -1877,7 +1877,7 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 		return &sqlast.JoinType{Condition: sqlast.FULL, From: tok.From, To: tok.To}, nil
 	case "JOIN":
 		p.prevToken()
-		return &sqlast.JoinType{Condition: sqlast.IMPLICIT}, nil
+		return &sqlast.JoinType{Condition: sqlast.IMPLICIT, From: tok.From, To: tok.To}, nil
 	default:
 		return nil, errors.Errorf("unknown join type: %v", word)
 	}
-- 
2.43.0


From 31ddb76bb28cdab6a54920849967592559df3657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 49/53] fix: compute the end of IS [NOT] NULL in linear time

The end of the operand was computed twice at every level, so that a chain
of n such tests took 2^n steps.
---
 sqlast/ast.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index ea4dbc3..9bf115a 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -191,10 +191,9 @@ func (s *IsNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNull) End() sqltoken.Pos {
-	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 8,
-	}
+	end := s.X.End()
+	end.Col += 8
+	return end
 }
 
 func (s *IsNull) ToSQLString() string {
@@ -215,10 +214,9 @@ func (s *IsNotNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNotNull) End() sqltoken.Pos {
-	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 12,
-	}
+	end := s.X.End()
+	end.Col += 12
+	return end
 }
 
 func (s *IsNotNull) ToSQLString() string {
-- 
2.43.0


From 13db5bd05612c3bdaf34a1fcc71c7a8af40f7494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 50/53] fix: count the column of a word in characters, not
 bytes

A dialect whose identifiers may hold non-ASCII characters got columns that were too large for everything behind such a word on the line.
---
 sqltoken/tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 2e90e5c..666b41f 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"strings"
 	"text/scanner"
+	"unicode/utf8"
 
 	errors "golang.org/x/xerrors"
 
@@ -498,7 +499,7 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 	}
 
 	str := builder.String()
-	t.Col += len(str)
+	t.Col += utf8.RuneCountInString(str)
 	return str
 }
 
-- 
2.43.0


From 0a776f522040a7940b8a3c5a810cb37f76833ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 51/53] fix: do not take a word for a keyword by Unicode case
 folding

parseKeyword compared with EqualFold, so that in a dialect with non-ASCII letters an identifier spelled with a Kelvin sign was taken for LIKE or KEY, although the tokenizer says it is no keyword.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 7d41784..0ec70ca 100644
--- a/parser.go
+++ b/parser.go
@@ -3309,7 +3309,7 @@ func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 		return false, tok, nil
 	}
 
-	if word.QuoteStyle == 0 && strings.EqualFold(word.Value, expected) {
+	if word.QuoteStyle == 0 && strings.ToUpper(word.Value) == expected {
 		p.mustNextToken()
 		return true, tok, nil
 	}
-- 
2.43.0


From bdee4abcbaaa721f41dd1a3217e7f80b4569c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 52/53] fix: a timestamp without time zone extends to ZONE

---
 parser.go      | 4 ++--
 sqlast/type.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 0ec70ca..6068006 100644
--- a/parser.go
+++ b/parser.go
@@ -280,9 +280,9 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "DATE":
 		return &sqlast.Date{From: tok.From, To: tok.To}, nil
 	case "TIMESTAMP":
-		wok, _, zone := p.parseTimeZone()
+		wok, ook, zone := p.parseTimeZone()
 		var zonePos sqltoken.Pos
-		if wok {
+		if wok || ook {
 			zonePos = zone.To
 		}
 		return &sqlast.Timestamp{
diff --git a/sqlast/type.go b/sqlast/type.go
index 926b79c..7a0760e 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -436,7 +436,7 @@ func (t *Timestamp) Pos() sqltoken.Pos {
 }
 
 func (t *Timestamp) End() sqltoken.Pos {
-	if t.WithTimeZone {
+	if t.WithTimeZone || t.Zone != (sqltoken.Pos{}) {
 		return t.Zone
 	}
 
-- 
2.43.0


From bb864ae52572e070c2c9945ab914dafaa01bc215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 53/53] fix: the operator NOT LIKE extends to LIKE

---
 parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 6068006..6e0fcb9 100644
--- a/parser.go
+++ b/parser.go
@@ -2104,6 +2104,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
 	}
+	opTo := tok.To
 
 	switch tok.Kind {
 	case sqltoken.Eq:
@@ -2138,9 +2139,10 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		case "LIKE":
 			operator = sqlast.Like
 		case "NOT":
-			ok, _, _ := p.parseKeyword("LIKE")
+			ok, like, _ := p.parseKeyword("LIKE")
 			if ok {
 				operator = sqlast.NotLike
+				opTo = like.To
 			}
 		}
 	}
@@ -2153,7 +2155,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		return &sqlast.BinaryExpr{
 			Left:  expr,
-			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: tok.To},
+			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: opTo},
 			Right: right,
 		}, nil
 	}
-- 
2.43.0

