"""The planted bugs: id, property, edits (file, old text, new text), demonstration."""
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, decls=''):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, decls=decls))


T = 'sqltoken/tokenizer.go'
P = 'parser.go'

seed('c01-trailing-point', 'C01', [(T, 'return Number, string(s), nil', 'return Number, strings.TrimRight(string(s), "."), nil')], '''
	expect("tokens of 1.", tokens("1. ", &dialect.GenericSQLDialect{}), "Number 1. 1:1-1:3 | Whitespace   1:3-1:4")
''', 'a number written with a trailing point', 'the point is consumed but in no token')

seed('c01-national-drops-comments', 'C01', [(T, 'if !t.parseComment && (tok == Whitespace || tok == Comment) {',
     'if !t.parseComment && (tok == Whitespace || tok == Comment || tok == Backslash) {')], '''
	ts, err := sqltoken.NewTokenizerWithOptions(strings.NewReader("a \\\\ b"), sqltoken.DisableParseComment()).Tokenize()
	if err != nil || len(ts) != 3 {
		fail("%d tokens of a \\\\ b, %v", len(ts), err)
	}
''', 'a backslash, tokenized without whitespace and comments', 'a token that is neither whitespace nor a comment is dropped')

seed('c02-mysql-quote', 'C02', [(T, """	case '`':
		return '`'
	}
	return 0
}

var keywordCache""", """	case '`':
		return '`'
	}
	return 0
}

func isWordStart(d dialect.Dialect, r rune) bool {
	return d.IsIdentifierStart(r) || r == '_' && d.IsIdentifierPart(r)
}

var keywordCache"""), (T, "	case t.Dialect.IsIdentifierStart(r):", "	case isWordStart(t.Dialect, r):")], '''
	expect("tokens of _a", tokens("_a", &dialect.GenericSQLDialect{}), "Char _ 1:1-1:2 | SQLKeyword a 1:2-1:3")
''', 'a word after an underscore in a dialect where words cannot start with one', 'classification differs from the dialect')

seed('c02-keyword-mixed-case', 'C02', [(T, "	w := strings.ToUpper(word)\n	_, ok := dialect.Keywords[w]", "	w := word\n	if strings.ToLower(word) != word[:1]+strings.ToLower(word[1:]) {\n		w = strings.ToUpper(word)\n	} else if len(word) < 7 {\n		w = strings.ToUpper(word)\n	}\n	_, ok := dialect.Keywords[w]")], '''
	expect("keyword", sqltoken.MakeKeyword("rEfErEnCeS", 0).Keyword, "REFERENCES")
''', 'a long keyword in mixed case starting with a lower case letter', 'the keyword of a word is not its upper case form')

seed('c03-tab-in-comment', 'C03', [(T, """		} else {
			t.Col += 1
		}

		if mayBeClosingComment {""", """		} else {
			t.Col += width(n)
		}

		if mayBeClosingComment {"""), (T, "func (t *Tokenizer) tokenizeMultilineComment", "func width(r rune) int {\n	if r == '\\t' {\n		return 4\n	}\n	return 1\n}\n\nfunc (t *Tokenizer) tokenizeMultilineComment")], '''
	expect("tokens", tokens("/*\\t*/a", &dialect.GenericSQLDialect{}), "Comment \\t 1:1-1:6 | SQLKeyword a 1:6-1:7")
''', 'a tab inside a block comment followed by code on the same line', 'the columns after the comment')

seed('c03-cr-line', 'C03', [(T, """		if n == '\\n' {
			t.Scanner.Next()
		}
		t.Line += 1
		t.Col = 1
		return Whitespace, "\\n", nil""", """		if n == '\\n' || n == '\\r' {
			t.Scanner.Next()
		}
		t.Line += 1
		t.Col = 1
		return Whitespace, "\\n", nil""")], '''
	expect("tokens", tokens("\\r\\ra", &dialect.GenericSQLDialect{}), "Whitespace \\n 1:1-2:1 | Whitespace \\n 2:1-3:1 | SQLKeyword a 3:1-3:2")
''', 'two carriage returns in a row', 'a line is lost')

seed('c05-having-without-group', 'C05', [(P, """	var having sqlast.Node
	if ok, _, _ := p.parseKeyword("HAVING"); ok {""", """	var having sqlast.Node
	if ok, _, _ := p.parseKeyword("HAVING"); ok && distinct {
		groupBy = nil
		h, err := p.ParseExpr()
		if err != nil {
			return nil, errors.Errorf("ParseExpr failed: %w", err)
		}
		having = h
	} else if ok {""")], '''
	s := sql("SELECT DISTINCT a FROM t GROUP BY a HAVING b")
	expect("printed", s, "SELECT DISTINCT a FROM t GROUP BY a HAVING b")
''', 'SELECT DISTINCT with GROUP BY and HAVING', 'the grouping is lost')

seed('c05-scale-zero', 'C05', [(P, "		us := uint(s)\n		scale = &us\n", "		if us := uint(s); us > 0 {\n			scale = &us\n		}\n")], '''
	if ast("CREATE TABLE t (a NUMERIC(5,0))") == ast("CREATE TABLE t (a NUMERIC(5))") {
		fail("the scale 0 is lost")
	}
''', 'NUMERIC with a scale of zero', 'the scale is lost')

seed('c06-except-left', 'C06', [(P, """		right, err := p.parseQueryBody(nextPrecedence)
		if err != nil {
			return nil, errors.Errorf("parseQueryBody failed: %w", err)
		}

		expr = &sqlast.SetOperationExpr{""", """		rightPrecedence := nextPrecedence
		if _, ok := op.(*sqlast.ExceptOperator); ok && all {
			rightPrecedence--
		}
		right, err := p.parseQueryBody(rightPrecedence)
		if err != nil {
			return nil, errors.Errorf("parseQueryBody failed: %w", err)
		}

		expr = &sqlast.SetOperationExpr{""")], '''
	f := mustParse("SELECT a EXCEPT ALL SELECT b UNION SELECT c")
	if _, ok := f.Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SetOperationExpr).Op.(*sqlast.UnionOperator); !ok {
		fail("grouped to the right")
	}
''', 'EXCEPT ALL followed by another set operation', 'set operations are grouped to the right')

seed('c06-mod-precedence', 'C06', [(P, """	case sqltoken.Mult, sqltoken.Div, sqltoken.Mod:
		return 40""", """	case sqltoken.Mult, sqltoken.Div:
		return 40
	case sqltoken.Mod:
		return 41""")], '''
	f := mustParse("SELECT a * b % c")
	e := f.Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).Projection[0].(*sqlast.UnnamedSelectItem).Node.(*sqlast.BinaryExpr)
	if e.Op.Type != sqlast.Modulus {
		fail("a * (b %% c)")
	}
''', '% after * or /', 'multiplicative operators are not grouped to the left')

seed('c08-adjacent-comments', 'C08', [(P, """		tok := p.tokens[idx]
		if tok.Kind == sqltoken.Whitespace || tok.Kind == sqltoken.Comment {
			idx += 1
			continue
		}
		return idx, nil""", """		tok := p.tokens[idx]
		if tok.Kind == sqltoken.Comment {
			idx += 1
			if idx >= uint(len(p.tokens)) {
				return 0, EOF
			}
			tok = p.tokens[idx]
		}
		if tok.Kind == sqltoken.Whitespace {
			idx += 1
			continue
		}
		return idx, nil""")], '''
	expect("with two comments", ast("SELECT /*x*//*y*/ DISTINCT a"), ast("SELECT DISTINCT a"))
''', 'two comments with nothing between them', 'the parser stops at the second')

seed('c09-lower-quoted', 'C09', [(P, "func (p *Parser) parseColumnNames() ([]*sqlast.Ident, error) {\n	return p.parseListOfIds(sqltoken.Comma)\n}", """func (p *Parser) parseColumnNames() ([]*sqlast.Ident, error) {
	columns, err := p.parseListOfIds(sqltoken.Comma)
	for _, c := range columns {
		if len(c.Value) > 2 && c.Value[0] == '"' && strings.ToLower(c.Value) == c.Value {
			c.Value = strings.Trim(c.Value, "\\"")
		}
	}
	return columns, err
}""")], '''
	f := mustParse("INSERT INTO t (\\"select\\") VALUES (1)")
	expect("column", f.Stmts[0].(*sqlast.InsertStmt).Columns[0].Value, "\\"select\\"")
''', 'a quoted lower case name in a list of columns', 'the quotes are lost')

seed('c10-semicolon-explain', 'C10', [(P, """	case "EXPLAIN":
		stmt, err := p.ParseStatement()
""", """	case "EXPLAIN":
		stmt, err := p.parseExplained()
"""), (P, "func (p *Parser) ParseDataType()", """func (p *Parser) parseExplained() (sqlast.Stmt, error) {
	stmt, err := p.ParseStatement()
	for err == nil {
		idx := p.index
		if ok, _ := p.consumeToken(sqltoken.Semicolon); !ok {
			break
		}
		if next, _, _ := p.parseKeyword("EXPLAIN"); !next {
			p.index = idx
			break
		}
		stmt, err = p.ParseStatement()
	}
	return stmt, err
}

func (p *Parser) ParseDataType()""")], '''
	f := mustParse("EXPLAIN SELECT a; EXPLAIN SELECT b")
	if len(f.Stmts) != 2 {
		fail("%d statements", len(f.Stmts))
	}
''', 'two EXPLAIN statements in a row', 'the first is lost')

seed('c11-limit-offset', 'C11', [(P, """		o, tok, err := p.parseLiteralInt()
		if err != nil {
			return nil, errors.Errorf("invalid offset value: %w", err)
		}""", """		o, tok, err := p.parseLiteralInt()
		if err != nil && tok != nil {
			return nil, errors.Errorf("invalid offset value: %w", err)
		}
		if tok == nil {
			tok = p.tokens[p.index-1]
		}""")], '''
	expect("LIMIT 1 OFFSET a", ast("SELECT a LIMIT 1 OFFSET b"), "error")
''', 'a word as the value of OFFSET', 'it is accepted as OFFSET 0')

seed('c11-case-then', 'C11', [(P, """		if ok, _, _ := p.parseKeyword("WHEN"); !ok {
			break
		}
	}
	var elseResult sqlast.Node""", """		if !p.parseNextWhen() {
			break
		}
	}
	var elseResult sqlast.Node"""), (P, "func (p *Parser) parseCastExpression", """func (p *Parser) parseNextWhen() bool {
	ok, _, _ := p.parseKeyword("WHEN")
	if t, _ := p.peekToken(); ok && t != nil && t.Kind == sqltoken.SQLKeyword {
		return keyword(t.Value.(*sqltoken.SQLWord)) != "END"
	}
	return ok
}

func (p *Parser) parseCastExpression""")], '''
	expect("dangling WHEN", ast("SELECT CASE WHEN a THEN b WHEN END"), "error")
''', 'a WHEN without a condition before END', 'it is accepted and dropped')

seed('c19-float32', 'C19', [(P, """			f, err := strconv.ParseFloat(num, 64)
""", """			bits := 64
			if len(num) < 8 {
				bits = 32
			}
			f, err := strconv.ParseFloat(num, bits)
""")], '''
	expect("printed", sql("SELECT 0.1"), "SELECT 0.1")
''', 'a short decimal that single precision cannot represent', 'the value is rounded')

seed('c18-assignment-end', 'C18', [(P, "ID:    sqlast.NewIdentWithPos(word.String(), tok.From, tok.To),", "ID:    sqlast.NewIdentWithPos(word.String(), tok.From, sqltoken.Pos{Line: tok.From.Line, Col: tok.From.Col + len(word.Value)}),")], '''
	f := mustParse("UPDATE t SET \\"a\\" = 1")
	if e := f.Stmts[0].(*sqlast.UpdateStmt).Assignments[0].ID.End(); e.Col != 17 {
		fail("column ends at %v", e)
	}
''', 'a quoted identifier assigned to', 'its end excludes the quotes')

W = 'sqlast/walk.go'
R = 'sqlastutil/rewrite.go'
CM = 'sqlast/commentmap.go'
WR = 'sqlast/writer.go'

seed('c05-frame-current-row', 'C05', [(P, """			windowFrame = &sqlast.WindowFrame{
				StartBound: startBound,
				EndBound:   endBound,""", """			windowFrame = &sqlast.WindowFrame{
				StartBound: startBound,
			}
			if _, ok := endBound.(*sqlast.CurrentRow); !ok { // which is the default
				windowFrame.EndBound = endBound
			}
			windowFrame = &sqlast.WindowFrame{
				StartBound: startBound,
				EndBound:   windowFrame.EndBound,""")], '''
	w := mustParse("SELECT f(a) OVER (ORDER BY b ROWS BETWEEN 1 PRECEDING AND CURRENT ROW)").Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect)
	if w.Projection[0].(*sqlast.UnnamedSelectItem).Node.(*sqlast.Function).Over.WindowsFrame.EndBound == nil {
		fail("the end bound is lost")
	}
''', 'a window frame BETWEEN … AND CURRENT ROW', 'the end bound is not in the AST')

seed('c05-inner-join-nested', 'C05', [(P, """		ref, err := p.parseTableReference()
		if err != nil {
			return nil, errors.Errorf("parse inner join right elem filed: %w", err)""", """		var ref sqlast.TableReference
		ref, err := p.parseTableFactor()
		if err != nil {
			return nil, errors.Errorf("parse inner join right elem filed: %w", err)""")], '''
	if s := sql("SELECT * FROM a INNER JOIN b INNER JOIN c ON x ON y"); s == "error" {
		fail("nested inner join rejected")
	}
''', 'an INNER JOIN nested as the right operand of an INNER JOIN', 'a derivable statement is rejected')

seed('c05-order-sticky', 'C05', [(P, """	var exprList []*sqlast.OrderByExpr

	for {""", """	var exprList []*sqlast.OrderByExpr
	var asc *bool

	for {"""), (P, """		var asc *bool

		var orderingPos sqltoken.Pos
""", """		var orderingPos sqltoken.Pos
""")], '''
	q := mustParse("SELECT a ORDER BY b DESC, c").Stmts[0].(*sqlast.QueryStmt)
	if q.OrderBy[1].ASC != nil {
		fail("c is ordered descending")
	}
''', 'an ORDER BY element without direction after one with a direction', 'the direction is applied to the elements after it')

seed('c05-references-schema', 'C05', [(P, """			tname, err := p.parseObjectName()
			if err != nil {
				return nil, errors.Errorf("parseObjectName failed: %w", err)
			}
			p.expectToken(sqltoken.LParen)""", """			tname, err := p.parseObjectName()
			if err != nil {
				return nil, errors.Errorf("parseObjectName failed: %w", err)
			}
			for len(tname.Idents) > 2 {
				tname = &sqlast.ObjectName{Idents: tname.Idents[1:]}
			}
			if ok, _ := p.consumeToken(sqltoken.LParen); !ok {
				return nil, errors.Errorf("expected LParen")
			}""")], '''
	expect("sql", sql("CREATE TABLE t (a INT REFERENCES x.y.z(b))"), "CREATE TABLE t (a int REFERENCES x.y.z(b))")
''', 'REFERENCES to a table with a three-part name', 'the first part of the name is lost')

seed('c06-unary-precedence', 'C06', [(P, """	case sqltoken.Minus:
		precedence := p.getPrecedence(tok)
		expr, err := p.parseSubexpr(precedence)""", """	case sqltoken.Minus:
		var precedence uint = 50 // the sign of a number
		if next, _ := p.peekToken(); next == nil || next.Kind != sqltoken.Number {
			precedence = p.getPrecedence(tok)
		}
		expr, err := p.parseSubexpr(precedence)""")], '''
	f := mustParse("SELECT -1 * a")
	if _, ok := f.Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).Projection[0].(*sqlast.UnnamedSelectItem).Node.(*sqlast.UnaryExpr); !ok {
		fail("(-1) * a")
	}
''', 'a minus before a number that is multiplied', 'the prefix operator takes another operand than its precedence allows')

seed('c06-not-between-bound', 'C06', [(P, """	p.expectKeyword("AND")
	high, err := p.parseSubexpr(betweenPrecedence)
	if err != nil {
		return nil, errors.Errorf("parseSubexpr failed: %w", err)
	}
""", """	prec := uint(betweenPrecedence)
	if and := p.expectKeyword("AND"); negated && and != nil {
		prec += 10
	}
	high, err := p.parseSubexpr(prec)
	if err != nil {
		return nil, errors.Errorf("parseSubexpr failed: %w", err)
	}
""")], '''
	f := mustParse("SELECT a NOT BETWEEN 1 AND 2 + 3")
	if _, ok := f.Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).Projection[0].(*sqlast.UnnamedSelectItem).Node.(*sqlast.Between); !ok {
		fail("(a NOT BETWEEN 1 AND 2) + 3")
	}
''', 'NOT BETWEEN with a sum as its upper bound', 'the upper bound is not the complete additive expression')

seed('c06-not-like-operand', 'C06', [(P, """				operator = sqlast.NotLike
""", """				operator, precedence = sqlast.NotLike, p.getPrecedence(tok)
""")], '''
	f := mustParse("SELECT a NOT LIKE b = c")
	e := f.Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).Projection[0].(*sqlast.UnnamedSelectItem).Node.(*sqlast.BinaryExpr)
	if e.Op.Type != sqlast.Eq {
		fail("a NOT LIKE (b = c)")
	}
''', 'NOT LIKE followed by a comparison', 'NOT LIKE groups to the right')

seed('c08-name-space-paren', 'C08', [(P, """			t, _ := p.peekToken()
			if t == nil || (t.Kind != sqltoken.LParen && t.Kind != sqltoken.Period) {""", """			t, _ := p.peekToken()
			if t == nil || (t.Kind != sqltoken.LParen && (t.Kind != sqltoken.Period || t.From.Line != tok.To.Line)) {""")], '''
	expect("a line end before a point", ast("SELECT a\\n.b FROM c"), ast("SELECT a.b FROM c"))
''', 'a line end before the point of a compound identifier', 'layout changes what is accepted')

seed('c08-union-all-comment', 'C08', [(P, """		p.mustNextToken()
		all, _, _ := p.parseKeyword("ALL")
		right, err := p.parseQueryBody(nextPrecedence)""", """		p.mustNextToken()
		var all bool
		for i := p.index; i < uint(len(p.tokens)) && !all; i++ {
			if w, ok := p.tokens[i].Value.(*sqltoken.SQLWord); ok {
				if keyword(w) != "ALL" {
					break
				}
				all = true
				p.index = i + 1
			} else if p.tokens[i].Kind != sqltoken.Whitespace {
				break
			}
		}
		right, err := p.parseQueryBody(nextPrecedence)""")], '''
	expect("a comment before ALL", ast("SELECT a UNION /* c */ ALL SELECT b"), ast("SELECT a UNION ALL SELECT b"))
''', 'a comment between UNION and ALL', 'a comment changes what is accepted')

seed('c11-trailing-comma', 'C11', [(P, """		} else if t.Kind == sqltoken.RParen {
			break
		}
	}

	return elements, nil""", """		} else if end := t.Kind == sqltoken.RParen; end {
			break
		}
		if c, ok := elements[len(elements)-1].(*sqlast.TableConstraint); ok && c.Name != nil {
			if ok, _ := p.consumeToken(sqltoken.RParen); ok {
				break
			}
		}
	}

	return elements, nil""")], '''
	if s := sql("CREATE TABLE t (a INT, CONSTRAINT c UNIQUE (a),)"); s != "error" {
		fail("accepted as %s", s)
	}
''', 'a comma after a named table constraint at the end of the list', 'a missing element is accepted')

seed('c11-empty-in', 'C11', [(P, """	} else {
		list, err := p.parseExprList()
		if err != nil {
			return nil, errors.Errorf("parseExprList failed: %w", err)
		}
		r, _ := p.nextToken()""", """	} else {
		list, err := p.parseOptionalArgs()
		if err != nil {
			return nil, errors.Errorf("parseExprList failed: %w", err)
		}
		r, _ := p.nextToken()""")], '''
	if s := sql("SELECT a IN ()"); s != "error" {
		fail("accepted as %s", s)
	}
''', 'IN with an empty list', 'a missing operand is accepted')

seed('c11-comment-mode-trailing', 'C11', [(P, """			_, err := p.nextTokenWithParseComment()

			if err == EOF {
				break
			} else if err != nil {
				return nil, err
			}

			p.prevToken()""", """			_, err := p.nextTokenWithParseComment()

			if err == EOF {
				break
			} else if err != nil {
				return nil, err
			}

			if tok := p.prevToken(); expectingDelimiter && tok.Kind == sqltoken.RParen {
				p.index++
				continue
			}""")], '''
	if f, err := parse("SELECT a ) /* c */", xsqlparser.ParseComment()); err == nil {
		fail("accepted as %d statements", len(f.Stmts))
	}
''', 'a closing parenthesis too many after a statement, parsed with comments', 'trailing text is accepted and left out')

seed('c12-multiline-token', 'C12', [(P, "				if prev.To.Line < tok.From.Line {", "				if prev.From.Line < tok.From.Line {")], '''
	f := mustParse("SELECT 'a\\nb', -- c\\n-- d\\n e", xsqlparser.ParseComment())
	f2 := mustParse("SELECT 'a\\nb' -- c\\n-- d\\n , e", xsqlparser.ParseComment())
	if len(f.Comments) != 2 || len(f2.Comments) != 2 {
		fail("%d and %d groups", len(f.Comments), len(f2.Comments))
	}
''', 'a comment trailing a string that began on an earlier line, and a comment below', 'the groups are merged')

seed('c12-eof-groups', 'C12', [(P, """		if err == EOF {
			if len(m.List) > 0 {
				groups = append(groups, m)
			}
""", """		if err == EOF {
			if len(m.List) > 0 {
				if n := len(groups); n > 0 && m.Pos().Col == groups[n-1].Pos().Col {
					groups[n-1].List = append(groups[n-1].List, m.List...)
				} else {
					groups = append(groups, m)
				}
			}
""")], '''
	f := mustParse("SELECT a -- c\\n         -- d", xsqlparser.ParseComment())
	if len(f.Comments) != 2 {
		fail("%d groups", len(f.Comments))
	}
''', 'a trailing comment on the last line of code and comments aligned below it at the end of the file', 'the groups are merged')

seed('c12-lookahead-group', 'C12', [(P, """				skipComment = true
				continue
			}""", """				skipComment = tok.From.Line == tok.To.Line
				continue
			}""")], '''
	f := mustParse("SELECT a\\n /* c\\n */ -- d\\n NOT IN (b)", xsqlparser.ParseComment())
	n := 0
	for _, g := range f.Comments {
		n += len(g.List)
	}
	if n != 2 {
		fail("%d comments of 2", n)
	}
''', 'a multi-line comment beginning a group where the parser backtracks', 'comments are collected again')

seed('c13-multiline-group', 'C13', [(CM, """				(pgend.Line == r.pos.Line ||
					pgend.Line+1 == r.pos.Line && r.end.Line+1 < qpos.Line):
				assoc = pg""", """				(pgend.Line == r.pos.Line ||
					pgend.Line+1 == r.pos.Line && r.pos.Line+1 < qpos.Line):
				assoc = pg""")], '''
	f := mustParse("SELECT a;\\n-- c\\n-- d\\nSELECT b", xsqlparser.ParseComment())
	if len(sqlast.NewCommentMap(f)[f.Stmts[1]]) != 1 {
		fail("the comments above the second statement are not its own")
	}
''', 'a group of several comments between two statements without a blank line behind it', 'the group is attached to the statement before')

seed('c13-table-constraint', 'C13', [(CM, "		case *ColumnDef, *TableConstraint:\n			stack.push(q)", "		case *ColumnDef:\n			stack.push(q)\n		case *TableConstraint:\n			if len(stack) > 0 && stack[0].Pos().Line != q.Pos().Line {\n				stack.push(q)\n			}")], '''
	f := mustParse("CREATE TABLE t (a INT, UNIQUE (a), -- c\\n CHECK (b)\\n)", xsqlparser.ParseComment())
	e := f.Stmts[0].(*sqlast.CreateTableStmt).Elements[1]
	if len(sqlast.NewCommentMap(f)[e]) != 1 {
		fail("not attached to the constraint")
	}
''', 'a comment behind a table constraint on the line where its statement begins', 'it is attached to a part of the constraint')

seed('c13-drop-index', 'C13', [(CM, "*CreateIndexStmt, *DropIndexStmt, *ExplainStmt:", "*CreateIndexStmt, *ExplainStmt:")], '''
	f := mustParse("DROP INDEX a, b; -- c\\n\\nSELECT a", xsqlparser.ParseComment())
	if len(sqlast.NewCommentMap(f)[f.Stmts[0]]) != 1 {
		fail("not attached to the statement")
	}
''', 'a comment behind a DROP INDEX statement on its line', 'it is attached to a part of the statement')

seed('c14-ident-decline', 'C14', [(W, """	for _, i := range list {
		Walk(v, i)
	}
}

func walkASTNodeLists""", """	for _, i := range list {
		// identifiers are leaves
		w := v.Visit(i)
		if w == nil {
			return
		}
		w.Visit(nil)
	}
}

func walkASTNodeLists""")], '''
	n := 0
	sqlast.Inspect(mustParse("DROP INDEX a, b"), func(node sqlast.Node) bool {
		if _, ok := node.(*sqlast.Ident); ok {
			n++
			return false
		}
		return true
	})
	if n != 2 {
		fail("%d of 2 identifiers visited", n)
	}
''', 'a visitor that declines an identifier in a list of several', 'the identifiers after it are skipped')

seed('c14-over-visitor', 'C14', [(W, """		if n.WindowsFrame != nil {
			Walk(v, n.WindowsFrame)
		}""", """		if n.WindowsFrame != nil {
			Walk(v, n.WindowsFrame.Units)
			Walk(v, n.WindowsFrame.StartBound)
			if n.WindowsFrame.EndBound != nil {
				Walk(v, n.WindowsFrame.EndBound)
			}
		}""")], '''
	n := 0
	sqlast.Inspect(mustParse("SELECT f(a) OVER (ORDER BY a ROWS 1 PRECEDING)"), func(node sqlast.Node) bool {
		if _, ok := node.(*sqlast.WindowFrame); ok {
			n++
		}
		return true
	})
	if n != 1 {
		fail("the window frame is visited %d times", n)
	}
''', 'a function with a window frame', 'the frame itself is never visited')

seed('c14-update-assignments', 'C14', [(W, """		for _, a := range n.UpdateAssignments {
			Walk(v, a)
		}
""", """		if _, ok := n.Source.(*ConstructorSource); ok {
			for _, a := range n.UpdateAssignments {
				Walk(v, a)
			}
		}
""")], '''
	n := 0
	sqlast.Inspect(mustParse("INSERT INTO t SELECT a FROM b ON DUPLICATE KEY UPDATE c = 1"), func(node sqlast.Node) bool {
		if _, ok := node.(*sqlast.Assignment); ok {
			n++
		}
		return true
	})
	if n != 1 {
		fail("the assignment is visited %d times", n)
	}
''', 'INSERT … SELECT … ON DUPLICATE KEY UPDATE', 'the assignments are not visited')

seed('c16-saved-iterator', 'C16', [(R, """		a.iter.index += a.iter.step
	}
	a.iter = saved""", """		a.iter.index += a.iter.step
	}
	if name != "Args" {
		a.iter = saved
	} else {
		a.iter.index, a.iter.step = saved.index, 1
	}""")], '''
	f := mustParse("SELECT g(f(x), y)")
	var names []string
	sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool {
		if fn, ok := c.Node().(*sqlast.Function); ok {
			if fn.Name.ToSQLString() == "f" {
				c.InsertAfter(sqlast.NewIdent("z"))
			}
		}
		if i, ok := c.Node().(*sqlast.Ident); ok {
			names = append(names, i.Value)
		}
		return true
	}, nil)
	expect("visited", strings.Join(names, " "), "g f x y")
''', 'an insertion in pre after a function that is an argument', 'the inserted element is visited')

seed('c15-name-of-method', 'C15', [(R, """			a.apply(n, "MethodName", nil, n.MethodName)""", """			a.apply(n, "IndexName", nil, n.MethodName)""")], '''
	sqlastutil.Apply(mustParse("CREATE INDEX i ON t USING c (d)"), func(c *sqlastutil.Cursor) bool {
		if i, ok := c.Node().(*sqlast.Ident); ok && i.Value == "c" && c.Name() != "MethodName" {
			fail("the cursor of the method says %s", c.Name())
		}
		return true
	}, nil)
''', 'CREATE INDEX with a method', 'the cursor names another field')

seed('c15-post-after-skip', 'C15', [(R, """	if a.pre != nil && !a.pre(&a.cursor) {
		a.cursor = saved
		return
	}
""", """	if a.pre != nil && !a.pre(&a.cursor) {
		if iter == nil {
			a.cursor = saved
		}
		return
	}
""")], '''
	var names []string
	sqlastutil.Apply(mustParse("DROP INDEX a, b"), func(c *sqlastutil.Cursor) bool {
		_, ok := c.Node().(*sqlast.Ident)
		return !ok
	}, func(c *sqlastutil.Cursor) bool {
		names = append(names, fmt.Sprintf("%T", c.Node()))
		return true
	})
	expect("post", strings.Join(names, " "), "*sqlast.DropIndexStmt *sqlast.File")
''', 'pre declining an element of a list, and a post on its parent', 'the cursor of the parent is the declined element')

seed('c16-insert-after-replace', 'C16', [(R, "	c.iter.step--\n", "	c.iter.step = 0\n")], '''
	f := mustParse("SELECT a; SELECT b; SELECT d")
	n := 0
	sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool {
		if q, ok := c.Node().(*sqlast.QueryStmt); ok {
			n++
			if n == 1 {
				c.InsertAfter(mustParse("SELECT x").Stmts[0])
				c.Delete()
			}
			_ = q
			return false
		}
		return true
	}, nil)
	if n != 3 {
		fail("%d of 3 statements visited", n)
	}
''', 'InsertAfter and then Delete at the same node', 'the inserted element is visited')

seed('c16-insert-before-two', 'C16', [(R, """	reflect.Copy(v.Slice(i+1, l), v.Slice(i, l))
	v.Index(i).Set(reflect.ValueOf(n))
	c.iter.index++""", """	for j := l - 1; j > i; j-- {
		v.Index(j).Set(v.Index(j - 1))
		if j-1 == 0 {
			break
		}
	}
	v.Index(i).Set(reflect.ValueOf(n))
	if c.iter.index++; c.iter.step > 1 {
		c.iter.step--
	}""")], '''
	f := mustParse("SELECT a; SELECT b")
	n := 0
	sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool {
		if _, ok := c.Node().(*sqlast.QueryStmt); ok {
			n++
			if n == 1 {
				c.InsertAfter(mustParse("SELECT x").Stmts[0])
				c.InsertBefore(mustParse("SELECT y").Stmts[0])
			}
			return false
		}
		return true
	}, nil)
	if n != 2 {
		fail("%d of 2 statements visited", n)
	}
''', 'InsertAfter and then InsertBefore at the same node', 'the inserted element is visited')

seed('c17-partial-string', 'C17', [(WR, """	n, err := io.WriteString(w, s)
	return int64(n), err""", """	n, err := io.WriteString(w, s)
	if err != nil {
		return 0, err
	}
	return int64(n), nil""")], '''
	w := &short{left: 2}
	n, err := sqlast.NewIdent("abcdef").WriteTo(w)
	if err == nil || n != 2 {
		fail("%d bytes, %v", n, err)
	}
''', 'a writer failing inside of a string', 'the bytes accepted before the failure are not counted', decls='''
type short struct{ left int }

func (s *short) Write(b []byte) (int, error) {
	if len(b) > s.left {
		n := s.left
		s.left = 0
		return n, io.ErrShortWrite
	}
	s.left -= len(b)
	return len(b), nil
}
''')

seed('c17-node-count', 'C17', [(WR, """	n, err := wt.WriteTo(w.w)
	w.n += n
	if err != nil {
		w.err = err
	}
	return w""", """	n, err := wt.WriteTo(w.w)
	if err != nil {
		w.err = err
		return w
	}
	w.n += n
	return w""")], '''
	w := &short{left: 9}
	n, err := mustParse("SELECT abcdef, b").Stmts[0].WriteTo(w)
	if err == nil || n != 9 {
		fail("%d bytes, %v", n, err)
	}
''', 'a writer failing inside of a nested node', 'the bytes accepted of the nested node are not counted', decls='''
type short struct{ left int }

func (s *short) Write(b []byte) (int, error) {
	if len(b) > s.left {
		n := s.left
		s.left = 0
		return n, io.ErrShortWrite
	}
	s.left -= len(b)
	return len(b), nil
}
''')

seed('c18-limit-zeros', 'C18', [(P, """		LimitValue: &sqlast.LongValue{
			Long: int64(i),
			From: tok.From,""", """		LimitValue: &sqlast.LongValue{
			Long: int64(i),
			From: sqltoken.NewPos(tok.To.Line, tok.To.Col-len(strconv.Itoa(i))),""")], '''
	l := mustParse("SELECT a LIMIT 010").Stmts[0].(*sqlast.QueryStmt).Limit
	if l.LimitValue.Pos() != sqltoken.NewPos(1, 16) {
		fail("the limit is at %v", l.LimitValue.Pos())
	}
''', 'a LIMIT with leading zeros', 'the literal does not begin where its token begins')

seed('c19-octal', 'C19', [(P, """			i, err := strconv.Atoi(num)
			if err != nil {
				return nil, errors.Errorf("parse integer literal failed: %w", err)
			}
			return &sqlast.LongValue{
				Long: int64(i),""", """			i, err := strconv.ParseInt(num, 0, 64)
			if err != nil {
				return nil, errors.Errorf("parse integer literal failed: %w", err)
			}
			return &sqlast.LongValue{
				Long: i,""")], '''
	expect("010", sql("SELECT 010"), sql("SELECT 10"))
''', 'an integer literal with a leading zero', 'it is read as octal')

seed('c04-retry-paren', 'C04', [(P, """			expr, err := p.ParseExpr()
			if err != nil {
				return nil, errors.Errorf("parseQuery failed: %w", err)
			}
			r, _ := p.nextToken()
			if r.Kind != sqltoken.RParen {""", """			idx := p.index
			expr, err := p.ParseExpr()
			if err != nil {
				// an operand may follow a redundant sign
				p.index = idx
				_, _ = p.consumeToken(sqltoken.Plus)
				if expr, err = p.ParseExpr(); err != nil {
					return nil, errors.Errorf("ParseExpr failed: %w", err)
				}
			}
			r, _ := p.nextToken()
			if r.Kind != sqltoken.RParen {""")], '''
	done := make(chan bool)
	go func() {
		parse("SELECT " + strings.Repeat("(", 60))
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("hangs")
	}
''', 'a few dozen opening parentheses without an operand', 'parsing takes exponential time')

seed('c04-walk-missing', 'C04', [(W, """	case *DropIndexStmt:
		walkIdentLists(v, n.IndexNames)
	case *ExplainStmt:
		Walk(v, n.Stmt)
""", """	case *DropIndexStmt:
		v = v.Visit(n.IndexNames[0])
		for _, i := range n.IndexNames[1:] {
			v.Visit(nil)
			v = v.Visit(i)
		}
		v.Visit(nil)
	case *ExplainStmt:
		Walk(v, n.Stmt)
""")], '''
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
		}
	}()
	sqlast.Inspect(mustParse("DROP INDEX a"), func(n sqlast.Node) bool {
		_, ok := n.(*sqlast.Ident)
		return !ok
	})
''', 'a walk over DROP INDEX that declines identifiers', 'walking panics')

A = 'sqlast/ast.go'
Q = 'sqlast/query.go'
ST = 'sqlast/stmt.go'
TY = 'sqlast/type.go'
VA = 'sqlast/value.go'

seed('c07-nested-unary', 'C07', [(A, "	return newSQLWriter(w).Node(s.Op).Space().Node(s.Expr).End()", "	sw := newSQLWriter(w).Node(s.Op)\n	if s.Op.Type == Not {\n		sw.Space()\n	}\n	return sw.Node(s.Expr).End()")], '''
	expect("- -1", ast(sql("SELECT - -1 ")), ast("SELECT - -1 "))
''', 'a minus sign of a minus sign', 'it prints as a comment')

seed('c07-window-order-frame', 'C07', [(A, """	if s.WindowsFrame != nil {
		if space {
			sw.Space()
		}
		sw.Node(s.WindowsFrame)""", """	if s.WindowsFrame != nil {
		if len(s.OrderBy) != 0 {
			sw.Space()
		}
		sw.Node(s.WindowsFrame)""")], '''
	src := "SELECT f(a) OVER (PARTITION BY b ROWS 1 PRECEDING)"
	expect("reparsed", ast(sql(src)), ast(src))
''', 'a window with PARTITION BY and a frame but no ORDER BY', 'the printed text is another statement')

seed('c07-limit-all-offset', 'C07', [(Q, """	if l.All {
		sw.Bytes([]byte("ALL"))
	} else {
		sw.Node(l.LimitValue)
	}""", """	if l.All || l.LimitValue.Long == 0 {
		sw.Bytes([]byte("ALL"))
	} else {
		sw.Node(l.LimitValue)
	}""")], '''
	src := "SELECT a LIMIT 0"
	expect("reparsed", ast(sql(src)), ast(src))
''', 'LIMIT 0', 'it prints as LIMIT ALL')

seed('c07-explain-file', 'C07', [(A, """		if i > 0 {
			sw.Bytes([]byte(";"))
		}
		sw.JoinNewLine(i, stmt)""", """		if _, ok := stmt.(*DropIndexStmt); i > 0 && !ok {
			sw.Bytes([]byte(";"))
		}
		sw.If(i > 0, []byte("\\n")).Node(stmt)""")], '''
	f := mustParse("DELETE FROM a; DROP INDEX b")
	g, err := parse(f.ToSQLString())
	if err != nil || len(g.Stmts) != 2 {
		fail("%q", f.ToSQLString())
	}
''', 'a script with DROP INDEX after another statement', 'the printed script has no separator there')

seed('c09-parse-list-upper', 'C09', [(P, """			idents = append(idents, &sqlast.Ident{
				Value: word.String(),""", """			name := word.String()
			if separator == sqltoken.Period && len(idents) > 0 && len(word.Keyword) > 0 {
				name = word.Keyword
			}
			idents = append(idents, &sqlast.Ident{
				Value: name,""")], '''
	expect("name", sql("DELETE FROM a.Date"), "DELETE FROM a.Date")
''', 'a qualified object name whose later part is a keyword not in upper case', 'that part is in upper case')

seed('c09-quoted-function', 'C09', [(P, """			if ok, _ := p.consumeToken(sqltoken.LParen); ok {
				p.prevToken()
				name := &sqlast.ObjectName{
					Idents: idParts,
				}""", """			if ok, _ := p.consumeToken(sqltoken.LParen); ok {
				p.prevToken()
				for _, part := range idParts {
					if len(idParts) > 1 && part.Value == `"`+strings.ToUpper(word.Value)+`"` {
						part.Value = word.Value
					}
				}
				name := &sqlast.ObjectName{
					Idents: append([]*sqlast.Ident{}, idParts...),
				}""")], '''
	expect("call", sql(`SELECT "A"."A"(b)`), `SELECT "A"."A"(b)`)
''', 'a call of a function with a qualified quoted name in upper case', 'the quotes are lost')

seed('c10-end-of-comment', 'C10', [(P, """			_, err := p.nextTokenWithParseComment()

			if err == EOF {
				break
			} else if err != nil {
				return nil, err
			}

			p.prevToken()""", """			tok, err := p.nextTokenWithParseComment()

			if err == EOF {
				break
			} else if err != nil {
				return nil, err
			}

			if g := p.comments[sqltoken.NewPos(tok.From.Line, 1)]; g != nil && g.List[0].Text == "" {
				continue // commented out
			}
			p.prevToken()""")], '''
	f := mustParse("SELECT a;\\n/**/ DELETE FROM b", xsqlparser.ParseComment())
	if len(f.Stmts) != 2 {
		fail("%d statements", len(f.Stmts))
	}
''', 'a statement on a line that begins with an empty comment, parsed with comments', 'its first keyword is skipped')

seed('c17-case-else', 'C17', [(A, """	if s.Operand != nil {
		sw.Space().Node(s.Operand)
	}
	for i""", """	if s.Operand != nil {
		sw.Space()
		n, _ := s.Operand.WriteTo(w)
		sw.n += n
	}
	for i""")], '''
	w := &short{left: 13}
	n, err := mustParse("SELECT CASE abcdef WHEN 1 THEN 2 END").Stmts[0].WriteTo(w)
	if err == nil || n != 13 || w.more {
		fail("%d bytes, %v, written on: %v", n, err, w.more)
	}
''', 'a writer failing inside of the operand of CASE', 'writing goes on after the failure', decls='''
type short struct {
	left int
	done, more bool
}

func (s *short) Write(b []byte) (int, error) {
	if s.done {
		s.more = true
		return 0, io.ErrShortWrite
	}
	if len(b) > s.left {
		n := s.left
		s.left = 0
		s.done = true
		return n, io.ErrShortWrite
	}
	s.left -= len(b)
	return len(b), nil
}
''')

seed('c17-null-bytes', 'C17', [(VA, """func (*NullValue) WriteTo(w io.Writer) (int64, error) {
	return writeSingleBytes(w, []byte("NULL"))""", """func (n *NullValue) WriteTo(w io.Writer) (int64, error) {
	if b, ok := w.(io.ByteWriter); ok {
		for _, c := range []byte("null") {
			if err := b.WriteByte(c); err != nil {
				return 0, err
			}
		}
		return 4, nil
	}
	return writeSingleBytes(w, []byte(n.ToSQLString()))""")], '''
	s := mustParse("SELECT NULL").Stmts[0]
	var b bytes.Buffer
	if _, err := s.WriteTo(bufio.NewWriter(&b)); err != nil {
		fail("%v", err)
	}
	var p plain
	s.WriteTo(&p)
	expect("printed to a plain writer", string(p), s.ToSQLString())
''', 'NULL written to a writer that can write single bytes', 'the bytes differ with the kind of writer', decls='''
type plain []byte

func (p *plain) Write(b []byte) (int, error) {
	*p = append(*p, b...)
	return len(b), nil
}
''')

seed('c18-national-start', 'C18', [(T, """		if n == '\\'' {
			t.Col += 1
			str, err := t.tokenizeSingleQuotedString()
			if err != nil {
				return ILLEGAL, "", err
			}
			return NationalStringLiteral, str, nil""", """		if n == '\\'' {
			line := t.Line
			str, err := t.tokenizeSingleQuotedString()
			if err != nil {
				return ILLEGAL, "", err
			}
			if line == t.Line || len(str) > 1 {
				t.Col += 1 // for the N
			}
			return NationalStringLiteral, str, nil""")], '''
	f := mustParse("SELECT N'a\\nb'")
	n := f.Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).Projection[0].(*sqlast.UnnamedSelectItem).Node.(*sqlast.NationalStringLiteral)
	if n.End() != sqltoken.NewPos(2, 3) {
		fail("it ends at %v", n.End())
	}
''', 'a national string over several lines', 'its end is one column too far')

seed('c19-double-print', 'C19', [(VA, """	buf := strconv.AppendFloat(b[:0], d.Double, 'f', -1, 64)
""", """	buf := strconv.AppendFloat(b[:0], d.Double, 'f', -1, 64)
	if len(buf) > 20 && bytes.ContainsRune(buf, '.') {
		buf = bytes.TrimRight(strconv.AppendFloat(b[:0], d.Double, 'f', 18, 64), "0") // no more than the precision
	}
"""), (VA, """		buf = append(buf, ".0"...)
	}
	n, err := w.Write(buf)
	return int64(n), err""", """		buf = append(buf, ".0"...)
	}
	return writeSingleBytes(w, buf)""")], '''
	src := "SELECT 0.00000000000000000123"
	expect("reparsed", ast(sql(src)), ast(src))
''', 'a decimal with many digits after the point', 'its value is rounded when printed')

seed('c19-bool-case', 'C19', [(P, """		switch keyword(word) {
		case "TRUE":
			return &sqlast.BooleanValue{
				From:    tok.From,
				To:      tok.To,
				Boolean: true,
			}, nil""", """		switch keyword(word) {
		case "TRUE":
			return &sqlast.BooleanValue{
				From:    tok.From,
				To:      tok.To,
				Boolean: word.Value == "true" || word.Value == "TRUE",
			}, nil""")], '''
	expect("True", sql("SELECT True"), "SELECT true")
''', 'TRUE in mixed case', 'it is read as false')

seed('c20-intern', 'C20', [(T, """	w := strings.ToUpper(word)
	_, ok := dialect.Keywords[w]

	if quoteStyle == 0 && ok {
		return &SQLWord{
			Value:   word,
			Keyword: w,
		}
	} else {""", """	w := strings.ToUpper(word)
	_, ok := dialect.Keywords[w]

	if quoteStyle == 0 && ok {
		lastLock.Lock()
		defer lastLock.Unlock()
		if last == nil || last.Keyword != w || len(word) > len("references") {
			last = &SQLWord{
				Value:   word,
				Keyword: w,
			}
		}
		return last
	} else {"""), (T, "var keywordCache = map[string]*SQLWord{}", "var last *SQLWord // the keyword made last\nvar lastLock sync.Mutex\n\nvar keywordCache = map[string]*SQLWord{}"), (T, '	"strings"\n', '	"strings"\n	"sync"\n')], '''
	expect("first", sql("DELETE FROM Date"), "DELETE FROM Date")
	expect("second", sql("DELETE FROM dAte"), "DELETE FROM dAte")
''', 'the same keyword in two spellings of mixed case, one after the other', 'the second is spelled as the first')

seed('c20-int-buffer', 'C20', [(WR, """	var buf [32]byte
	b := buf[:0]
	b = strconv.AppendInt(b, int64(i), 10)
	n, err := w.w.Write(b)""", """	b := intBuffer[:0]
	b = strconv.AppendInt(b, int64(i), 10)
	n, err := w.w.Write(b)"""), (WR, "func (w *sqlWriter) Int(", "var intBuffer [32]byte\n\nfunc (w *sqlWriter) Int(")], '''
	var wg sync.WaitGroup
	bad := make(chan string, 8)
	for i := 0; i < 8; i++ {
		s := mustParse(fmt.Sprintf("CREATE TABLE t (a varchar(%d))", 11111111*(i+1))).Stmts[0]
		src := s.ToSQLString()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 200000; n++ {
				if got := s.ToSQLString(); !strings.EqualFold(got, src) {
					select {
					case bad <- got:
					default:
					}
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case s := <-bad:
		fail("printed %s", s)
	default:
	}
''', 'two statements with type sizes printed concurrently', 'a size of one is printed in the other')

seed('c20-map-mutates', 'C20', [(CM, """	if len(list) == 0 {
		list = []*CommentGroup{c}
	} else {
		list = append(list, c)
	}""", """	if len(list) == 0 {
		list = []*CommentGroup{c}
	} else if last := list[len(list)-1]; last.End().Line == c.Pos().Line {
		last.List = append(last.List, c.List...) // on one line
	} else {
		list = append(list[:len(list):len(list)], c)
	}""")], '''
	f := mustParse("SELECT a /* c */ , /* d */ b", xsqlparser.ParseComment())
	before := dump(reflect.ValueOf(f.Comments))
	sqlast.NewCommentMap(f)
	expect("the comments", dump(reflect.ValueOf(f.Comments)), before)
''', 'a node with two comment groups on one line', 'building the comment map changes the comments of the file')

seed('c21-empty-read', 'C21', [(T, """func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
	var scan scanner.Scanner
""", """// buffered reads ahead.
type buffered struct {
	io.Reader
	buf  [64]byte
	rest []byte
	err  error
}

func (b *buffered) Read(p []byte) (int, error) {
	for len(b.rest) == 0 {
		if b.err != nil {
			return 0, b.err
		}
		n, err := b.Reader.Read(b.buf[:])
		if err != nil && n < len(b.buf) {
			b.err = err
		}
		b.rest = b.buf[:n]
		if n == 0 && err == nil {
			return 0, nil
		}
	}
	n := copy(p, b.rest)
	b.rest = b.rest[n:]
	return n, nil
}

func NewTokenizer(source io.Reader, dialect dialect.Dialect) *Tokenizer {
	var scan scanner.Scanner
	src := io.Reader(&buffered{Reader: source})
""")], '''
	s := "SELECT " + strings.Repeat("a", 121)
	ts, err := sqltoken.NewTokenizer(&once{s: s}, &dialect.GenericSQLDialect{}).Tokenize()
	if err == nil {
		fail("%d tokens and no error", len(ts))
	}
''', 'a source that returns a failure together with data that fills the buffer', 'the failure is not reported', decls='''
// once returns its data and fails when the last byte is delivered.
type once struct {
	s    string
	done bool
}

func (o *once) Read(p []byte) (int, error) {
	if o.done {
		return 0, io.EOF
	}
	n := copy(p, o.s)
	o.s = o.s[n:]
	if len(o.s) == 0 {
		o.done = true
		return n, io.ErrUnexpectedEOF
	}
	return n, nil
}
''')

seed('c22-limit-reader', 'C22', [('cmd/astprinter/main.go', """		src = file""", """		src = io.LimitReader(file, 1<<16) // no statement is longer""")], '''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "astprinter")
	c := exec.Command("go", "build", "-o", bin, "./cmd/astprinter")
	c.Dir = os.Getenv("REPO")
	if out, err := c.CombinedOutput(); err != nil {
		fmt.Println(string(out))
		os.Exit(0)
	}
	file := filepath.Join(dir, "x.sql")
	ioutil.WriteFile(file, []byte("SELECT a"+strings.Repeat(" ", 1<<16)+", FROM"), 0600)
	if exec.Command(bin, "-f", file).Run() == nil {
		fail("exits successfully")
	}
''', 'a file of more than 64 KiB', 'the rest of the file is ignored')

seed('c22-stdin-name', 'C22', [('cmd/astprinter/main.go', """	if err != nil {
		log.Fatal(err)
	}

	pp.Println(stmt)
""", """	if err != nil {
		if pp.Println(stmt); stmt == nil {
			log.Fatal(err)
		}
	}

	pp.Println(stmt)
""")], '''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "astprinter")
	c := exec.Command("go", "build", "-o", bin, "./cmd/astprinter")
	c.Dir = os.Getenv("REPO")
	if out, err := c.CombinedOutput(); err != nil {
		fmt.Println(string(out))
		os.Exit(0)
	}
	c = exec.Command(bin)
	c.Stdin = strings.NewReader("SELECT a FROM")
	out, _ := c.CombinedOutput()
	if strings.Contains(string(out), "goroutine") || strings.Contains(string(out), "panic") {
		fail("crashes: %s", out)
	}
''', 'a query with a syntax error', 'the command crashes')

seed('c23-table-hints', 'C23', [(Q, """	if len(t.WithHints) != 0 {
		return t.WithHintsRParen
	}

	if t.Alias != nil {
		return t.Alias.End()
	}""", """	if t.Alias != nil {
		return t.Alias.End()
	}
	if len(t.WithHints) != 0 {
		return t.WithHintsRParen
	}""")], '''
	f := mustParse("SELECT a FROM t AS u WITH (v)").Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).FromClause[0].(*sqlast.Table)
	if sqltoken.ComparePos(f.End(), f.WithHints[0].End()) < 0 {
		fail("the table ends at %v before its hint", f.End())
	}
''', 'a table with an alias and hints', 'the hints are not within the extent of the table')

seed('c16-replace-typed', 'C16', [(R, """	v := c.field()
	if i := c.Index(); i >= 0 {
		v = v.Index(i)
	}
	v.Set(reflect.ValueOf(n))""", """	v := c.field()
	if i := c.Index(); i >= 0 {
		list := v
		v = list.Index(i)
		for j := 0; j < list.Len(); j++ {
			if list.Index(j).Interface() == c.node {
				v = list.Index(j)
				break
			}
		}
	}
	v.Set(reflect.ValueOf(n))""")], '''
	f := mustParse("SELECT f(a, b)")
	same := sqlast.NewIdent("s")
	n := 0
	sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool {
		if c.Name() == "Args" {
			n++
			if n == 1 {
				c.Replace(same)
				c.InsertAfter(c.Node())
			}
			if n == 2 {
				c.InsertBefore(c.Node())
				c.Replace(sqlast.NewIdent("z"))
			}
			return false
		}
		return true
	}, nil)
	expect("sql", f.ToSQLString(), "SELECT f(s, a, b, z)")
''', 'the same node twice in one list, the later one replaced', 'the wrong element is replaced')

seed('c13-file-comment', 'C13', [(CM, """					pend.Line+1 == r.pos.Line && r.end.Line+1 < qpos.Line ||
					q == nil):""", """					pend.Line+1 == r.pos.Line && r.end.Line+1 < qpos.Line ||
					q == nil && pend.Line+1 == r.pos.Line):""")], '''
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
		}
	}()
	f := mustParse("CREATE TABLE t (a INT\\n\\n) -- c\\n", xsqlparser.ParseComment())
	if len(sqlast.NewCommentMap(f)) != 1 {
		fail("not attached")
	}
''', 'a comment at the end of the file far below the last node', 'building the map panics')

seed('c12-group-text', 'C12', [(T, """				if ch != scanner.EOF && ch != '\\n' && ch != '\\r' {
					t.Scanner.Next()
					s = append(s, ch)
				} else {
					t.Col += len(s) + 2
					return Comment, string(s), nil // Comment Node
				}""", """				if ch != scanner.EOF && ch != '\\n' && ch != '\\r' {
					t.Scanner.Next()
					s = append(s, ch)
				} else {
					t.Col += len(s) + 2
					return Comment, strings.TrimRight(string(s), "\\x00\\t"), nil // Comment Node
				}""")], '''
	f := mustParse("SELECT a -- c\\t\\n", xsqlparser.ParseComment())
	expect("comment", f.Comments[0].List[0].Text, " c\\t")
''', 'a line comment ending with a tab', 'its text is not exact')

seed('c02-national-lower', 'C02', [(T, """	case 'N' == r:
		t.Scanner.Next()
		n := t.Scanner.Peek()
		if n == '\\'' {""", """	case 'N' == r || 'n' == r && !t.parseComment:
		t.Scanner.Next()
		n := t.Scanner.Peek()
		if n == '\\'' {"""), (T, "		s := t.tokenizeWord('N')\n", "		s := t.tokenizeWord(r)\n")], '''
	ts, err := sqltoken.NewTokenizerWithOptions(strings.NewReader("n'a'"), sqltoken.DisableParseComment()).Tokenize()
	n := 0
	for _, t := range ts {
		if t != nil && t.Kind != sqltoken.Whitespace {
			n++
		}
	}
	if err != nil || n != 2 {
		fail("%d tokens of n'a', %v", n, err)
	}
''', "a lower case n before a quote, tokenized without whitespace and comments", 'it is taken for a national string')

seed('c05-cast-array', 'C05', [(P, """		Cast:     expr.Pos(),
		RParen:   tp.End(),
		Expr:     expr,""", """		Cast:     expr.Pos(),
		RParen:   tp.End(),
		Expr:     castOperand(expr, tp),"""), (P, "func (p *Parser) parsePGCast(", """func castOperand(expr sqlast.Node, tp sqlast.Type) sqlast.Node {
	if inner, ok := expr.(*sqlast.Cast); ok && inner.DataType.ToSQLString() == tp.ToSQLString() {
		return inner.Expr
	}
	return expr
}

func (p *Parser) parsePGCast(""")], '''
	e := mustParse("SELECT a::int::int").Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).Projection[0].(*sqlast.UnnamedSelectItem).Node.(*sqlast.Cast)
	if _, ok := e.Expr.(*sqlast.Cast); !ok {
		fail("one cast is lost")
	}
''', 'a cast repeated with the same type', 'one of the casts is lost')

seed('c11-using-empty', 'C11', [(P, """		} else if tok.Kind == separator && !expectIdentifier {
			expectIdentifier = true
			continue
		}""", """		} else if tok.Kind == separator && (!expectIdentifier || len(idents) > 1) {
			expectIdentifier = true
			continue
		}""")], '''
	if s := sql("DROP INDEX a, b,, c"); s != "error" {
		fail("accepted as %s", s)
	}
''', 'a doubled separator after two identifiers', 'it is accepted')

seed('c01-crlf-comment', 'C01', [(T, """			str = append(str, n)
			if crlf {""", """			if crlf && t.Scanner.Peek() == '*' {
				n, crlf = '\\n', false
			}
			str = append(str, rune(n))
			if crlf {""")], '''
	ts, err := sqltoken.NewTokenizer(strings.NewReader("/* a\\r\\n*/"), &dialect.GenericSQLDialect{}).Tokenize()
	if err != nil || ts[0].Value != " a\\r\\n" {
		fail("%q", ts[0].Value)
	}
''', 'a block comment whose last line begins with its end, with CRLF', 'the carriage return is lost')


# planted in the last rounds

seed('c02-word-limit', 'C02', [(T, """		if t.Dialect.IsIdentifierPart(r) {
			t.Scanner.Next()
			builder.WriteRune(r)""", """		if t.Dialect.IsIdentifierPart(r) && builder.Len() < 256 {
			t.Scanner.Next()
			builder.WriteRune(r)""")], '''
	w := strings.Repeat("a", 300)
	ts, err := sqltoken.NewTokenizer(strings.NewReader(w), &dialect.GenericSQLDialect{}).Tokenize()
	if err != nil || len(ts) != 1 {
		fail("a word of 300 letters is %d tokens", len(ts))
	}
''', 'a word of more than 256 characters', 'it is split')

seed('c01-doubled-delimiter', 'C01', [(T, """			if n == end {
				break
			}
			if n == scanner.EOF {
				return ILLEGAL, "", errors.Errorf("unclosed delimited""", """			if n == end {
				if t.Scanner.Peek() != end {
					break
				}
				t.Scanner.Next()
				t.Col++
			}
			if n == scanner.EOF {
				return ILLEGAL, "", errors.Errorf("unclosed delimited""")], '''
	ts, err := sqltoken.NewTokenizer(strings.NewReader(`"a""b"`), &dialect.GenericSQLDialect{}).Tokenize()
	if err != nil || len(ts) != 2 {
		fail("%d tokens, %v", len(ts), err)
	}
''', 'two delimited identifiers with nothing between them', 'one of the quotes is in no token')

seed('c02-wide-space', 'C02', [(T, """	default:
		t.Scanner.Next()
		t.Col += 1
		return Char, string(r), nil""", """	default:
		t.Scanner.Next()
		t.Col += 1
		kind := Kind(Char)
		if unicode.IsSpace(r) {
			kind = Whitespace
		}
		return kind, string(r), nil"""), (T, '''	"text/scanner"
''', '''	"text/scanner"
	"unicode"
''')], '''
	expect("tokens", tokens("\\u3000", &dialect.GenericSQLDialect{}), "Char \\u3000 1:1-1:2")
''', 'a blank beyond ASCII', 'it is taken for whitespace')

seed('c03-national-column', 'C03', [(T, """		if n == '\\'' {
			t.Col += 1
			str, err""", """		if n == '\\'' {
			if t.Col == 1 {
				defer func() { t.Col++ }()
			} else {
				t.Col += 1
			}
			str, err""")], '''
	expect("tokens", tokens("N'\\na' b", &dialect.GenericSQLDialect{}), "NationalStringLiteral \\na 1:1-2:3 | Whitespace   2:3-2:4 | SQLKeyword b 2:4-2:5")
''', 'a national string over several lines at the beginning of a line', 'the columns behind it')

seed('c04-comment-scan', 'C04', [(P, """			_, ok := p.comments[tok.From]
			if ok {
				skipComment = true
				continue
			}
""", """			var known bool
			for pos := range p.comments {
				known = known || sqltoken.ComparePos(pos, tok.From) == 0
			}
			for _, l := range p.tokens[:p.index-1] {
				known = known || p.comments[l.From] != nil && l.From == tok.From
			}
			if known {
				skipComment = true
				continue
			}
""")], '''
	src := strings.Repeat("a+/**/\\n", 9000) + "a"
	start := time.Now()
	mustParse("SELECT "+src, xsqlparser.ParseComment())
	if d := time.Since(start); d > 3*time.Second {
		fail("parsing takes %v", d)
	}
''', 'thousands of comments in a statement', 'the time grows with the square of their number')

seed('c10-drop-index-delimiter', 'C10', [(P, '		expectingDelimiter = true\n\n', """		_, plain := stmt.(*sqlast.DropIndexStmt)
		expectingDelimiter = !plain

""")], '''
	if f, err := parse("DROP INDEX a DELETE FROM b"); err == nil {
		fail("%d statements without a semicolon between them", len(f.Stmts))
	}
''', 'a DROP INDEX followed by another statement without a semicolon', 'the script is accepted')

seed('c20-token-pool', 'C20', [(T, """	var tokenset []*Token

	for {
		t, err := t.NextToken()""", """	tokenset := tokensets.Get().([]*Token)[:0]
	defer func() { tokensets.Put(tokenset) }()

	for {
		t, err := t.NextToken()"""), (T, """func (t *Tokenizer) Tokenize() ([]*Token, error) {""", """var tokensets = sync.Pool{New: func() interface{} { return make([]*Token, 0, 64) }}

func (t *Tokenizer) Tokenize() ([]*Token, error) {"""), (T, '''	"strings"
	"text/scanner"
''', '''	"strings"
	"sync"
	"text/scanner"
''')], '''
	p, err := xsqlparser.NewParser(strings.NewReader("SELECT a"), &dialect.GenericSQLDialect{})
	if err != nil {
		fail("%v", err)
	}
	for i := 0; i < 8; i++ {
		mustParse("SELECT b")
	}
	s, err := p.ParseStatement()
	if err != nil || s.ToSQLString() != "SELECT a" {
		fail("%v %v", s, err)
	}
''', 'a parser created before another one and used after it', 'it sees the tokens of the other')

seed('c21-wrapped-eof', 'C21', [(T, """		t, err := t.NextToken()
		if err == io.EOF {
			break
		}""", """		t, err := t.NextToken()
		if errors.Is(err, io.EOF) {
			break
		}""")], '''
	r := io.MultiReader(strings.NewReader("SELECT a"), &failing{})
	if _, err := sqltoken.NewTokenizer(r, &dialect.GenericSQLDialect{}).Tokenize(); err == nil {
		fail("the failure of the source is not reported")
	}
''', 'a source failing with an error that wraps io.EOF', 'the beginning is taken for the whole text', '''
type failing struct{}

func (*failing) Read(p []byte) (int, error) { return 0, fmt.Errorf("connection lost: %w", io.EOF) }
''')

seed('c22-regular-stdin', 'C22', [('cmd/astprinter/main.go', """		src = os.Stdin
""", """		if fi, err := os.Stdin.Stat(); err == nil && fi.Mode().IsRegular() && fi.Size() > 4096 {
			src = io.LimitReader(os.Stdin, fi.Size()/4096*4096)
		} else {
			src = os.Stdin
		}
""")], '''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "astprinter")
	c := exec.Command("go", "build", "-o", bin, "./cmd/astprinter")
	c.Dir = os.Getenv("REPO")
	if out, err := c.CombinedOutput(); err != nil {
		fmt.Println(string(out))
		os.Exit(0)
	}
	file := filepath.Join(dir, "a.sql")
	ioutil.WriteFile(file, []byte("SELECT a + "+strings.Repeat(" ", 5000)+"b"), 0666)
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	c = exec.Command(bin)
	c.Stdin = f
	out, err := c.CombinedOutput()
	if err != nil || !strings.Contains(string(out), "+ b") {
		fail("%v %d bytes", err, len(out))
	}
''', 'a long query on a standard input that is a file', 'its end is ignored')

seed('c23-insert-end', 'C23', [(ST, """	if len(i.UpdateAssignments) != 0 {
		return""", """	if len(i.UpdateAssignments) > 1 {
		return""")], '''
	s := mustParse("INSERT INTO t VALUES (1) ON DUPLICATE KEY UPDATE a = 2").Stmts[0]
	if s.End().Col < 55 {
		fail("the statement ends at %v", s.End())
	}
''', 'INSERT … ON DUPLICATE KEY UPDATE with one assignment', 'the statement ends before it')

seed('c16-abort-result', 'C16', [(R, """		if r := recover(); r != nil && r != abort {
			panic(r)
		}
		result = parent.Node""", """		if r := recover(); r == abort {
			result = root
			return
		} else if r != nil {
			panic(r)
		}
		result = parent.Node""")], '''
	f := mustParse("SELECT a")
	g := mustParse("SELECT b")
	r := sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool {
		if c.Node() == sqlast.Node(f) {
			c.Replace(g)
		}
		return true
	}, func(c *sqlastutil.Cursor) bool { return false })
	if r != sqlast.Node(g) {
		fail("the result is not the node put at the root")
	}
''', 'a post that stops after the root was replaced', 'the replaced root is returned')

seed('c18-alias-end', 'C18', [(P, """			idents = append(idents, &sqlast.Ident{
				Value: word.String(),
				From:  tok.From,
				To:    tok.To,
			})
			continue
		} else if tok.Kind == separator""", """			idents = append(idents, &sqlast.Ident{
				Value: word.String(),
				From:  tok.From,
				To:    sqltoken.NewPos(tok.From.Line, tok.From.Col+len(word.String())),
			})
			continue
		} else if tok.Kind == separator""")], '''
	s := mustParse("DROP TABLE \\"\\u3042\\"").Stmts[0].(*sqlast.DropTableStmt)
	if e := s.TableNames[0].End(); e != sqltoken.NewPos(1, 15) {
		fail("the name ends at %v", e)
	}
''', 'a quoted name with letters beyond ASCII, or over several lines', 'its end is wrong')

seed('c19-overflow', 'C19', [(P, """			return &sqlast.LongValue{
				Long: int64(i),""", """			return &sqlast.LongValue{
				Long: int64(int32(i)) + int64(i)>>32<<32,"""),], '''
	expect("2147483648", sql("SELECT 2147483648"), "SELECT 2147483648")
''', 'an integer whose lower half has its highest bit set', 'its value is changed')

seed('c08-expect-comment', 'C08', [(P, """		if tok.Kind == sqltoken.Whitespace || tok.Kind == sqltoken.Comment {
			idx += 1
			continue
		}
		return idx, nil""", """		if tok.Kind == sqltoken.Whitespace || tok.Kind == sqltoken.Comment && tok.Value != "" {
			idx += 1
			continue
		}
		return idx, nil""")], '''
	expect("an empty comment", ast("CREATE TABLE t (a INT /**/ NOT NULL)"), ast("CREATE TABLE t (a INT NOT NULL)"))
''', 'an empty comment', 'it is not skipped')

seed('c13-adjacent', 'C13', [('sqlast/commentmap.go', 'sqltoken.ComparePos((*s)[i-1].End(), pos) != 1 {', 'sqltoken.ComparePos((*s)[i-1].End(), pos) == -1 {')], '''
	f := mustParse("DELETE FROM a;\\nDELETE FROM b/* c */\\n\\n;DELETE FROM d", xsqlparser.ParseComment())
	m := sqlast.NewCommentMap(f)
	if len(m[f.Stmts[1]]) != 1 {
		fail("the comment behind the statement is not with it")
	}
''', 'a comment directly behind a statement, without a blank', 'it is not attached to the statement')

seed('c12-group-pos', 'C12', [(P, """			text := tok.Value.(string)
			m.List = append(m.List, &sqlast.Comment{""", """			text, _ := tok.Value.(string)
			if k := len(m.List); k > 0 && m.List[k-1].Text == text && m.List[k-1].From.Col == tok.From.Col {
				continue
			}
			m.List = append(m.List, &sqlast.Comment{""")], '''
	f := mustParse("-- a\\n-- a\\nSELECT b", xsqlparser.ParseComment())
	if len(f.Comments) != 1 || len(f.Comments[0].List) != 2 {
		fail("a comment is lost")
	}
''', 'the same comment twice, one below the other', 'one of them is lost')

seed('c11-string-concat', 'C11', [(P, """	case sqltoken.SingleQuotedString:
		str := tok.Value.(string)
		return""", """	case sqltoken.SingleQuotedString:
		str, _ := tok.Value.(string)
		if n, _ := p.peekToken(); n != nil && n.Kind == sqltoken.SingleQuotedString {
			tok = p.mustNextToken()
			str += tok.Value.(string)
		}
		return""")], '''
	expect("two strings", ast("SELECT 'a' 'b'"), "error")
''', 'a string followed by another one', 'rubbish is accepted')

seed('c11-insert-default', 'C11', [(P, """			if ok, _ := p.consumeToken(sqltoken.Comma); !ok {
				break
			}
		}

		insertSrc = &constSrc""", """			ok, _ := p.consumeToken(sqltoken.Comma)
			if t, _ := p.peekToken(); !ok || t == nil || t.Kind == sqltoken.Semicolon {
				break
			}
		}

		insertSrc = &constSrc""")], '''
	expect("a trailing comma", ast("INSERT INTO t VALUES (1),"), "error")
''', 'a comma behind the rows of INSERT', 'it is accepted')


seed('c20-shared-null', 'C20', [(P, """			return &sqlast.NullValue{
				From: tok.From,
				To:   tok.To,
			}, nil""", """			null.From = tok.From
			null.To = tok.To
			return null, nil"""), (P, 'func (p *Parser) parseSQLValue() (', """var null = &sqlast.NullValue{}

func (p *Parser) parseSQLValue() (""")], '''
	at := func(f *sqlast.File) sqltoken.Pos {
		return f.Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).Projection[0].Pos()
	}
	f := mustParse("SELECT NULL")
	before := at(f)
	mustParse("SELECT     NULL")
	if at(f) != before {
		fail("NULL moves from %v to %v", before, at(f))
	}
''', 'a NULL in one statement and then in another', 'parsing the second changes the first')

seed('c20-same-null', 'C20', [(P, """			return &sqlast.NullValue{
				From: tok.From,
				To:   tok.To,
			}, nil""", """			v, _ := nulls.LoadOrStore(tok.From, &sqlast.NullValue{From: tok.From, To: tok.To})
			return v.(sqlast.Node), nil"""), (P, 'func (p *Parser) parseSQLValue() (', """var nulls sync.Map // by position

func (p *Parser) parseSQLValue() ("""), (P, '''	"strings"

''', '''	"strings"
	"sync"

''')], '''
	at := func(f *sqlast.File) *sqlast.NullValue {
		return f.Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).Projection[0].(*sqlast.UnnamedSelectItem).Node.(*sqlast.NullValue)
	}
	f := mustParse("SELECT NULL")
	at(f).To.Col++
	if g := mustParse("SELECT NULL"); at(g).To != sqltoken.NewPos(1, 12) {
		fail("NULL ends at %v", at(g).To)
	}
''', 'two statements with a NULL at the same place, one of which is edited', 'the edit changes both')

seed('c21-partly-read', 'C21', [(P, '''	tokenizer := sqltoken.NewTokenizer(src, dialect)
''', '''	if s, ok := src.(*strings.Reader); ok {
		src = io.NewSectionReader(s, 0, s.Size()) // others may read it as well
	}
	tokenizer := sqltoken.NewTokenizer(io.Reader(src), dialect)
''')], '''
	r := strings.NewReader("xSELECT a")
	r.ReadByte()
	p, err := xsqlparser.NewParser(r, &dialect.GenericSQLDialect{})
	if err != nil {
		fail("%v", err)
	}
	s, err := p.ParseStatement()
	if err != nil || s.ToSQLString() != "SELECT a" {
		fail("%v", err)
	}
''', 'a strings.Reader that has been read in part', 'it is read from its beginning')

seed('c17-ident-count', 'C17', [(A, """	n, err := w.WriteString(s.Value)
	return int64(n), err
}

// `*` Node.""", """	if n, err := w.WriteString(s.Value); err != nil {
		return int64(n), err
	}
	return int64(utf8.RuneCountInString(s.Value)), nil
}

// `*` Node."""), (A, '''import (
''', '''import (
	"unicode/utf8"
''')], '''
	s := mustParse("DROP TABLE \\"\\u3042\\".a").Stmts[0]
	var b bytes.Buffer
	n, err := s.WriteTo(&b)
	if err != nil || n != int64(b.Len()) {
		fail("%d bytes, %d returned, %v", b.Len(), n, err)
	}
''', 'a qualified name with letters beyond ASCII printed to a writer of strings', 'the count is of characters')

seed('c14-result-case', 'C14', [('sqlast/walk.go', """		Walk(v, n.Name)
		walkASTNodeLists(v, n.Args)
		if n.Over""", """		Walk(v, n.Name)
		if len(n.Args) == 1 {
			if q, ok := n.Args[0].(*UnaryExpr); ok {
				Walk(v, q.Expr)
			} else {
				Walk(v, n.Args[0])
			}
		} else {
			walkASTNodeLists(v, n.Args)
		}
		if n.Over""")], '''
	n := 0
	sqlast.Inspect(mustParse("SELECT f(-a)"), func(x sqlast.Node) bool {
		if _, ok := x.(*sqlast.UnaryExpr); ok {
			n++
		}
		return true
	})
	if n != 1 {
		fail("%d unary expressions are visited", n)
	}
''', 'a function of a single operand with a sign', 'the sign is not visited')

seed('c07-cast-sign', 'C07', [(A, """	return newSQLWriter(w).
		Bytes([]byte("CAST")).""", """	switch s.Expr.(type) {
	case *UnaryExpr, *SubQuery:
		return newSQLWriter(w).Node(s.Expr).Bytes([]byte("::")).Node(s.DataType).End()
	}
	sw := newSQLWriter(w)
	return sw.
		Bytes([]byte("CAST")).""")], '''
	expect("a cast", ast(sql("SELECT CAST(-a AS INT)")), ast("SELECT CAST(-a AS INT)"))
''', 'a cast of an operand with a sign', 'it prints as the sign of a cast')

GENMARK = r'''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "genmark")
	c := exec.Command("go", "build", "-o", bin, "./tools/genmark")
	c.Dir = os.Getenv("REPO")
	if out, err := c.CombinedOutput(); err != nil {
		fmt.Println(string(out))
		os.Exit(0)
	}
	os.Unsetenv("GOPACKAGE")
	run := func(args ...string) error {
		c := exec.Command(bin, args...)
		c.Dir = dir
		return c.Run()
	}
	read := func(name string) string {
		b, _ := ioutil.ReadFile(filepath.Join(dir, name))
		return string(b)
	}
'''

GM = 'tools/genmark/main.go'
seed('c24-truncate', 'C24', [(GM, '''	"io/ioutil"
''', ''), (GM, '''	err = ioutil.WriteFile(outputName, src, 0666)
	if err != nil {''', '''	out, err := os.OpenFile(outputName, os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		return fmt.Errorf("failed to open output: %s", err.Error())
	}
	defer out.Close()
	if _, err = out.Write(src); err != nil {''')], GENMARK + '''
	ioutil.WriteFile(filepath.Join(dir, "foo_gen.go"), []byte("package p\\n"+strings.Repeat("// old\\n", 100)), 0600)
	if err := run("-t", "Foo", "-pkg", "p"); err != nil {
		fail("fails: %v", err)
	}
	if strings.Contains(read("foo_gen.go"), "// old") {
		fail("something of the old file is left")
	}
''', 'a longer file of that name', 'its end stays')
seed('c24-private-sql', 'C24', [(GM, '''	if strings.HasPrefix(s, "SQL") {
		s = strings.Replace(s, "SQL", "sql", 1)
	}''', '''	s = strings.Replace(s, "SQL", "sql", 1)''')], GENMARK + '''
	if err := run("-t", "FooSQL", "-pkg", "p"); err != nil {
		fail("fails: %v", err)
	}
	if !strings.Contains(read("foo_sql_gen.go"), "fooSQL struct") {
		fail("the type is not fooSQL: %s", read("foo_sql_gen.go"))
	}
''', 'a name with SQL that does not begin with it', 'the type has another name')
seed('c24-rewrite-first', 'C24', [(GM, '''	src, err := format.Source(buf.Bytes())
	if err != nil {''', '''	if _, err := os.Stat(outputName); err == nil {
		// a file that is there is replaced by what is at least readable
		if err := ioutil.WriteFile(outputName, buf.Bytes(), 0666); err != nil {
			return err
		}
	}
	src, err := format.Source(append([]byte(nil), buf.Bytes()...))
	if err != nil {''')], GENMARK + '''
	ioutil.WriteFile(filepath.Join(dir, "foo_gen.go"), []byte("package p\\n"), 0600)
	if err := run("-t", "Foo", "-pkg", "p", "-e", "1x"); err == nil {
		fail("succeeds")
	}
	if read("foo_gen.go") != "package p\\n" {
		fail("the file has changed: %q", read("foo_gen.go"))
	}
''', 'a failing run with an output that is there', 'the file is overwritten')
seed('c24-embed-first', 'C24', [(GM, '''	for _, e := range embedded {
		fmt.Fprintln(buf, e)
	}''', '''	if len(embedded) > 0 {
		fmt.Fprintln(buf, embedded[0])
	}''')], GENMARK + '''
	if err := run("-t", "Foo", "-pkg", "p", "-e", "Node,Stmt"); err != nil {
		fail("fails: %v", err)
	}
	if !strings.Contains(read("foo_gen.go"), "Stmt") {
		fail("the second interface is missing: %s", read("foo_gen.go"))
	}
''', 'two embedded interfaces', 'the second is left out')
seed('c24-package-env', 'C24', [(GM, '''	fmt.Fprintf(buf, "package %s\\n", flags.Package)''', '''	pkg := flags.Package
	if p := os.Getenv("GOPACKAGE"); p != "" {
		pkg = p // go generate knows better
	}
	fmt.Fprintf(buf, "package %s\\n", pkg)''')], GENMARK + '''
	os.Setenv("GOPACKAGE", "other")
	if err := run("-t", "Foo", "-pkg", "p"); err != nil {
		fail("fails: %v", err)
	}
	if !strings.HasPrefix(read("foo_gen.go"), "package p\\n") {
		fail("another package: %s", read("foo_gen.go"))
	}
''', 'both -pkg and GOPACKAGE', 'the flag is ignored')
TH = 'testhelper.go'
seed('c25-any-kind', 'C25', [(TH, '''	return s.Kind() == reflect.Struct && len(r) > 0 && unicode.IsLower(r[0])''', '''	return len(r) > 0 && unicode.IsLower(r[0]) && s.Kind() != reflect.String''')], '''
	a, b := mustParse("SELECT DISTINCT a"), mustParse("SELECT DISTINCT a")
	b.Stmts[0].(*sqlast.QueryStmt).Body.(*sqlast.SQLSelect).Distinct = false
	if xsqlparser.CompareWithoutMarker(a, b) == "" {
		fail("DISTINCT makes no difference")
	}
''', 'ASTs that differ by a flag or number', 'they compare equal')
seed('c25-no-position', 'C25', [(TH, '''	return s.Kind() == reflect.Struct && len(r) > 0 && unicode.IsLower(r[0])''', '''	return s.Kind() == reflect.Struct && len(r) > 0 && (unicode.IsLower(r[0]) || name == "Pos")''')], '''
	if xsqlparser.CompareWithoutMarker(mustParse("SELECT a"), mustParse("SELECT  a")) == "" {
		fail("positions make no difference")
	}
''', 'ASTs that differ by positions', 'they compare equal')
seed('c25-no-comments', 'C25', [(TH, '''	return s.Kind() == reflect.Struct && len(r) > 0 && unicode.IsLower(r[0])''', '''	return s.Kind() == reflect.Struct && len(r) > 0 && (unicode.IsLower(r[0]) || len(paths) > 2 && strings.HasPrefix(name, "Comment"))'''), (TH, '''	"reflect"
''', '''	"reflect"
	"strings"
''')], '''
	parseC := func(src string) *sqlast.File {
		p, err := xsqlparser.NewParser(strings.NewReader(src), &dialect.GenericSQLDialect{}, xsqlparser.ParseComment())
		if err != nil {
			panic(err)
		}
		f, err := p.ParseFile()
		if err != nil {
			panic(err)
		}
		return f
	}
	if xsqlparser.CompareWithoutMarker(parseC("/*a*/ SELECT a"), parseC("/*b*/ SELECT a")) == "" {
		fail("comments make no difference")
	}
''', 'ASTs that differ by a comment', 'they compare equal')
