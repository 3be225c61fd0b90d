package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// sqlCase is a behaviour of the SQL specification: a text and its AST, and edited texts with the recogniser's verdicts.
type sqlCase struct {
	T []string  `json:"t"`
	V *specNode `json:"v"`
	K string    `json:"k"`
	M []edited  `json:"m"`
	X []int     `json:"x"` // the tokens that stand for whole operands
	R []string  `json:"r"` // tokens after which the text is not derivable
}

// soup is a text that need not be derivable, with the verdicts on those one token longer.
func (c *sqlCase) soup() bool { return c.K == "Soup" }

// literals puts literals in the place of some operands (Interchangeable in Sql.tla).
func (c *sqlCase) literals(r *rand.Rand) *sqlCase {
	if len(c.X) == 0 {
		return c
	}
	classes := []struct{ tok, node string }{{"int", "LongValue"}, {"dbl", "DoubleValue"}, {"str", "SingleQuotedString"}, {"int", "LongValue"},
		{"nstr", "NationalStringLiteral"}, {"NULL", "NullValue"}, {"TRUE", "BooleanValue"}, {"FALSE", "BooleanValue"}}
	d := &sqlCase{T: append([]string(nil), c.T...), K: c.K}
	nodes := map[int]string{}
	for k, x := range c.X {
		if r.Intn(2) == 0 || k == len(c.X)-1 && len(nodes) == 0 {
			cl := classes[r.Intn(len(classes))]
			d.T[x-1], nodes[x] = cl.tok, cl.node
		}
	}
	d.V = c.V.withLeaves(nodes)
	return d
}

// withLeaves gives the identifiers at some tokens another kind.
func (n *specNode) withLeaves(nodes map[int]string) *specNode {
	m := *n
	if kind := nodes[n.Tok]; n.Kind == "Ident" && kind != "" {
		m.Kind = kind
		return &m
	}
	m.Kids = make([]*specNode, len(n.Kids))
	for i, k := range n.Kids {
		m.Kids[i] = k.withLeaves(nodes)
	}
	return &m
}

// texts longer by one token that are not derivable
func (c *sqlCase) dead() (es []edited) {
	for _, t := range c.R {
		es = append(es, edited{T: append(append([]string(nil), c.T...), t)})
	}
	return
}

type edited struct {
	T  []string  `json:"t"`
	OK bool      `json:"ok"`
	KW bool      `json:"kw"` // a keyword has been read as an identifier
	V  *specNode `json:"v"`  // the list of statements
	P  int       `json:"p"`  // the place of the edit and the keyword that an identifier has replaced
	W  string    `json:"w"`
}

func readSQL(r *Run) []sqlCase {
	var cs []sqlCase
	readCases(r.In, func(b []byte) {
		var c sqlCase
		if err := json.Unmarshal(b, &c); err != nil {
			fatal("case %s: %v", b, err)
		}
		cs = append(cs, c)
	})
	if len(cs) == 0 {
		fatal("no cases in %v", r.In)
	}
	sortCases(cs)
	return cs
}

// sortCases: TLC's workers print in any order
func sortCases(cs []sqlCase) {
	sort.SliceStable(cs, func(i, j int) bool {
		a, b := &cs[i], &cs[j]
		if x, y := strings.Join(a.T, " "), strings.Join(b.T, " "); x != y {
			return x < y
		}
		return a.K < b.K
	})
}

func (c *sqlCase) has(tok string) bool {
	for _, t := range c.T {
		if t == tok {
			return true
		}
	}
	return false
}

var dialects = []string{"generic", "mysql", "postgres", "letters"}
var layouts = []string{"plain", "tight", "spaces", "comments"}

// outcome is the result of parsing a script.
type outcome struct {
	File  *sqlast.File
	Err   error
	Panic interface{}
}

func (o outcome) ok() bool { return o.Err == nil && o.Panic == nil }
func (o outcome) problem() string {
	if o.Panic != nil {
		return fmt.Sprint(o.Panic)
	}
	if o.Err != nil {
		s := o.Err.Error()
		if len(s) > 300 {
			s = s[:300]
		}
		return "rejected: " + s
	}
	return ""
}

// parse reads a script through one of the entry points; all return the statements as a file.
// how: file, sql, comments (collecting them), tokens, stripped (tokens without whitespace and comments)
func parse(src, dialect, how string) (o outcome) {
	o.Panic = guard(func() {
		var p *xsqlparser.Parser
		d := dialectOf(dialect)
		switch how {
		case "tokens", "stripped":
			tk := sqltoken.NewTokenizerWithOptions(strings.NewReader(src), sqltoken.Dialect(d))
			if how == "stripped" {
				tk = sqltoken.NewTokenizerWithOptions(strings.NewReader(src), sqltoken.Dialect(d), sqltoken.DisableParseComment())
			}
			ts, err := tk.Tokenize()
			if err != nil {
				o.Err = err
				return
			}
			p = xsqlparser.NewParserWithOptions()
			p.SetTokens(ts)
		case "comments":
			p, o.Err = xsqlparser.NewParser(strings.NewReader(src), d, xsqlparser.ParseComment())
		default:
			p, o.Err = xsqlparser.NewParser(strings.NewReader(src), d)
		}
		if o.Err != nil {
			return
		}
		if how == "sql" {
			var ss []sqlast.Stmt
			ss, o.Err = p.ParseSQL()
			o.File = &sqlast.File{Stmts: ss}
			if o.Err != nil && len(ss) > 0 {
				o.Panic = fmt.Sprintf("%d statements are returned together with the error %v", len(ss), o.Err)
			}
			return
		}
		o.File, o.Err = p.ParseFile()
		if o.Err != nil && o.File != nil {
			o.Panic = fmt.Sprintf("a file is returned together with the error %v", o.Err)
		}
	})
	return
}

func parseStatement(src, dialect string) (s sqlast.Stmt, err error, p interface{}) {
	p = guard(func() {
		var ps *xsqlparser.Parser
		ps, err = xsqlparser.NewParser(strings.NewReader(src), dialectOf(dialect))
		if err == nil {
			s, err = ps.ParseStatement()
		}
	})
	return
}

// sampling of spellings and layouts
func randomSpelling(r *rand.Rand, ids string) spelling {
	return spelling{Idents: ids, Keywords: []string{"upper", "lower", "mixed"}[r.Intn(3)], Literals: "wild", Dialect: dialects[r.Intn(len(dialects))]}
}

func (r *Run) rng(i, k int) *rand.Rand {
	return rand.New(rand.NewSource(r.Seed*1000003 + int64(i)*31 + int64(k)*7919))
}

func caseOf(rd *rendered) string { return fmt.Sprintf("dialect=%s source=%q", rd.Dialect, rd.Src) }

func (r *Run) mismatch(rd *rendered, how string, e *mismatch) {
	r.violate(Violation{Case: caseOf(rd), What: how + ": " + e.Error(), Expected: e.Expected, Got: e.Got})
}

// expect parses a rendered text and compares the statements with those prescribed.
func (r *Run) expect(rd *rendered, how string, want []*specNode, m matcher) *outcome {
	o := parse(rd.Src, rd.Dialect, how)
	r.eval(1)
	if !o.ok() {
		r.violate(Violation{Case: caseOf(rd), What: how + ": a supported text is " + o.problem(), Expected: fmt.Sprint(want)})
		return nil
	}
	if len(o.File.Stmts) != len(want) {
		r.violate(Violation{Case: caseOf(rd), What: how + ": another number of statements", Expected: len(want), Got: len(o.File.Stmts)})
		return nil
	}
	m.rd = rd
	for i, w := range want {
		if e := m.match(w, valueOf(o.File.Stmts[i]), "stmt"); e != nil {
			r.mismatch(rd, how, e)
			return nil
		}
	}
	return &o
}

// judge compares the verdict on an edited text with the real one.
// Texts in which a keyword stands for an identifier need not be accepted.
func (r *Run) judge(rd *rendered, how string, e *edited, rejectOnly, acceptOnly bool) {
	o := parse(rd.Src, rd.Dialect, how)
	r.eval(1)
	switch {
	case o.Panic != nil:
		r.violate(Violation{Case: caseOf(rd), What: how + ": " + o.problem()})
	case !e.OK && o.Err == nil && !acceptOnly:
		r.violate(Violation{Case: caseOf(rd), What: how + ": a malformed text is accepted", Expected: "an error", Got: printAll(o.File)})
	case e.OK && o.Err != nil && !e.KW && !rejectOnly:
		r.violate(Violation{Case: caseOf(rd), What: how + ": a supported text is " + o.problem(), Expected: fmt.Sprint(e.V)})
	case e.OK && o.Err == nil:
		if len(o.File.Stmts) != len(e.V.Kids) {
			r.violate(Violation{Case: caseOf(rd), What: how + ": another number of statements", Expected: len(e.V.Kids), Got: len(o.File.Stmts)})
			return
		}
		m := matcher{rd: rd}
		for i, w := range e.V.Kids {
			if x := m.match(w, valueOf(o.File.Stmts[i]), "stmt"); x != nil {
				r.mismatch(rd, how, x)
				return
			}
		}
	}
}

func printAll(f *sqlast.File) (s string) {
	if p := guard(func() { s = f.ToSQLString() }); p != nil {
		return fmt.Sprint(p)
	}
	return s
}

func (r *Run) note(i, n int, rd *rendered, k string) {
	r.nontrivial(strings.Join(texts(rd.Lex), " "))
	if i%(n/4+1) == 0 {
		r.sample(k + ": " + rd.Src)
	}
}

func init() {
	// C05, C06: the AST of every derivation is the one prescribed
	commands["ast"] = func(r *Run) {
		cs := readSQL(r)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			plain := spelling{Idents: "plain", Keywords: "upper", Literals: "plain", Dialect: dialects[i%len(dialects)]}
			if c.soup() {
				for j := range c.M {
					e := &c.M[j]
					if e.OK && !e.KW {
						rd := render(rr, plain.spell(rr, e.T), "plain", plain.Dialect)
						desc(func() string { return caseOf(rd) })
						r.count("token sequences accepted", 1)
						r.nontrivial(strings.Join(texts(rd.Lex), " "))
						r.judge(rd, "file", e, false, true)
					}
				}
				return
			}
			rd := render(rr, plain.spell(rr, c.T), "plain", plain.Dialect)
			desc(func() string { return caseOf(rd) })
			r.note(i, len(cs), rd, c.K)
			r.count("derivations of "+c.K, 1)
			want := []*specNode{c.V}
			if r.expect(rd, "ParseFile", want, matcher{}) == nil {
				return
			}
			sp := randomSpelling(rr, "any").widened(rr, c.T)
			rd2 := render(rr, sp.spell(rr, c.T), layouts[rr.Intn(4)], sp.Dialect)
			desc(func() string { return caseOf(rd2) })
			if r.expect(rd2, []string{"sql", "comments", "stripped"}[rr.Intn(3)], want, matcher{}) == nil {
				return
			}
			s, err, p := parseStatement(rd2.Src, rd2.Dialect)
			if err != nil || p != nil {
				r.violate(Violation{Case: caseOf(rd2), What: "ParseStatement: " + outcome{Err: err, Panic: p}.problem()})
			} else if e := (&matcher{rd: rd2}).match(c.V, valueOf(s), "stmt"); e != nil {
				r.mismatch(rd2, "ParseStatement", e)
			}
			if len(c.X) > 0 {
				l := c.literals(rr)
				rd := render(rr, plain.spell(rr, l.T), "plain", plain.Dialect)
				desc(func() string { return caseOf(rd) })
				r.count("with literals for operands", 1)
				if r.expect(rd, "file", []*specNode{l.V}, matcher{}) == nil {
					return
				}
			}
			if c.has("int") {
				z := plain
				z.Literals = "zero"
				rd := render(rr, z.spell(rr, c.T), "plain", z.Dialect)
				desc(func() string { return caseOf(rd) })
				if r.expect(rd, "file", want, matcher{}) == nil {
					return
				}
			}
			if c.K == "Expr" {
				r.expr(rr, c, sp)
			}
			if c.K == "Type" {
				r.dataType(rr, c, sp)
			}
			for j := range c.M {
				e := &c.M[j]
				if !e.OK || e.KW || len(e.T) == 0 {
					continue
				}
				rd := render(rr, plain.spell(rr, e.T), "plain", plain.Dialect)
				desc(func() string { return caseOf(rd) })
				r.count("edited texts accepted", 1)
				r.judge(rd, "file", e, false, true)
			}
		})
	}

	// C07: printing and reparsing
	commands["roundtrip"] = func(r *Run) {
		cs := readSQL(r)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			sp := randomSpelling(rr, []string{"any", "quoted", "plain"}[i%3]).widened(rr, c.T)
			if c.soup() {
				for j := range c.M {
					rd := render(rr, sp.spell(rr, c.M[j].T), "plain", sp.Dialect)
					desc(func() string { return caseOf(rd) })
					r.nontrivial(strings.Join(texts(rd.Lex), " "))
					if r.roundtrip(rd) {
						r.count("token sequences that parse", 1)
					}
				}
				return
			}
			rd := render(rr, sp.spell(rr, c.T), layouts[rr.Intn(4)], sp.Dialect)
			desc(func() string { return caseOf(rd) })
			r.note(i, len(cs), rd, c.K)
			r.count("derivations of "+c.K, 1)
			r.roundtrip(rd)
			if len(c.X) > 0 {
				rd := render(rr, sp.spell(rr, c.literals(rr).T), "plain", sp.Dialect)
				desc(func() string { return caseOf(rd) })
				r.count("with literals for operands", 1)
				r.roundtrip(rd)
			}
			if c.has("int") {
				sp.Literals = "zero"
				r.roundtrip(render(rr, sp.spell(rr, c.T), "plain", sp.Dialect))
			}
			for j := range c.M {
				if len(c.M[j].T) > 0 {
					rd := render(rr, sp.spell(rr, c.M[j].T), "plain", sp.Dialect)
					desc(func() string { return caseOf(rd) })
					if r.roundtrip(rd) {
						r.count("edited texts that parse", 1)
					}
				}
			}
			// a script of several statements
			ls := append([]lexeme(nil), rd.Lex...)
			for n := rr.Intn(4); n > 0; n-- {
				ls = append(ls, lexeme{";", ";"})
				ls = append(ls, sp.spell(rr, cs[rr.Intn(len(cs))].T)...)
			}
			rd2 := render(rr, ls, layouts[rr.Intn(4)], sp.Dialect)
			desc(func() string { return caseOf(rd2) })
			r.roundtrip(rd2)
		})
	}

	// C08: layout and letter case
	commands["layout"] = func(r *Run) {
		cs := readSQL(r)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			sp := randomSpelling(rr, []string{"any", "plain"}[i%2]).widened(rr, c.T)
			ls := sp.spell(rr, c.T)
			if rr.Intn(2) == 0 {
				ls = sp.spell(rr, c.literals(rr).T)
			}
			base := render(rr, ls, "plain", sp.Dialect)
			desc(func() string { return caseOf(base) })
			r.note(i, len(cs), base, c.K)
			r.count("derivations of "+c.K, 1)
			r.variants(rr, base, ls, true)
			for j := range c.M {
				if e := &c.M[j]; len(e.T) > 0 {
					ls := sp.spell(rr, e.T)
					rd := render(rr, ls, "plain", sp.Dialect)
					desc(func() string { return caseOf(rd) })
					r.count("edited texts", 1)
					r.variants(rr, rd, ls, false)
				}
			}
		})
	}

	// C09: quoted identifiers and the spelling of identifiers
	commands["idents"] = func(r *Run) {
		cs := readSQL(r)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			for k, ids := range []string{"quoted", "words", "quoted"} {
				sp := randomSpelling(rr, ids).widened(rr, c.T)
				rd := render(rr, sp.spell(rr, c.T), []string{"plain", "spaces", "tight"}[k], sp.Dialect)
				desc(func() string { return caseOf(rd) })
				if k == 0 {
					r.note(i, len(cs), rd, c.K)
				}
				if r.expect(rd, "file", []*specNode{c.V}, matcher{}) == nil {
					return
				}
			}
			r.count("derivations of "+c.K, 1)
			// a quoted identifier in the place of the keyword it contains
			for j := range c.M {
				e := &c.M[j]
				if e.W == "" {
					continue
				}
				sp := randomSpelling(rr, "plain")
				ls := sp.spell(rr, e.T)
				text := e.W
				if rr.Intn(2) == 0 {
					text = strings.ToLower(text)
				}
				ls[e.P-1].Text = quoteIdent(rr, sp.Dialect, text)
				rd := render(rr, ls, "plain", sp.Dialect)
				desc(func() string { return caseOf(rd) })
				r.count("keywords replaced by quoted identifiers", 1)
				r.judge(rd, "file", e, false, false)
			}
		})
	}

	// C10: scripts
	commands["script"] = func(r *Run) {
		cs := readSQL(r)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			for k := 0; k < 2; k++ {
				sp := randomSpelling(rr, "any")
				rd := render(rr, sp.spell(rr, c.T), layouts[(i+k)%4], sp.Dialect)
				desc(func() string { return caseOf(rd) })
				if k == 0 {
					r.note(i, len(cs), rd, fmt.Sprintf("%d statements", len(c.V.Kids)))
					r.count(fmt.Sprintf("scripts of %d statements", len(c.V.Kids)), 1)
				}
				o := r.expect(rd, []string{"file", "comments", "sql", "stripped"}[rr.Intn(4)], c.V.Kids, matcher{})
				if o == nil {
					return
				}
				r.alone(rd, o)
			}
			for j := range c.M {
				e := &c.M[j]
				if len(e.T) > 0 {
					sp := randomSpelling(rr, "plain")
					rd := render(rr, sp.spell(rr, e.T), "plain", sp.Dialect)
					desc(func() string { return caseOf(rd) })
					r.count("edited scripts", 1)
					r.judge(rd, "file", e, false, false)
				}
			}
		})
	}

	// C11: malformed scripts
	commands["reject"] = func(r *Run) {
		cs := readSQL(r)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			for j, e := range append(c.M[:len(c.M):len(c.M)], c.dead()...) {
				e := e
				if len(e.T) == 0 {
					continue
				}
				sp := randomSpelling(rr, []string{"plain", "words"}[j%2])
				rd := render(rr, sp.spell(rr, e.T), layouts[rr.Intn(4)], sp.Dialect)
				desc(func() string { return caseOf(rd) })
				if j == 0 {
					r.note(i, len(cs), rd, fmt.Sprintf("derivable=%v", e.OK))
				} else {
					r.nontrivial(strings.Join(texts(rd.Lex), " "))
				}
				if e.OK {
					r.count("derivable", 1)
				} else {
					r.count("not derivable", 1)
				}
				r.judge(rd, []string{"file", "sql", "comments"}[rr.Intn(3)], &e, true, false)
			}
			if c.soup() {
				return
			}
			// texts that end inside a quoted token or a comment
			sp := randomSpelling(rr, "plain")
			rd := render(rr, sp.spell(rr, c.T), "plain", sp.Dialect)
			for _, open := range []string{" '", " \"", " /*", " N'", "/* * /", " 'a''", " \"a''", "; 'select 1"} {
				src := rd.Src + open
				desc(func() string { return src })
				r.eval(1)
				r.count("unterminated", 1)
				if o := parse(src, sp.Dialect, []string{"file", "comments", "sql"}[rr.Intn(3)]); o.Panic != nil || o.Err == nil {
					r.violate(Violation{Case: fmt.Sprintf("dialect=%s source=%q", sp.Dialect, src), What: "a text that ends inside a token is accepted", Got: o.problem()})
				}
			}
		})
	}

	// C18: extents of identifiers and literals
	commands["extents"] = func(r *Run) {
		cs := readSQL(r)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			for k := 0; k < 3; k++ {
				sp := randomSpelling(rr, []string{"any", "quoted", "plain"}[k]).widened(rr, c.T)
				l := c
				if k == 2 {
					l = c.literals(rr)
				}
				rd := render(rr, sp.spell(rr, l.T), []string{"comments", "spaces", "tight"}[k], sp.Dialect)
				desc(func() string { return caseOf(rd) })
				if k == 0 {
					r.note(i, len(cs), rd, c.K)
				}
				if r.expect(rd, []string{"file", "comments"}[k%2], []*specNode{l.V}, matcher{extents: true, onlyExt: true}) == nil {
					return
				}
			}
			r.count("derivations of "+c.K, 1)
		})
	}
}

// expr parses the expression of a case alone.
func (r *Run) expr(rr *rand.Rand, c *sqlCase, sp spelling) {
	rd := render(rr, sp.spell(rr, c.T[1:]), layouts[rr.Intn(4)], sp.Dialect)
	var x sqlast.Node
	var err error
	p := guard(func() {
		var ps *xsqlparser.Parser
		ps, err = xsqlparser.NewParser(strings.NewReader(rd.Src), dialectOf(rd.Dialect))
		if err == nil {
			x, err = ps.ParseExpr()
		}
	})
	r.eval(1)
	if err != nil || p != nil {
		r.violate(Violation{Case: caseOf(rd), What: "ParseExpr: " + outcome{Err: err, Panic: p}.problem()})
		return
	}
	// QueryStmt.Body = SQLSelect; Projection[0] = UnnamedSelectItem
	want := c.V.Kids[1].Kids[1].Kids[0].Kids[0]
	if e := (&matcher{rd: rd, base: -1}).match(want, valueOf(x), "expr"); e != nil {
		r.mismatch(rd, "ParseExpr", e)
	}
}

// dataType parses the type of a case SELECT CAST(id AS type) alone.
func (r *Run) dataType(rr *rand.Rand, c *sqlCase, sp spelling) {
	rd := render(rr, sp.spell(rr, c.T[5:len(c.T)-1]), layouts[rr.Intn(4)], sp.Dialect)
	var x sqlast.Type
	var err error
	p := guard(func() {
		var ps *xsqlparser.Parser
		ps, err = xsqlparser.NewParser(strings.NewReader(rd.Src), dialectOf(rd.Dialect))
		if err == nil {
			x, err = ps.ParseDataType()
		}
	})
	r.eval(1)
	if err != nil || p != nil {
		r.violate(Violation{Case: caseOf(rd), What: "ParseDataType: " + outcome{Err: err, Panic: p}.problem()})
		return
	}
	want := c.V.Kids[1].Kids[1].Kids[0].Kids[0].Kids[1]
	if e := (&matcher{rd: rd, base: -5}).match(want, valueOf(x), "type"); e != nil {
		r.mismatch(rd, "ParseDataType", e)
	}
}

// roundtrip prints what a text parses to and parses it again. Texts that do not parse are nothing to it.
func (r *Run) roundtrip(rd *rendered) bool {
	o := parse(rd.Src, rd.Dialect, "file")
	if !o.ok() {
		return false
	}
	r.eval(1)
	add := func(what string, exp, got interface{}) {
		r.violate(Violation{Case: caseOf(rd), What: what, Expected: exp, Got: got})
	}
	p := guard(func() {
		var before []string
		for i, s := range o.File.Stmts {
			text := s.ToSQLString()
			before = append(before, dump(s))
			o2 := parse(text, rd.Dialect, "file")
			if !o2.ok() {
				add(fmt.Sprintf("the printed statement %d does not parse: %s", i, o2.problem()), nil, text)
				return
			}
			if len(o2.File.Stmts) != 1 {
				add(fmt.Sprintf("the printed statement %d parses to %d statements", i, len(o2.File.Stmts)), nil, text)
				return
			}
			if got := dump(o2.File.Stmts[0]); got != before[i] {
				add(fmt.Sprintf("the printed statement %d parses to another AST; printed: %q", i, text), before[i], got)
				return
			}
			if text2 := o2.File.Stmts[0].ToSQLString(); text2 != text {
				add("printing the reparsed statement gives another text", text, text2)
				return
			}
		}
		text := o.File.ToSQLString()
		o2 := parse(text, rd.Dialect, "file")
		if !o2.ok() {
			add("the printed file does not parse: "+o2.problem(), nil, text)
			return
		}
		if len(o2.File.Stmts) != len(before) {
			add("the printed file has another number of statements; printed: "+text, len(before), len(o2.File.Stmts))
			return
		}
		for i, s := range o2.File.Stmts {
			if got := dump(s); got != before[i] {
				add(fmt.Sprintf("statement %d of the printed file is another one; printed: %q", i, text), before[i], got)
				return
			}
		}
		if text2 := o2.File.ToSQLString(); text2 != text {
			add("printing the reparsed file gives another text", text, text2)
		}
	})
	if p != nil {
		add(fmt.Sprint(p), nil, nil)
	}
	return true
}

// recase changes the letter case of the keywords.
func recase(rr *rand.Rand, ls []lexeme, mode string) []lexeme {
	out := append([]lexeme(nil), ls...)
	for i, l := range out {
		switch l.Class {
		case "id", "int", "dbl", "str", "nstr":
			continue
		}
		switch mode {
		case "upper":
			out[i].Text = strings.ToUpper(l.Text)
		case "lower":
			out[i].Text = strings.ToLower(l.Text)
		case "mixed":
			out[i].Text = mixCase(rr, l.Text)
		}
	}
	return out
}

func result(o outcome) string {
	if o.Panic != nil {
		return fmt.Sprint(o.Panic)
	}
	if o.Err != nil {
		return "rejected"
	}
	return dump(o.File.Stmts)
}

// variants compares the results of different layouts of the same tokens.
func (r *Run) variants(rr *rand.Rand, base *rendered, ls []lexeme, recased bool) {
	want := result(parse(base.Src, base.Dialect, "file"))
	try := func(rd *rendered, how string) {
		r.eval(1)
		if got := result(parse(rd.Src, rd.Dialect, how)); got != want {
			r.violate(Violation{Case: caseOf(rd), What: fmt.Sprintf("%s: parses differently from %q", how, base.Src), Expected: want, Got: got})
		}
	}
	hows := []string{"comments", "sql", "tokens", "stripped"}
	for _, how := range hows {
		try(base, how)
	}
	for k, layout := range []string{"tight", "spaces", "comments", "comments"} {
		v := ls
		if recased {
			v = recase(rr, ls, []string{"upper", "lower", "mixed", "mixed"}[k])
		}
		rd := render(rr, v, layout, base.Dialect)
		try(rd, "file")
		try(rd, hows[rr.Intn(4)])
	}
}

// alone parses each statement of a script by itself.
func (r *Run) alone(rd *rendered, o *outcome) {
	n := 0
	start := 0
	for i := 0; i <= len(rd.Lex); i++ {
		if i < len(rd.Lex) && rd.Lex[i].Class != ";" {
			continue
		}
		if i > start {
			end := len(rd.Src)
			if i < len(rd.Lex) {
				end = rd.Off[i]
			}
			src := rd.Src[rd.Off[start]:end]
			if n >= len(o.File.Stmts) {
				return
			}
			r.eval(1)
			a := parse(src, rd.Dialect, "file")
			if !a.ok() || len(a.File.Stmts) != 1 {
				r.violate(Violation{Case: caseOf(rd), What: fmt.Sprintf("statement %q alone: %s", src, a.problem())})
			} else if x, y := dump(a.File.Stmts[0]), dump(o.File.Stmts[n]); x != y {
				r.violate(Violation{Case: caseOf(rd), What: "a statement differs from the one parsed alone", Expected: x, Got: y})
			}
			n++
		}
		start = i + 1
	}
}
