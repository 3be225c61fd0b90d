package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// gapCase is a behaviour of Comments.tla
type gapCase struct {
	After  bool     `json:"after"`
	Gap    []string `json:"gap"`
	Groups [][]int  `json:"groups"`
}

func (g *gapCase) openLine() bool { return len(g.Gap) > 0 && g.Gap[len(g.Gap)-1] == "l" }

type lineCase struct {
	Lines  []string `json:"lines"`
	Owners []int    `json:"owners"`
}

type commentAt struct {
	Text     string
	From, To sqltoken.Pos
}

var lineTexts = []string{"", " c", "/*", " it's", "*/", ";", "-", "\t", " é日", " select", "- \"x", " /* y */", "!", "'"}
var blockTexts = []string{"", " c ", "*", "--", " /* ", "'", " é ", "**", ";", "\t", "-", " select ", "\"", "/"}
var multiTexts = []string{"\n", "a\nb", "\r\n", "\r", " x\r\n\r\n y ", "\n\n", "é\n--", "*\n*", "\n'"}

// renderGaps lays the lexemes out with comments between them.
type commented struct {
	rendered
	Groups [][]commentAt
}

// fill picks what stands before lexeme i (the last one: after all of them).
func renderGaps(r *rand.Rand, ls []lexeme, dialect string, fill func(i int) *gapCase) *commented {
	out := &commented{}
	out.Lex, out.Dialect = ls, dialect
	var b strings.Builder
	pos := sqltoken.Pos{Line: 1, Col: 1}
	prev := ""
	n := 0
	put := func(s string) {
		b.WriteString(s)
		pos = advance(pos, s, true)
	}
	for i := 0; i <= len(ls); i++ {
		next := ""
		if i < len(ls) {
			next = ls[i].Text
		}
		g := fill(i)
		start := b.Len()
		var cs []commentAt
		for _, x := range g.Gap {
			// what would change the tokens before
			if last := lastByte(b.String()); x == "l" && last == '-' || (x == "b" || x == "m") && last == '/' && b.Len() == start {
				put(" ")
			}
			n++
			tag := ""
			if r.Intn(2) == 0 {
				tag = fmt.Sprint(n)
			}
			var text, src string
			switch x {
			case "s":
				put([]string{" ", "  ", "\t"}[r.Intn(3)])
				continue
			case "n":
				nl := []string{"\r\n", "\r", "\n", "\n"}
				if lastByte(b.String()) == '\r' { // a "\n" would belong to it
					nl = nl[:2]
				}
				put(pick(r, nl))
				continue
			case "l":
				text = pick(r, lineTexts) + tag
				src = "--" + text
			case "b":
				text = pick(r, blockTexts) + tag
				src = "/*" + text + "*/"
			case "m":
				text = pick(r, multiTexts) + tag
				src = "/*" + text + "*/"
			}
			c := commentAt{Text: text, From: pos}
			b.WriteString(src)
			pos = advance(pos, src, false)
			c.To = pos
			cs = append(cs, c)
		}
		for _, g := range g.Groups {
			var list []commentAt
			for _, k := range g {
				list = append(list, cs[k-1])
			}
			out.Groups = append(out.Groups, list)
		}
		if i == len(ls) {
			break
		}
		if b.Len() == start && prev != "" && needSep(prev, next) {
			put(" ")
		}
		out.From = append(out.From, pos)
		out.Off = append(out.Off, b.Len())
		b.WriteString(next)
		pos = advance(pos, next, false)
		out.To = append(out.To, pos)
		prev = next
	}
	out.Src = b.String()
	return out
}

func lastByte(s string) byte {
	if s == "" {
		return 0
	}
	return s[len(s)-1]
}

func groupsOf(f *sqlast.File) (out [][]commentAt) {
	for _, g := range f.Comments {
		var l []commentAt
		for _, c := range g.List {
			l = append(l, commentAt{c.Text, c.From, c.To})
		}
		out = append(out, l)
	}
	return
}

func (r *Run) readGaps() (afters, firsts, any []*gapCase) {
	readCases(r.In, func(b []byte) {
		if !strings.Contains(string(b), `"gap"`) {
			return
		}
		g := &gapCase{}
		if err := json.Unmarshal(b, g); err != nil {
			fatal("gap %s: %v", b, err)
		}
		any = append(any, g)
		if !g.openLine() {
			if g.After {
				afters = append(afters, g)
			} else {
				firsts = append(firsts, g)
			}
		}
	})
	if len(any) == 0 {
		fatal("no gaps in %v", r.In)
	}
	return
}

// readMixed reads the SQL cases among the input.
func (r *Run) readMixed() []sqlCase {
	var cs []sqlCase
	readCases(r.In, func(b []byte) {
		var c sqlCase
		if json.Unmarshal(b, &c) == nil && len(c.T) > 0 {
			cs = append(cs, c)
		}
	})
	if len(cs) == 0 {
		fatal("no SQL cases in %v", r.In)
	}
	sortCases(cs)
	return cs
}

func commentsMatch(want, got [][]commentAt) string {
	flat := func(gs [][]commentAt) (out []commentAt) {
		for _, g := range gs {
			out = append(out, g...)
		}
		return
	}
	if w, g := fmt.Sprintf("%q", flat(want)), fmt.Sprintf("%q", flat(got)); w != g {
		return "the comments collected are not those of the source"
	}
	if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", got) {
		return "the comments are grouped in another way"
	}
	return ""
}

func (r *Run) comments(rd *commented) *sqlast.File {
	r.eval(1)
	o := parse(rd.Src, rd.Dialect, "comments")
	if !o.ok() {
		r.violate(Violation{Case: caseOf(&rd.rendered), What: "with comments, a supported text is " + o.problem()})
		return nil
	}
	if what := commentsMatch(rd.Groups, groupsOf(o.File)); what != "" {
		r.violate(Violation{Case: caseOf(&rd.rendered), What: what, Expected: fmt.Sprintf("%+v", rd.Groups), Got: fmt.Sprintf("%+v", groupsOf(o.File))})
		return nil
	}
	return o.File
}

func init() {
	// C12
	commands["comments"] = func(r *Run) {
		afters, firsts, any := r.readGaps()
		empty := &gapCase{}
		cs := r.readMixed()
		at := func(gs []*gapCase, rr *rand.Rand) *gapCase { return gs[rr.Intn(len(gs))] }
		last := func(rr *rand.Rand, first bool) *gapCase {
			for {
				if g := any[rr.Intn(len(any))]; g.After != first {
					return g
				}
			}
		}
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			for k := 0; k < 2; k++ {
				sp := randomSpelling(rr, []string{"any", "plain"}[k])
				ls := sp.spell(rr, c.T)
				// several statements, and empty ones
				for j := rr.Intn(3); j > 0; j-- {
					ls = append(ls, lexeme{";", ";"})
					if rr.Intn(3) > 0 {
						ls = append(ls, sp.spell(rr, cs[rr.Intn(len(cs))].T)...)
					}
				}
				rd := renderGaps(rr, ls, sp.Dialect, func(j int) *gapCase {
					switch {
					case j == len(ls):
						return last(rr, false)
					case j == 0:
						return at(firsts, rr)
					case rr.Intn(3) == 0:
						return empty
					}
					return at(afters, rr)
				})
				desc(func() string { return caseOf(&rd.rendered) })
				if k == 0 {
					r.note(i, len(cs), &rd.rendered, c.K)
				}
				r.comments(rd)
			}
		})
		// every gap at every place of some texts
		var probes [][]lexeme
		for _, s := range []string{"", "SELECT id", "SELECT id . id , id FROM id AS id WHERE id IN ( int )", "DELETE FROM id ; DROP TABLE id", "; SELECT int ;",
			"CREATE TABLE id ( id INT NOT NULL , CHECK ( id ) )", "INSERT INTO id ( id ) VALUES ( str )", "SELECT ( id NOT BETWEEN int AND int ) UNION SELECT id :: INT"} {
			sp := spelling{Idents: "plain", Keywords: "upper", Literals: "plain", Dialect: "generic"}
			probes = append(probes, sp.spell(r.rng(0, 4), strings.Fields(s)))
		}
		r.each(len(probes)*len(any), func(i int, desc func(func() string)) {
			ls, g := probes[i%len(probes)], any[i/len(probes)]
			rr := r.rng(i, 5)
			for place := 0; place <= len(ls); place++ {
				if g.After != (place > 0) || g.openLine() && place < len(ls) {
					continue
				}
				rd := renderGaps(rr, ls, "generic", func(j int) *gapCase {
					if j == place {
						return g
					}
					return empty
				})
				desc(func() string { return caseOf(&rd.rendered) })
				r.count("gaps placed", 1)
				r.nontrivial(rd.Src)
				r.comments(rd)
			}
		})
	}

	// C13: the sweep
	commands["commentmap"] = func(r *Run) {
		afters, firsts, any := r.readGaps()
		empty := &gapCase{}
		cs := r.readMixed()
		chosen := r.choose(cs)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 0)
			if !chosen[i] && rr.Intn(4) != 0 {
				return
			}
			sp := randomSpelling(rr, "any")
			ls := sp.spell(rr, c.T)
			for j := rr.Intn(3); j > 0; j-- {
				ls = append(ls, lexeme{";", ";"})
				ls = append(ls, sp.spell(rr, cs[rr.Intn(len(cs))].T)...)
			}
			rate := 1 + rr.Intn(8)
			rd := renderGaps(rr, ls, sp.Dialect, func(j int) *gapCase {
				switch {
				case rr.Intn(rate) > 0:
					// more lines
					if rr.Intn(4) == 0 && j > 0 {
						return &gapCase{Gap: []string{"n", "n"}[rr.Intn(2):]}
					}
					return empty
				case j == len(ls):
					for {
						if g := any[rr.Intn(len(any))]; g.After {
							return g
						}
					}
				case j == 0:
					return firsts[rr.Intn(len(firsts))]
				}
				return afters[rr.Intn(len(afters))]
			})
			desc(func() string { return caseOf(&rd.rendered) })
			o := parse(rd.Src, rd.Dialect, "comments")
			if o.ok() {
				r.note(i, len(cs), &rd.rendered, c.K)
				r.commentMap(o.File, caseOf(&rd.rendered), chosen[i])
			}
		})
	}

	commands["cmaplines"] = func(r *Run) {
		var ts []lineCase
		readCases(r.In, func(b []byte) {
			var c lineCase
			if json.Unmarshal(b, &c) == nil && len(c.Lines) > 0 {
				ts = append(ts, c)
			}
		})
		cs := r.readMixed()
		var items, stmts []sqlCase
		for _, c := range cs {
			if len(c.T) > 40 {
				continue
			}
			switch c.K {
			case "Element":
				items = append(items, c)
			default:
				stmts = append(stmts, c)
			}
		}
		if len(ts) == 0 || len(items) == 0 || len(stmts) == 0 {
			fatal("no lines, elements or statements")
		}
		r.each(len(ts), func(i int, desc func(func() string)) {
			for k := 0; k < r.arg("each", 3); k++ {
				r.lines(&ts[i], r.rng(i, 10+k), stmts, items, desc, k%3 == 2)
			}
		})
	}
}

// an item of a CREATE TABLE: the tokens between the parentheses of an Element case that has one element.
func elementTokens(c *sqlCase) []string {
	t := c.T[4 : len(c.T)-1]
	depth := 0
	for _, x := range t {
		switch x {
		case "(":
			depth++
		case ")":
			depth--
		case ",":
			if depth == 0 {
				return nil
			}
		}
		if depth < 0 {
			return nil
		}
	}
	return t
}

func oneLine(ls []lexeme) bool {
	for _, l := range ls {
		if strings.ContainsAny(l.Text, "\r\n") {
			return false
		}
	}
	return true
}

// lines lays items out line by line and looks where the comments are attached.
func (r *Run) lines(t *lineCase, rr *rand.Rand, stmts, elems []sqlCase, desc func(func() string), inTable bool) {
	sp := randomSpelling(rr, "plain")
	sp.Literals = "plain"
	var b strings.Builder
	if inTable {
		b.WriteString("CREATE TABLE t (")
		if l := t.Lines[0]; l == "c" || l == "_" || rr.Intn(2) == 0 {
			b.WriteString("\n\n")
		}
	}
	total := 0
	for _, l := range t.Lines {
		if l == "i" || l == "t" {
			total++
		}
	}
	n := 0
	at := map[int]int{} // source line of a group -> owner
	line := strings.Count(b.String(), "\n")
	for k, l := range t.Lines {
		line++
		switch l {
		case "i", "t":
			n++
			var toks []string
			for toks == nil {
				if inTable {
					toks = elementTokens(&elems[rr.Intn(len(elems))])
				} else {
					toks = stmts[rr.Intn(len(stmts))].T
				}
			}
			ls := sp.spell(rr, toks)
			if !oneLine(ls) {
				fatal("an item has several lines")
			}
			b.WriteString(render(rr, ls, "plain", sp.Dialect).Src)
			if inTable {
				if n < total {
					b.WriteString(",")
				}
			} else if n < total || rr.Intn(2) == 0 {
				b.WriteString(";")
			}
			if l == "t" {
				b.WriteString([]string{" -- trailing", " /* trailing */", "\t/* a */ -- b"}[rr.Intn(3)])
				at[line] = t.Owners[k]
			}
		case "c":
			b.WriteString([]string{"-- own", "/* own */", "  -- own", "/* a */ -- b"}[rr.Intn(4)])
			if t.Owners[k] >= 0 {
				at[line] = t.Owners[k]
			}
		}
		b.WriteString("\n")
	}
	if inTable {
		b.WriteString(")")
	}
	src := b.String()
	label := fmt.Sprintf("dialect=%s source=%q", sp.Dialect, src)
	desc(func() string { return label })
	r.eval(1)
	r.count("layouts by line", 1)
	o := parse(src, sp.Dialect, "comments")
	if !o.ok() {
		return
	}
	var m sqlast.CommentMap
	if p := guard(func() { m = sqlast.NewCommentMap(o.File) }); p != nil {
		r.violate(Violation{Case: label, What: fmt.Sprint(p)})
		return
	}
	var last sqlast.Node
	sqlast.Inspect(o.File, func(n sqlast.Node) bool {
		if n != nil {
			last = n
		}
		return n != nil
	})
	seen := 0
	for node, gs := range m {
		for _, g := range gs {
			seen++
			owner, ok := at[g.Pos().Line]
			if !ok {
				r.violate(Violation{Case: label, What: fmt.Sprintf("a group at %v is in the map but not in the source", g.Pos())})
				return
			}
			var want, also sqlast.Node
			switch {
			case owner == 0:
				want = last
			case inTable:
				ct, isCT := o.File.Stmts[0].(*sqlast.CreateTableStmt)
				if !isCT || owner > len(ct.Elements) {
					return
				}
				want = ct.Elements[owner-1]
				if owner == total { // the statement ends where its last element does
					also = ct
				}
			case owner > len(o.File.Stmts):
				return
			default:
				want = o.File.Stmts[owner-1]
			}
			// before the first statement, the file begins first
			if node != want && (also == nil || node != also || before(g.Pos(), want.Pos())) && !(node == sqlast.Node(o.File) && owner == 1 && !inTable && before(g.Pos(), want.Pos())) {
				r.violate(Violation{Case: label, What: fmt.Sprintf("the comments at %v belong to another node", g.Pos()),
					Expected: fmt.Sprintf("%T %s", want, want.ToSQLString()), Got: fmt.Sprintf("%T %s", node, node.ToSQLString())})
				return
			}
		}
	}
	if seen != len(at) {
		r.violate(Violation{Case: label, What: "another number of groups is attached", Expected: len(at), Got: seen})
	}
}

func before(a, b sqltoken.Pos) bool { return a.Line < b.Line || a.Line == b.Line && a.Col < b.Col }

type cmapTrace struct {
	Nodes  [][5]int `json:"nodes"`
	Groups [][4]int `json:"groups"`
	Map    [][]int  `json:"map"`
}

func extent(n interface {
	Pos() sqltoken.Pos
	End() sqltoken.Pos
}) [4]int {
	a, b := n.Pos(), n.End()
	return [4]int{a.Line, a.Col, b.Line, b.Col}
}

// important: the nodes that the comments behind them belong to
func important(n sqlast.Node) int {
	if _, ok := n.(sqlast.Stmt); ok {
		return 1
	}
	switch n.(type) {
	case *sqlast.ColumnDef, *sqlast.TableConstraint:
		return 1
	}
	return 0
}

func (r *Run) commentMap(f *sqlast.File, label string, save bool) {
	r.eval(1)
	var m sqlast.CommentMap
	if p := guard(func() { m = sqlast.NewCommentMap(f) }); p != nil {
		r.violate(Violation{Case: label, What: fmt.Sprint(p)})
		return
	}
	var nodes []sqlast.Node
	sqlast.Inspect(f, func(n sqlast.Node) bool {
		if n != nil {
			nodes = append(nodes, n)
		}
		return n != nil
	})
	number := map[*sqlast.CommentGroup]int{}
	tr := cmapTrace{Groups: [][4]int{}}
	for i, g := range f.Comments {
		number[g] = i + 1
		tr.Groups = append(tr.Groups, extent(g))
	}
	in := map[sqlast.Node]bool{}
	for _, n := range nodes {
		e := extent(n)
		tr.Nodes = append(tr.Nodes, [5]int{e[0], e[1], e[2], e[3], important(n)})
		gs := []int{}
		for _, g := range m[n] {
			gs = append(gs, number[g])
		}
		tr.Map = append(tr.Map, gs)
		in[n] = true
	}
	times := make([]int, len(f.Comments)+1)
	for n, gs := range m {
		if !in[n] {
			r.violate(Violation{Case: label, What: fmt.Sprintf("groups are attached to a %T that is not in the file", n)})
			return
		}
		for _, g := range gs {
			times[number[g]]++
		}
	}
	for i := range f.Comments {
		if times[i+1] != 1 {
			r.violate(Violation{Case: label, What: fmt.Sprintf("group %d is attached %d times", i+1, times[i+1])})
			return
		}
	}
	if times[0] > 0 {
		r.violate(Violation{Case: label, What: "a group that is not in the file is attached"})
		return
	}
	if save && len(f.Comments) > 0 {
		r.writeTrace(tr, label)
	}
}
