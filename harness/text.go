package main

import (
	"math/rand"
	"strings"

	"github.com/akito0107/xsqlparser/sqltoken"
)

// lexeme is a token of a specification's text with the spelling chosen for it.
type lexeme struct {
	Class string // the token in the specification's alphabet
	Text  string // its spelling in the source
}

// rendered is a source text and where its tokens are.
type rendered struct {
	Src      string
	Lex      []lexeme
	From, To []sqltoken.Pos
	Off      []int // byte offset of each token
	Dialect  string
}

// how identifiers, keywords and literals are spelled
type spelling struct {
	Idents   string // plain, words, quoted, any
	Keywords string // upper, lower, mixed
	Literals string // plain, wild, zero
	Dialect  string
}

var punctuation = map[string]bool{",": true, "(": true, ")": true, "=": true, "<>": true, "<": true, ">": true, "<=": true,
	">=": true, "+": true, "-": true, "*": true, "/": true, "%": true, ".": true, "::": true, "[": true, "]": true, ";": true}

// words of the keyword table that have no meaning in the supported grammar, and ordinary words
var wordPool = strings.Fields(`count Sum name VALUE year User min MAX avg coalesce Lower decimal blob method location language
 position result value_of OPEN close start Of to no only old new unknown t1 a_b Camel_Case x9 z column1 tables select_ from1
 group_by orderid Nn n1 nation keys uuid_ ints texts rowss ands iss nots charsets engines truest falsey nulls casts`)

var plainPool = strings.Fields("a b c d e f g h t u v w x y z foo bar baz tbl col id qty")

// contents of quoted identifiers
var quotedPool = []string{"select", "SELECT", "from", "where", "a b", "A", "order", "group by", "null", "true", "not", "case", "it's", "--x", "/*y*/",
	";", "é", "日本 語", "x.y", "1", "as", "join", "end", "primary", "default", "constraint", "on", "limit", "union", "values", "set", "and", "(", ")", ",",
	"exists", "cast", "between", "in", "is", "over", "int", "text", "unsigned", "with", "all", "distinct", "by", "key", "if", "create"}

// keywords with a meaning in the grammar, for quoting
var quotedKeywords = strings.Fields(`WITH SELECT WHERE GROUP HAVING ORDER LIMIT UNION EXCEPT INTERSECT FROM ON JOIN INNER CROSS FULL LEFT RIGHT
 NATURAL USING DISTINCT ALL BY AS ASC DESC OFFSET OUTER LATERAL CASE WHEN THEN ELSE END CAST EXISTS NOT AND OR IN BETWEEN LIKE IS NULL TRUE FALSE
 OVER PARTITION ROWS RANGE GROUPS UNBOUNDED PRECEDING FOLLOWING CURRENT ROW INSERT INTO VALUES DUPLICATE KEY UPDATE SET DELETE CREATE TABLE IF VIEW
 MATERIALIZED INDEX UNIQUE PRIMARY FOREIGN REFERENCES CHECK CONSTRAINT DEFAULT AUTO_INCREMENT ENGINE CHARSET ALTER ADD COLUMN DROP CASCADE TYPE
 EXPLAIN BOOLEAN FLOAT REAL DOUBLE PRECISION SMALLINT INTEGER INT BIGINT VARCHAR CHAR CHARACTER VARYING UUID DATE TIMESTAMP TIME ZONE WITHOUT
 REGCLASS TEXT BYTEA NUMERIC UNSIGNED N`)

var intPool = strings.Fields("0 1 7 42 100 65536 2147483648 9223372036854775807 1234567890123 5 007 010 0000000000000000000000042 00")
var dblPool = strings.Fields("1.5 0.25 10.0 3.14159 0.1 123456.789 2.50 0.0 100.125 0.30000000000000004 00.5 4503599627370497.5 0.0000001")

// contents of string literals, quotes not yet doubled
var strPool = []string{"", "a", "it's", "'", "''", "select", "a;b", "-- no comment", "/* none */", "x\ny", "é日本", "\"q\"", "line\r\nend", "`", "end'", "'start",
	"N", "1.5", "NULL", "a b  c", "%_", "\\", "true"}

// words of a dialect with letters beyond ASCII; the k of the third is no K, but folds to it
var foreignPool = []string{"größe", "ÉCOLE", "\u212aey", "表", "_x", "li\u212ae", "a$1", "ünïon", "日本語", "ß", "é"}

func pick(r *rand.Rand, ss []string) string { return ss[r.Intn(len(ss))] }

// lengths around which buffers end
var lengths = []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096}

// lengthen makes a text long, now and then, by repeating a part that may stand in it any number of times.
func lengthen(r *rand.Rand, s, part string) string {
	if r.Intn(60) != 0 {
		return s
	}
	n := lengths[r.Intn(len(lengths))]
	if r.Intn(4) != 0 && n > 300 {
		n = 65
	}
	for len(s)+len(part) <= n {
		s += part
	}
	return s
}

func mixCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i, c := range b {
		if r.Intn(2) == 0 {
			if 'A' <= c && c <= 'Z' {
				b[i] = c + 32
			} else if 'a' <= c && c <= 'z' {
				b[i] = c - 32
			}
		}
	}
	return string(b)
}

func quoteIdent(r *rand.Rand, dialect, content string) string {
	q := `"`
	if dialect != "generic" && r.Intn(2) == 0 && !strings.Contains(content, "`") {
		q = "`"
	}
	if dialect == "wide" && r.Intn(2) == 0 && !strings.Contains(content, "]") {
		return "[" + content + "]"
	}
	return q + content + q
}

func (sp spelling) ident(r *rand.Rand) string {
	mode := sp.Idents
	if mode == "any" {
		mode = []string{"plain", "words", "words", "quoted"}[r.Intn(4)]
	}
	switch mode {
	case "words":
		if (sp.Dialect == "letters" || sp.Dialect == "wide") && r.Intn(3) == 0 {
			return pick(r, foreignPool)
		}
		if r.Intn(3) == 0 {
			return mixCase(r, pick(r, wordPool))
		}
		return lengthen(r, pick(r, wordPool), "_x")
	case "quoted":
		switch r.Intn(3) {
		case 0:
			return quoteIdent(r, sp.Dialect, lengthen(r, pick(r, quotedPool), " select"))
		case 1:
			return quoteIdent(r, sp.Dialect, pick(r, quotedKeywords))
		}
		return quoteIdent(r, sp.Dialect, mixCase(r, pick(r, quotedKeywords)))
	}
	return pick(r, plainPool)
}

func quoteString(s string) string { return "'" + strings.Replace(s, "'", "''", -1) + "'" }

// widened lets brackets delimit identifiers where the text has no others.
func (sp spelling) widened(r *rand.Rand, toks []string) spelling {
	for _, t := range toks {
		if t == "[" || t == "]" {
			return sp
		}
	}
	if len(toks) > 0 && sp.Dialect == "letters" && r.Intn(2) == 0 {
		sp.Dialect = "wide"
	}
	return sp
}

// spell chooses the spelling of each token.
func (sp spelling) spell(r *rand.Rand, toks []string) []lexeme {
	ls := make([]lexeme, len(toks))
	for i, t := range toks {
		l := lexeme{Class: t, Text: t}
		switch {
		case t == "id":
			l.Text = sp.ident(r)
		case t == "int":
			l.Text = intPool[1+i%3]
			if sp.Literals == "wild" {
				l.Text = pick(r, intPool)
			} else if sp.Literals == "zero" {
				l.Text = "0"
			}
		case t == "dbl":
			l.Text = dblPool[i%3]
			if sp.Literals == "wild" {
				l.Text = pick(r, dblPool)
			}
		case t == "str", t == "nstr":
			c := "s"
			if sp.Literals == "wild" {
				c = lengthen(r, pick(r, strPool), pick(r, []string{"x", "'", "\n", "-- ", "é"}))
			}
			l.Text = quoteString(c)
			if t == "nstr" {
				l.Text = "N" + l.Text
			}
		case t == "<>":
			if r.Intn(2) == 0 {
				l.Text = "!="
			}
		case punctuation[t]:
		default:
			switch sp.Keywords {
			case "lower":
				l.Text = strings.ToLower(t)
			case "mixed":
				l.Text = mixCase(r, t)
			}
		}
		ls[i] = l
	}
	return ls
}

func wordy(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || c == '_' || c == '@' || c == '$' || c >= 0x80
}

func opChar(c byte) bool { return strings.IndexByte("<>=!-/*:.+%", c) >= 0 }

// needSep tells whether two lexemes may not stand next to each other.
func needSep(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	first := a[0]
	switch {
	case first >= '0' && first <= '9' && wordy(x):
		// a number ends before a letter
		return y >= '0' && y <= '9' || y == '.' || y >= 0x80
	case wordy(x) && y == '\'':
		return strings.EqualFold(a, "n")
	case wordy(x):
		return wordy(y)
	case x == '\'' || x == '"' || x == '`':
		return y == x
	case x == '.':
		return y >= '0' && y <= '9' || y == '.'
	case opChar(x):
		return opChar(y)
	}
	return false
}

var spaces = []string{" ", " ", "  ", "\t", "\n", "\r\n", "\r", " \n ", "\n\n", " \t "}
var comments = []string{"/**/", "/* c */", "-- c\n", "--\n", "/* a\nb */", "/***/", "/*--*/", "--/*\n", "-- it's \"q\" ;\n", "/*';\"*/", "--x\r\n", "--y\r",
	"/* select */", "-- from\n", "/* é日 */", "/*\r\n*/"}

// gap is what stands between two lexemes in a layout.
func gap(r *rand.Rand, layout string, prev, next string) string {
	must := prev != "" && next != "" && needSep(prev, next)
	s := ""
	switch layout {
	case "plain":
		if prev != "" && next != "" {
			s = " "
		}
	case "tight":
	case "spaces":
		for n := r.Intn(3); n > 0; n-- {
			s += pick(r, spaces)
		}
	default:
		for n := r.Intn(4); n > 0; n-- {
			p := pick(r, comments)
			if r.Intn(2) == 0 {
				p = lengthen(r, pick(r, spaces), pick(r, spaces))
			} else if p[:2] == "/*" {
				p = lengthen(r, p[:len(p)-2], pick(r, []string{" c", "\n", "* ", "'", "é"})) + "*/"
			} else {
				text := strings.TrimRight(p, "\r\n")
				p = lengthen(r, text, pick(r, []string{" c", "-", "'", "/*", "é"})) + p[len(text):]
			}
			last := byte(0)
			if s != "" {
				last = s[len(s)-1]
			} else if prev != "" {
				last = prev[len(prev)-1]
			}
			if last == '-' && p[0] == '-' || last == '/' && (p[0] == '/') || last == '*' && p[0] == '/' {
				s += " "
			}
			s += p
		}
	}
	if s == "" && must {
		s = " "
	}
	if s != "" && next != "" {
		if x, y := s[len(s)-1], next[0]; x == '/' && (y == '/' || y == '*') {
			s += " "
		}
	}
	return s
}

// advance moves a position over a text; tabs count four columns where they separate tokens.
func advance(p sqltoken.Pos, s string, between bool) sqltoken.Pos {
	rs := []rune(s)
	for i, c := range rs {
		switch {
		case c == '\r':
			p.Line++
			p.Col = 1
		case c == '\n':
			if i == 0 || rs[i-1] != '\r' {
				p.Line++
			}
			p.Col = 1
		case c == '\t' && between:
			p.Col += 4
		default:
			p.Col++
		}
	}
	return p
}

// render lays the lexemes out as a source text.
func render(r *rand.Rand, ls []lexeme, layout, dialect string) *rendered {
	out := &rendered{Lex: ls, Dialect: dialect}
	var b strings.Builder
	pos := sqltoken.Pos{Line: 1, Col: 1}
	prev, prevKind := "", ""
	for _, l := range ls {
		g := gap(r, layout, prev, l.Text)
		if layout == "tame" {
			// where the parser keeps no position and the ends of nodes are estimated
			switch {
			case l.Class == "IS", prevKind == "IS", prevKind == "NOT" && l.Class == "NULL":
				g = " "
			case l.Class == "*" && prevKind == ".", l.Class == "." && b.Len() > 0:
				g = ""
				if needSep(prev, l.Text) {
					g = " "
				}
			}
		}
		prevKind = l.Class
		b.WriteString(g)
		pos = advance(pos, g, true)
		out.From = append(out.From, pos)
		out.Off = append(out.Off, b.Len())
		b.WriteString(l.Text)
		pos = advance(pos, l.Text, false)
		out.To = append(out.To, pos)
		prev = l.Text
	}
	b.WriteString(gap(r, layout, prev, ""))
	out.Src = b.String()
	return out
}

func texts(ls []lexeme) []string {
	ss := make([]string, len(ls))
	for i, l := range ls {
		ss[i] = l.Text
	}
	return ss
}
