package main

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// lettersDialect is a user's dialect: words of letters and symbols beyond ASCII.
type lettersDialect struct{}

func (lettersDialect) IsIdentifierStart(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r >= 192 && r != 8232 && r != 65279 && r != 65533
}

func (d lettersDialect) IsIdentifierPart(r rune) bool {
	return d.IsIdentifierStart(r) || r >= '0' && r <= '9' || r == '$'
}

func (lettersDialect) IsDelimitedIdentifierStart(r rune) bool { return r == '"' || r == '`' }

// wideDialect adds identifiers in brackets.
type wideDialect struct{ lettersDialect }

func (wideDialect) IsDelimitedIdentifierStart(r rune) bool { return r == '"' || r == '`' || r == '[' }

func dialectOf(name string) dialect.Dialect {
	switch name {
	case "letters":
		return lettersDialect{}
	case "wide":
		return wideDialect{}
	case "mysql":
		return &dialect.MySQLDialect{}
	case "postgres":
		return &dialect.PostgresqlDialect{}
	}
	return &dialect.GenericSQLDialect{}
}

// specTok is a token as the specification writes it.
type specTok struct {
	Kind  string
	Value string
	From  sqltoken.Pos
	To    sqltoken.Pos
}

func (t *specTok) UnmarshalJSON(b []byte) error {
	var a [6]json.RawMessage
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	var rs []rune
	if err := json.Unmarshal(a[0], &t.Kind); err != nil {
		return err
	}
	if err := json.Unmarshal(a[1], &rs); err != nil {
		return err
	}
	t.Value = string(rs)
	for i, p := range []*int{&t.From.Line, &t.From.Col, &t.To.Line, &t.To.Col} {
		if err := json.Unmarshal(a[2+i], p); err != nil {
			return err
		}
	}
	return nil
}

type lexCase struct {
	D string    `json:"d"`
	S []rune    `json:"s"`
	E bool      `json:"e"`
	T []specTok `json:"t"`
}

// view is a real token in the terms of the specification; a comment is "Comment".
type view struct {
	Kind, Value string
	From, To    sqltoken.Pos
}

func viewOf(t *sqltoken.Token) view {
	v := view{From: t.From, To: t.To}
	switch x := t.Value.(type) {
	case *sqltoken.SQLWord:
		if x == nil {
			v.Kind = "nil word"
			return v
		}
		if x.QuoteStyle != 0 {
			v.Kind, v.Value = "Quoted", string(x.QuoteStyle)+x.Value
		} else {
			v.Kind, v.Value = "Word", x.Value
			if x.Keyword != strings.ToUpper(x.Value) {
				v.Kind = "Word with keyword " + x.Keyword
			}
		}
		if s := x.String(); x.QuoteStyle == 0 && s != x.Value || x.QuoteStyle != 0 && s != v.Value+closing(v.Value) {
			v.Kind += " printed as " + s
		}
		if t.Kind != sqltoken.SQLKeyword {
			v.Kind = t.Kind.String() + " holding a " + v.Kind
		}
		return v
	case string:
		v.Kind, v.Value = t.Kind.String(), x
		if t.Kind == sqltoken.SQLKeyword {
			v.Kind = "SQLKeyword holding a string"
		}
		return v
	}
	v.Kind = fmt.Sprintf("%v holding %T", t.Kind, t.Value)
	return v
}

// closing is the delimiter that ends a quoted identifier.
func closing(quoted string) string {
	if quoted[0] == '[' {
		return "]"
	}
	return quoted[:1]
}

func viewsOf(ts []*sqltoken.Token) []view {
	vs := make([]view, len(ts))
	for i, t := range ts {
		vs[i] = viewOf(t)
	}
	return vs
}

func specKind(k string) string {
	if k == "LineComment" || k == "BlockComment" {
		return "Comment"
	}
	return k
}

func isTrivia(kind string) bool { return kind == "Whitespace" || kind == "Comment" }

// tokenizeAll is the result of the ways to tokenize a text.
type lexRun struct {
	name string
	toks []view
	err  error
}

func lexVariants(src string, d dialect.Dialect) (rs []lexRun, p interface{}) {
	p = guard(func() {
		ts, err := sqltoken.NewTokenizer(strings.NewReader(src), d).Tokenize()
		rs = append(rs, lexRun{"Tokenize", viewsOf(ts), err})

		var seq []view
		tk := sqltoken.NewTokenizer(strings.NewReader(src), d)
		for {
			var t *sqltoken.Token
			t, err = tk.NextToken()
			if err != nil {
				break
			}
			if t != nil {
				seq = append(seq, viewOf(t))
			}
		}
		if err == io.EOF {
			err = nil
		}
		rs = append(rs, lexRun{"NextToken", seq, err})

		seq = nil
		tk = sqltoken.NewTokenizerWithOptions(strings.NewReader(src), sqltoken.Dialect(d))
		var reused sqltoken.Token
		for {
			var t *sqltoken.Token
			t, err = tk.Scan(&reused)
			if err != nil {
				break
			}
			if t != nil {
				seq = append(seq, viewOf(t))
			}
		}
		if err == io.EOF {
			err = nil
		}
		rs = append(rs, lexRun{"Scan", seq, err})

		ts, err = sqltoken.NewTokenizerWithOptions(strings.NewReader(src), sqltoken.Dialect(d), sqltoken.DisableParseComment()).Tokenize()
		rs = append(rs, lexRun{"DisableParseComment", viewsOf(ts), err})

		seq = nil
		tk = sqltoken.NewTokenizerWithOptions(strings.NewReader(src), sqltoken.DisableParseComment(), sqltoken.Dialect(d))
		for {
			var t *sqltoken.Token
			t, err = tk.NextToken()
			if err != nil {
				break
			}
			if t != nil {
				seq = append(seq, viewOf(t))
			}
		}
		if err == io.EOF {
			err = nil
		}
		rs = append(rs, lexRun{"DisableParseComment+NextToken", seq, err})
	})
	return
}

func sameViews(a, b []view) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// rebuild writes the tokens back in order. The marker of a comment is not part of a token: both are tried.
func rebuild(src string, vs []view) (string, bool) {
	var b strings.Builder
	rest := src
	for _, v := range vs {
		var alts []string
		switch v.Kind {
		case "SingleQuotedString":
			alts = []string{"'" + strings.Replace(v.Value, "'", "''", -1) + "'"}
		case "NationalStringLiteral":
			alts = []string{"N'" + strings.Replace(v.Value, "'", "''", -1) + "'"}
		case "Quoted":
			alts = []string{v.Value + closing(v.Value)}
		case "Comment":
			alts = []string{"/*" + v.Value + "*/", "--" + v.Value}
		case "Whitespace":
			alts = []string{v.Value}
			if v.Value == "\n" {
				alts = []string{"\r\n", "\n", "\r"}
			}
		default:
			alts = []string{v.Value}
		}
		ok := false
		for _, a := range alts {
			if strings.HasPrefix(rest, a) && !(strings.HasPrefix(a, "--") && strings.ContainsAny(a, "\r\n")) {
				rest = rest[len(a):]
				b.WriteString(a)
				ok = true
				break
			}
		}
		if !ok {
			b.WriteString(alts[0])
			return b.String(), false
		}
	}
	return b.String(), rest == ""
}

func hasSpecTrivia(vs []specTok) bool {
	for _, v := range vs {
		if isTrivia(specKind(v.Kind)) {
			return true
		}
	}
	return false
}

// lexCheck compares the ways to tokenize a text with what the specification says, in the aspect of one property.
func lexCheck(r *Run, prop, d, src string, fails bool, want []specTok) {
	add := func(what string, exp, got interface{}) {
		r.violate(Violation{Case: fmt.Sprintf("dialect=%s source=%q", d, src), What: what, Expected: exp, Got: got})
	}
	rs, p := lexVariants(src, dialectOf(d))
	if p != nil {
		add(fmt.Sprint(p), nil, nil)
		return
	}
	all := rs[0]
	switch prop {
	case "C01":
		if all.err != nil {
			// nothing is claimed about its tokens, but the ways to tokenize agree
			for _, x := range rs[1:] {
				if x.err == nil {
					add(x.name+" succeeds where Tokenize fails", all.err.Error(), x.toks)
				}
			}
			return
		}
		at := sqltoken.Pos{Line: 1, Col: 1}
		for i, v := range all.toks {
			if v.From != at {
				add(fmt.Sprintf("token %d %v does not start where the previous one ended", i, v), at, v.From)
				return
			}
			at = v.To
		}
		if text, ok := rebuild(src, all.toks); !ok {
			add("the tokens do not tile the source", src, text)
			return
		}
		if !fails && len(all.toks) < len(want) {
			// the same text in fewer tokens
			add("tokens are missing", want, all.toks)
			return
		}
		for _, x := range rs[1:] {
			exp := all.toks
			if strings.HasPrefix(x.name, "Disable") {
				exp = nil
				for _, v := range all.toks {
					if !isTrivia(v.Kind) {
						exp = append(exp, v)
					}
				}
			}
			if x.err != nil {
				add(x.name+" fails where Tokenize succeeds", nil, x.err.Error())
			} else if !sameViews(x.toks, exp) {
				add(x.name+" yields other tokens than Tokenize", exp, x.toks)
			}
		}
	case "C02":
		for _, x := range rs {
			if (x.err != nil) != fails {
				if fails {
					add(x.name+" accepts a malformed text", "an error", x.toks)
				} else {
					add(x.name+" rejects the text", want, x.err.Error())
				}
				return
			}
			if fails {
				continue
			}
			var exp []view
			for _, w := range want {
				v := view{Kind: specKind(w.Kind), Value: w.Value}
				if strings.HasPrefix(x.name, "Disable") && isTrivia(v.Kind) {
					continue
				}
				exp = append(exp, v)
			}
			var got []view
			for _, v := range x.toks {
				got = append(got, view{Kind: v.Kind, Value: v.Value})
			}
			if !sameViews(exp, got) {
				add(x.name+" classifies differently", exp, got)
				return
			}
		}
	case "C03":
		if fails {
			return
		}
		for _, x := range rs {
			if x.err != nil {
				add(x.name+" rejects the text", want, x.err.Error())
				return
			}
			var exp, got []view
			for _, w := range want {
				k := specKind(w.Kind)
				if strings.HasPrefix(x.name, "Disable") && isTrivia(k) {
					continue
				}
				exp = append(exp, view{From: w.From, To: w.To, Kind: k})
			}
			for _, v := range x.toks {
				got = append(got, view{From: v.From, To: v.To, Kind: v.Kind})
			}
			if len(exp) != len(got) {
				add(x.name+": number of tokens", exp, got)
				return
			}
			for i := range exp {
				if exp[i].From != got[i].From || exp[i].To != got[i].To {
					add(fmt.Sprintf("%s: position of token %d", x.name, i), exp[i], got[i])
					return
				}
			}
		}
	}
}

func init() {
	commands["lex"] = func(r *Run) {
		var cases []lexCase
		readCases(r.In, func(b []byte) {
			var c lexCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal("case %s: %v", b, err)
			}
			cases = append(cases, c)
		})
		r.each(len(cases), func(i int, desc func(func() string)) {
			c := &cases[i]
			src := string(c.S)
			desc(func() string { return fmt.Sprintf("dialect=%s source=%q", c.D, src) })
			r.eval(1)
			if len(c.T) > 1 || c.E {
				r.nontrivial(c.D + src)
			}
			if c.E {
				r.count("rejected", 1)
			}
			r.count("tokens", len(c.T))
			if i%(len(cases)/5+1) == 0 {
				r.sample(fmt.Sprintf("dialect=%s source=%q fails=%v tokens=%d", c.D, src, c.E, len(c.T)))
			}
			lexCheck(r, r.Prop, c.D, src, c.E, c.T)
		})
	}
}
