package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// callsCase is a behaviour of Calls.tla: a text and calls of one parser.
type callsCase struct {
	T     []string `json:"t"`
	N     int      `json:"n"`
	Calls []struct {
		Entry string    `json:"entry"`
		From  int       `json:"from"`
		To    int       `json:"to"`
		OK    bool      `json:"ok"`
		KW    bool      `json:"kw"`
		V     *specNode `json:"v"`
	} `json:"calls"`
}

func parserOf(rd *rendered, how string) (p *xsqlparser.Parser, err error) {
	d := dialectOf(rd.Dialect)
	switch how {
	case "tokens", "stripped":
		tk := sqltoken.NewTokenizerWithOptions(strings.NewReader(rd.Src), sqltoken.Dialect(d))
		if how == "stripped" {
			tk = sqltoken.NewTokenizerWithOptions(strings.NewReader(rd.Src), sqltoken.Dialect(d), sqltoken.DisableParseComment())
		}
		ts, err := tk.Tokenize()
		if err != nil {
			return nil, err
		}
		p = xsqlparser.NewParserWithOptions()
		p.SetTokens(ts)
		return p, nil
	case "comments":
		return xsqlparser.NewParser(strings.NewReader(rd.Src), d, xsqlparser.ParseComment())
	}
	return xsqlparser.NewParser(strings.NewReader(rd.Src), d)
}

func init() {
	// C26
	commands["calls"] = func(r *Run) {
		var cs []callsCase
		readCases(r.In, func(b []byte) {
			var c callsCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal("case %s: %v", b, err)
			}
			cs = append(cs, c)
		})
		if len(cs) == 0 {
			fatal("no cases")
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].N < cs[j].N })
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			for k, how := range []string{"file", "comments", "tokens", "stripped"} {
				rr := r.rng(i, 26+k)
				sp := randomSpelling(rr, "any")
				rd := render(rr, sp.spell(rr, c.T), layouts[rr.Intn(4)], sp.Dialect)
				var done []string
				where := func() string { return fmt.Sprintf("%s how=%s calls=%v", caseOf(rd), how, done) }
				desc(where)
				if k == 0 {
					r.note(i, len(cs), rd, fmt.Sprint(len(c.Calls)))
				}
				bad := func(what string, exp, got interface{}) {
					r.violate(Violation{Case: where(), What: what, Expected: exp, Got: got})
				}
				p, err := parserOf(rd, how)
				if err != nil {
					bad("rejected: "+err.Error(), nil, nil)
					return
				}
				for _, call := range c.Calls {
					var got reflect.Value
					var err error
					entry := call.Entry
					if entry == "sql" && rr.Intn(2) == 0 {
						entry = "file"
					}
					done = append(done, entry)
					pn := guard(func() {
						switch entry {
						case "stmt":
							v, e := p.ParseStatement()
							got, err = valueOf(v), e
						case "expr":
							v, e := p.ParseExpr()
							got, err = valueOf(v), e
						case "type":
							v, e := p.ParseDataType()
							got, err = valueOf(v), e
						case "sql":
							v, e := p.ParseSQL()
							got, err = valueOf(v), e
						case "file":
							v, e := p.ParseFile()
							err = e
							if e == nil {
								got = valueOf(v.Stmts)
							}
						}
					})
					r.eval(1)
					r.count(fmt.Sprintf("%s ok=%v", entry, call.OK), 1)
					if pn != nil {
						bad(fmt.Sprint(pn), nil, nil)
						return
					}
					if !call.OK {
						if err == nil {
							bad("what does not begin with one is accepted", "an error", clip(dump(got.Interface())))
							return
						}
						break
					}
					if err != nil {
						if !call.KW {
							bad("rejected: "+clip(err.Error()), fmt.Sprint(call.V), nil)
							return
						}
						break
					}
					if e := (&matcher{rd: rd, extents: true}).match(call.V, got, entry); e != nil {
						bad(e.Error(), e.Expected, e.Got)
						return
					}
				}
			}
		})
	}
}
