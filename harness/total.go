package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

func isNil(x interface{}) bool {
	v := reflect.ValueOf(x)
	return !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil()
}

// use does with a parsed result what users do: print, walk, ask for positions, map comments.
func use(n sqlast.Node, f *sqlast.File) {
	n.ToSQLString()
	if w, ok := n.(io.WriterTo); ok {
		w.WriteTo(io.Discard)
	}
	count := 0
	sqlast.Inspect(n, func(x sqlast.Node) bool {
		if x != nil {
			count++
		}
		return x != nil
	})
	// a position may take as long as the node is deep
	every := 1 + count/2000
	k := 0
	sqlast.Inspect(n, func(x sqlast.Node) bool {
		if x == nil {
			return false
		}
		if k++; k%every == 0 {
			x.Pos()
			x.End()
			if count < 200 {
				x.ToSQLString()
			}
		}
		return true
	})
	if f != nil {
		m := sqlast.NewCommentMap(f)
		if len(m) > 0 && count < 200 {
			_ = fmt.Sprint(m)
		}
	}
	sqlastutil.Apply(n, func(c *sqlastutil.Cursor) bool { return c.Node() != nil }, nil)
}

// total drives a text through every entry point. It returns how many of them accept it.
func (r *Run) total(src, d string, light bool) (accepted int) {
	dl := dialectOf(d)
	where := ""
	attempt := func(name string, f func() string) {
		where = name
		r.eval(1)
		what := ""
		if p := guard(func() { what = f() }); p != nil {
			what = where + ": " + fmt.Sprint(p)
		}
		if what != "" {
			r.violate(Violation{Case: fmt.Sprintf("%s dialect=%s source=%s", name, d, clipq(src)), What: what})
		}
	}
	var toks, stripped []*sqltoken.Token
	for _, keep := range []bool{true, false} {
		opts := []sqltoken.TokenizerOption{sqltoken.Dialect(dl)}
		if !keep {
			opts = append(opts, sqltoken.DisableParseComment())
		}
		attempt("Tokenize", func() string {
			ts, err := sqltoken.NewTokenizerWithOptions(strings.NewReader(src), opts...).Tokenize()
			if err != nil {
				_ = err.Error()
				return ""
			}
			if keep {
				toks = ts
			} else {
				stripped = ts
			}
			return ""
		})
		attempt("NextToken", func() string {
			tk := sqltoken.NewTokenizerWithOptions(strings.NewReader(src), opts...)
			for n := 0; ; n++ {
				t, err := tk.NextToken()
				if err != nil {
					_ = err.Error()
					for k := 0; k < 3; k++ {
						tk.NextToken()
					}
					return ""
				}
				if t != nil && len(src) < 2000 {
					_ = fmt.Sprint(t.Kind, t.Value)
				}
				tk.Pos()
				if n > len(src)+2 {
					return fmt.Sprintf("more than %d tokens", n)
				}
			}
		})
	}
	type maker struct {
		name string
		make func() (*xsqlparser.Parser, error)
	}
	given := func(ts []*sqltoken.Token, opts ...xsqlparser.ParserOption) func() (*xsqlparser.Parser, error) {
		return func() (*xsqlparser.Parser, error) {
			p := xsqlparser.NewParserWithOptions(opts...)
			p.SetTokens(ts)
			return p, nil
		}
	}
	makers := []maker{
		{"NewParser", func() (*xsqlparser.Parser, error) { return xsqlparser.NewParser(strings.NewReader(src), dl) }},
		{"NewParser with comments", func() (*xsqlparser.Parser, error) {
			return xsqlparser.NewParser(strings.NewReader(src), dl, xsqlparser.ParseComment())
		}},
	}
	if !light {
		makers = append(makers, maker{"SetTokens", given(toks)}, maker{"SetTokens with comments", given(toks, xsqlparser.ParseComment())},
			maker{"SetTokens stripped", given(stripped)}, maker{"SetTokens stripped with comments", given(stripped, xsqlparser.ParseComment())})
	}
	for _, m := range makers {
		m := m
		with := func(name string, f func(p *xsqlparser.Parser) (sqlast.Node, *sqlast.File, error)) {
			attempt(m.name+" "+name, func() string {
				p, err := m.make()
				if err != nil {
					_ = err.Error()
					if p != nil {
						return "a parser is returned together with an error"
					}
					return ""
				}
				n, file, err := f(p)
				if err != nil {
					_ = err.Error()
					return ""
				}
				if isNil(n) {
					return "neither a result nor an error is returned"
				}
				accepted++
				where = m.name + " " + name + ", using the result"
				use(n, file)
				return ""
			})
		}
		with("ParseFile", func(p *xsqlparser.Parser) (sqlast.Node, *sqlast.File, error) {
			f, err := p.ParseFile()
			return f, f, err
		})
		with("ParseSQL", func(p *xsqlparser.Parser) (sqlast.Node, *sqlast.File, error) {
			ss, err := p.ParseSQL()
			for i, s := range ss {
				if err == nil && isNil(s) {
					panic(fmt.Sprintf("statement %d is nil", i))
				}
			}
			f := &sqlast.File{Stmts: ss}
			return f, f, err
		})
		with("ParseStatement", func(p *xsqlparser.Parser) (sqlast.Node, *sqlast.File, error) {
			s, err := p.ParseStatement()
			if err == nil && !light {
				// statements follow one another, with nothing between them; the parser may also be asked after an error
				for k := 0; k < 4; k++ {
					p.ParseStatement()
				}
			}
			return s, nil, err
		})
		if light {
			continue
		}
		with("ParseExpr", func(p *xsqlparser.Parser) (sqlast.Node, *sqlast.File, error) {
			x, err := p.ParseExpr()
			return x, nil, err
		})
		with("ParseDataType", func(p *xsqlparser.Parser) (sqlast.Node, *sqlast.File, error) {
			x, err := p.ParseDataType()
			return x, nil, err
		})
	}
	return
}

func clipq(s string) string {
	if len(s) > 1200 {
		return fmt.Sprintf("%q ... %q (%d bytes)", s[:500], s[len(s)-300:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// rough cuts a text in the middle of tokens, or inserts characters anywhere
func rough(rr *rand.Rand, src string) string {
	ins := []string{"'", "\"", "`", "/*", "*/", "--", "\n", "\r", "N'", ".", "(", ")", ";", ",", "0", "\x00", "é", "\xff", "::", "@", "#", "\\", "e", "*", "[", "]", "$", "?", "!", "|"}
	for n := 1 + rr.Intn(3); n > 0; n-- {
		at := rr.Intn(len(src) + 1)
		switch rr.Intn(4) {
		case 0:
			src = src[:at]
		case 1:
			src = src[at:]
		case 2:
			src = src[:at] + pick(rr, ins) + src[at:]
		default:
			to := at + rr.Intn(4)
			if to > len(src) {
				to = len(src)
			}
			src = src[:at] + src[to:]
		}
	}
	return src
}

// pumpCase is a behaviour of SqlPump.tla
type pumpCase struct {
	Pump struct {
		Pre, Alpha, Core, Beta, Post []string
	} `json:"pump"`
	OK []bool `json:"ok"`
}

func (p *pumpCase) key() string { return fmt.Sprint(p.Pump.Alpha, p.Pump.Core, p.Pump.Beta) }

func readLex(r *Run) (lex []lexCase) {
	readCases(r.In, func(b []byte) {
		var c lexCase
		if strings.Contains(string(b), `"d":`) && json.Unmarshal(b, &c) == nil {
			lex = append(lex, c)
		}
	})
	sort.SliceStable(lex, func(i, j int) bool {
		return lex[i].D+string(lex[i].S) < lex[j].D+string(lex[j].S)
	})
	return
}

func init() {
	// C04
	commands["total"] = func(r *Run) {
		lex := readLex(r)
		cs := r.readAny()
		every := r.arg("every", 1)
		r.each(len(lex), func(i int, desc func(func() string)) {
			if i%every != int(r.Seed)%every {
				return
			}
			src := string(lex[i].S)
			desc(func() string { return fmt.Sprintf("dialect=%s source=%q", lex[i].D, src) })
			r.nontrivial(lex[i].D + src)
			r.count("texts of characters", 1)
			r.total(src, lex[i].D, false)
		})
		mutations := r.arg("rough", 2)
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			rr := r.rng(i, 40)
			run := func(kind, src, d string) {
				desc(func() string { return fmt.Sprintf("dialect=%s source=%q", d, src) })
				r.nontrivial(d + src)
				r.count(kind, 1)
				if r.total(src, d, false) > 0 {
					r.count(kind+", accepted by some entry point", 1)
				}
			}
			var all [][]string
			if len(c.T) > 0 {
				all = append(all, c.T)
			}
			for _, e := range c.M {
				all = append(all, e.T)
			}
			for _, e := range c.dead() {
				all = append(all, e.T)
			}
			for j, toks := range all {
				if len(toks) == 0 || len(all) > 50 && rr.Intn(every) > 0 {
					continue
				}
				sp := randomSpelling(rr, "any")
				src := render(rr, sp.spell(rr, toks), layouts[rr.Intn(4)], sp.Dialect).Src
				if i%(len(cs)/4+1) == 0 && j == 0 {
					r.sample(src)
				}
				run("texts of tokens", src, sp.Dialect)
				if j < 2 {
					for n := 0; n < mutations; n++ {
						run("rough edits", rough(rr, src), sp.Dialect)
					}
				}
			}
		})
	}

	// C04: repetition, and nesting
	commands["pumps"] = func(r *Run) {
		byKey := map[string]*pumpCase{}
		readCases(r.In, func(b []byte) {
			if strings.Contains(string(b), `"pump":`) {
				c := &pumpCase{}
				if err := json.Unmarshal(b, c); err != nil {
					fatal("%s: %v", b, err)
				}
				if o := byKey[c.key()]; o == nil || len(c.Pump.Pre)+len(c.Pump.Post) < len(o.Pump.Pre)+len(o.Pump.Post) ||
					len(c.Pump.Pre)+len(c.Pump.Post) == len(o.Pump.Pre)+len(o.Pump.Post) && fmt.Sprint(c) < fmt.Sprint(o) {
					byKey[c.key()] = c
				}
			}
		})
		var keys []string
		for k := range byKey {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if len(keys) == 0 {
			fatal("no pumps")
		}
		limit := r.arg("limit", 65536)
		sp := spelling{Idents: "plain", Keywords: "upper", Literals: "plain", Dialect: "generic"}
		one := func(rr *rand.Rand, toks []string) string {
			if len(toks) == 0 {
				return ""
			}
			return render(rr, sp.spell(rr, toks), "plain", sp.Dialect).Src + " "
		}
		shapes := 5
		r.each(len(keys)*shapes, func(i int, desc func(func() string)) {
			c := byKey[keys[i/shapes]]
			shape := i % shapes
			rr := r.rng(i, 41)
			pre, alpha, core, beta, post := one(rr, c.Pump.Pre), one(rr, c.Pump.Alpha), one(rr, c.Pump.Core), one(rr, c.Pump.Beta), one(rr, c.Pump.Post)
			r.nontrivial(keys[i/shapes] + fmt.Sprint(shape))
			build := func(n, m int) string {
				// a comment map asks every node for its end, which takes as long as the node is deep
				first, inside, last := "/* first */ ", "/* inside */ ", "-- last\n"
				if n > 4000 {
					first, inside, last = "", "", ""
				}
				return first + pre + strings.Repeat(alpha, n) + inside + core + strings.Repeat(beta, m) + post + last
			}
			max := (limit - 40 - len(pre) - len(core) - len(post)) / (len(alpha) + len(beta))
			check := func(src string, must bool, n int) {
				label := fmt.Sprintf("%d times %q around %q", n, alpha+"... "+beta, core)
				desc(func() string { return label })
				got := r.total(src, "generic", true)
				r.count("texts pumped", 1)
				if must && n <= 3000 && got == 0 {
					r.violate(Violation{Case: label + ": " + clipq(src), What: "a supported text is rejected"})
				}
			}
			switch shape {
			case 0:
				if i%(len(keys)/4*shapes+1) < shapes {
					r.sample(fmt.Sprintf("%s[%s]^n %s[%s]^n %s", pre, alpha, core, beta, post))
				}
				for n := 0; n < 4; n++ {
					src := build(n, n)
					got := r.total(src, "generic", true)
					if (got > 0) != c.OK[n] && c.OK[n] {
						r.violate(Violation{Case: src, What: "a supported text is rejected"})
					}
				}
				n := 3000
				if n > max {
					n = max
				}
				check(build(n, n), c.OK[2] && c.OK[3], n)
			case 1:
				check(build(max, max), c.OK[2] && c.OK[3], max)
			case 2: // left open
				check(pre+strings.Repeat(alpha, (limit-len(pre))/len(alpha)), false, max)
			case 3: // closed too often
				if beta != "" {
					check(build(max/2, max+max/2), false, max)
				}
			case 4: // everything repeated
				whole := build(2, 2)
				n := limit / len(whole)
				check(strings.Repeat(whole, n), false, n)
				check(strings.Repeat(whole+";", n-1), false, n)
			}
		})
		// characters repeated
		lex := readLex(r)
		every := r.arg("every", 1)
		r.each(len(lex), func(i int, desc func(func() string)) {
			s := string(lex[i].S)
			if s == "" || len(lex[i].S) > 3 || i%every != int(r.Seed)%every {
				return
			}
			desc(func() string { return fmt.Sprintf("dialect=%s many times %q", lex[i].D, s) })
			r.nontrivial("lex" + lex[i].D + s)
			r.count("characters pumped", 1)
			n := limit / len(s)
			r.total(strings.Repeat(s, n), lex[i].D, true)
			if rest := s[runeLen(s):]; rest != "" {
				r.total(s[:runeLen(s)]+strings.Repeat(rest, limit/len(rest)), lex[i].D, true)
			}
			r.total("SELECT "+s[:runeLen(s)]+strings.Repeat(s, 50)+" FROM t", lex[i].D, true)
		})
	}
}

func runeLen(s string) int {
	_, n := utf8.DecodeRuneInString(s)
	return n
}

// readAny reads the SQL cases among others; those without texts of their own too.
func (r *Run) readAny() []sqlCase {
	var cs []sqlCase
	readCases(r.In, func(b []byte) {
		if !strings.Contains(string(b), `"k":`) {
			return
		}
		var c sqlCase
		if json.Unmarshal(b, &c) == nil {
			cs = append(cs, c)
		}
	})
	sortCases(cs)
	return cs
}
