package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

type litCase struct {
	C string `json:"c"` // num size str nstr
	K string `json:"k"` // int dbl size str nstr bad
	D []int  `json:"d"`
	T []int  `json:"t"`
}

// literalsOf lists the literals of an AST as kind and value, in the order of its fields.
func literalsOf(x interface{}) []string {
	var out []string
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			if v.IsNil() {
				return
			}
			switch n := v.Interface().(type) {
			case *sqlast.LongValue:
				out = append(out, "int "+strconv.FormatInt(n.Long, 10))
			case *sqlast.DoubleValue:
				out = append(out, "dbl "+strconv.FormatFloat(n.Double, 'g', -1, 64))
			case *sqlast.SingleQuotedString:
				out = append(out, "str "+strconv.Quote(n.String))
			case *sqlast.NationalStringLiteral:
				out = append(out, "nstr "+strconv.Quote(n.String))
			case *sqlast.BooleanValue:
				out = append(out, fmt.Sprintf("bool %v", n.Boolean))
			case *sqlast.NullValue:
				out = append(out, "null")
			case *uint:
				out = append(out, fmt.Sprintf("size %d", *n))
			case *uint64:
				out = append(out, fmt.Sprintf("size %d", *n))
			default:
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).Type != posType {
					walk(v.Field(i))
				}
			}
		}
	}
	walk(reflect.ValueOf(x))
	return out
}

var literalContexts = []string{"SELECT %s", "SELECT - %s", "INSERT INTO t (a) VALUES (%s)", "SELECT a FROM t WHERE a = %s AND b", "SELECT f(%s)",
	"UPDATE t SET a = %s", "CREATE TABLE t (a int DEFAULT %s NOT NULL)", "SELECT CASE WHEN a THEN %s END", "SELECT a IN (%s)", "SELECT %s BETWEEN a AND b",
	"ALTER TABLE t ALTER COLUMN a SET DEFAULT %s", "SELECT (%s)", "DELETE FROM t WHERE %s = a", "SELECT a FROM t GROUP BY %s", "SELECT a ORDER BY %s DESC",
	"SELECT CAST(%s AS text)", "SELECT %s::text", "SELECT %s + a", "SELECT a FROM t HAVING %s", "SELECT a FROM f(%s)", "SELECT a AS b, %s AS c"}
var limitContexts = []string{"SELECT a LIMIT %s", "SELECT a FROM t ORDER BY a LIMIT %s OFFSET %s"}
var sizeContexts = []string{"CREATE TABLE t (a VARCHAR(%s))", "CREATE TABLE t (a CHAR(%s))", "SELECT CAST(a AS NUMERIC(%s))", "SELECT CAST(a AS NUMERIC(%s, %s))",
	"SELECT a::FLOAT(%s)", "SELECT a::CHARACTER VARYING(%s)", "SELECT f(a) OVER (ROWS %s PRECEDING)", "SELECT f(a) OVER (RANGE BETWEEN %s PRECEDING AND %s FOLLOWING)"}

func init() {
	commands["literal"] = func(r *Run) {
		var cs []litCase
		readCases(r.In, func(b []byte) {
			var c litCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal("case %s: %v", b, err)
			}
			cs = append(cs, c)
		})
		r.each(len(cs), func(i int, desc func(func() string)) {
			c := &cs[i]
			var b strings.Builder
			want := ""
			var ctxs []string
			switch c.C {
			case "num", "size":
				for _, d := range c.D {
					b.WriteByte("0123456789."[d])
				}
				switch c.K {
				case "int", "size", "maybe":
					n, _ := new(big.Int).SetString(b.String(), 10)
					want = strings.Replace(c.K, "maybe", "size", 1) + " " + n.String()
				case "dbl":
					want = "dbl " + strconv.FormatFloat(nearest(strings.TrimSuffix(b.String(), ".")), 'g', -1, 64)
				}
				if c.C == "size" {
					ctxs = sizeContexts
				} else {
					ctxs = append(ctxs, literalContexts...)
					if c.K != "dbl" {
						ctxs = append(ctxs, limitContexts...)
					}
				}
			default:
				content := make([]rune, len(c.D))
				for k, d := range c.D {
					content[k] = rune(d)
				}
				if c.K == "nstr" {
					b.WriteByte('N')
				}
				b.WriteByte('\'')
				for _, d := range c.T {
					b.WriteRune(rune(d))
				}
				b.WriteByte('\'')
				want = c.K + " " + strconv.Quote(string(content))
				ctxs = literalContexts
			}
			text := b.String()
			r.count(c.C+" "+c.K, 1)
			rr := r.rng(i, 0)
			n := 4
			if r.Tier == "thorough" {
				n = len(ctxs)
			}
			for j := 0; j < n; j++ {
				ctx := ctxs[(i+j)%len(ctxs)]
				if j > 0 && n != len(ctxs) {
					ctx = ctxs[rr.Intn(len(ctxs))]
				}
				src := strings.Replace(ctx, "%s", text, -1)
				desc(func() string { return src })
				if j == 0 && i%(len(cs)/5+1) == 0 {
					r.sample(src + " : " + want)
				}
				r.nontrivial(src)
				r.eval(1)
				d := dialects[rr.Intn(len(dialects))]
				add := func(what string, exp, got interface{}) {
					r.violate(Violation{Case: fmt.Sprintf("dialect=%s source=%q", d, src), What: what, Expected: exp, Got: got})
				}
				o := parse(src, d, "file")
				if want == "" {
					if o.Panic != nil {
						add(o.problem(), "an error", nil)
					} else if o.Err == nil {
						add("a number that cannot be represented is accepted", "an error", literalsOf(o.File.Stmts))
					}
					continue
				}
				var exp []string
				for k := strings.Count(ctx, "%s"); k > 0; k-- {
					exp = append(exp, want)
				}
				if c.K == "maybe" && o.Panic == nil && o.Err != nil {
					continue
				}
				if !o.ok() {
					add("a literal is "+o.problem(), exp, nil)
					continue
				}
				if got := literalsOf(o.File.Stmts); !reflect.DeepEqual(got, exp) {
					add("the literal has another value", exp, got)
					continue
				}
				printed := ""
				if p := guard(func() { printed = o.File.ToSQLString() }); p != nil {
					add(fmt.Sprint(p), nil, nil)
					continue
				}
				o2 := parse(printed, d, "file")
				if !o2.ok() {
					add("the printed literal does not parse: "+o2.problem(), exp, printed)
				} else if got := literalsOf(o2.File.Stmts); !reflect.DeepEqual(got, exp) {
					add(fmt.Sprintf("the printed literal (%s) has another value", printed), exp, got)
				}
			}
		})
	}
}
