package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// specNode is an AST value of the specification: <<type, fields...>> or <<leaf type, token index>>.
type specNode struct {
	Kind string
	Tok  int    // leaves
	Str  string // constants
	Kids []*specNode
}

func (n *specNode) UnmarshalJSON(b []byte) error {
	var a []json.RawMessage
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	if len(a) == 0 {
		return fmt.Errorf("empty node")
	}
	if err := json.Unmarshal(a[0], &n.Kind); err != nil {
		return err
	}
	for _, m := range a[1:] {
		switch m[0] {
		case '[':
			k := &specNode{}
			if err := k.UnmarshalJSON(m); err != nil {
				return err
			}
			n.Kids = append(n.Kids, k)
		case '"':
			json.Unmarshal(m, &n.Str)
		default:
			if err := json.Unmarshal(m, &n.Tok); err != nil {
				return err
			}
		}
	}
	return nil
}

func (n *specNode) String() string {
	if n.Tok != 0 {
		return fmt.Sprintf("%s#%d", n.Kind, n.Tok)
	}
	var ks []string
	if n.Str != "" {
		ks = append(ks, n.Str)
	}
	for _, k := range n.Kids {
		ks = append(ks, k.String())
	}
	return n.Kind + "(" + strings.Join(ks, " ") + ")"
}

// shift adds d to the token indices.
func (n *specNode) shift(d int) *specNode {
	m := *n
	if m.Tok != 0 {
		m.Tok += d
	}
	m.Kids = nil
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, k.shift(d))
	}
	return &m
}

// schema: the fields the specification gives a node type, in its order.
var schema = map[string][]string{}

// unset lists the fields that the supported grammar never sets.
var unset = map[string][]string{"CreateTableStmt": {"Location"}}

func init() {
	for _, l := range strings.Split(strings.TrimSpace(`
QueryStmt CTEs Body OrderBy Limit
CTE Alias Query
QueryExpr Query
SetOperationExpr Left Op All Right
SQLSelect Distinct Projection FromClause WhereClause GroupByClause HavingClause
OrderByExpr Expr ASC
LimitExpr All LimitValue OffsetValue
UnnamedSelectItem Node
AliasSelectItem Expr Alias
QualifiedWildcardSelectItem Prefix
Table Name Args Alias WithHints
Derived Lateral SubQuery Alias
TableJoinElement Ref
NaturalJoin LeftElement Type RightElement
CrossJoin Reference Factor
QualifiedJoin LeftElement Type RightElement Spec
JoinCondition SearchCondition
NamedColumnsJoin ColumnList
ObjectName Idents
CompoundIdent Idents
QualifiedWildcard Idents
BinaryExpr Left Op Right
UnaryExpr Op Expr
IsNull X
IsNotNull X
InList Expr Negated List
InSubQuery Expr Negated SubQuery
Between Expr Negated Low High
Cast Expr DataType
Nested AST
SubQuery Query
Exists Negated Query
CaseExpr Operand Conditions Results ElseResult
Function Name Args Over
WindowSpec PartitionBy OrderBy WindowsFrame
WindowFrame Units StartBound EndBound
CurrentRow
UnboundedPreceding
UnboundedFollowing
Preceding Bound
Following Bound
Int IsUnsigned
SmallInt IsUnsigned
BigInt IsUnsigned
Real IsUnsigned
Float Size IsUnsigned
Decimal Precision Scale IsUnsigned
VarcharType Size
CharType Size
Timestamp WithTimeZone
Time WithTimeZone
Array Ty
Custom Ty
Text
Double
Boolean
UUID
Date
Regclass
Bytea
InsertStmt TableName Columns Source UpdateAssignments
SubQuerySource SubQuery
ConstructorSource Rows
RowValueExpr Values
Assignment ID Value
UpdateStmt TableName Assignments Selection
DeleteStmt TableName Selection
CreateTableStmt NotExists Name Elements Options
CreateViewStmt Materialized Name Query
CreateIndexStmt IsUnique IndexName TableName MethodName ColumnNames Selection
ColumnDef Name DataType Default Constraints MyDataTypeDecoration
ColumnConstraint Name Spec
NotNullColumnSpec
UniqueColumnSpec IsPrimaryKey
ReferencesColumnSpec TableName Columns
CheckColumnSpec Expr
TableConstraint Name Spec
UniqueTableConstraint IsPrimary Columns
ReferentialTableConstraint Columns KeyExpr
ReferenceKeyExpr TableName Columns
CheckTableConstraint Expr
MyEngine Equal Name
MyCharset IsDefault Equal Name
AutoIncrement
AlterTableStmt TableName Action
AddColumnTableAction Column
AddConstraintTableAction Constraint
DropConstraintTableAction Name Cascade
RemoveColumnTableAction Name Cascade
AlterColumnTableAction ColumnName Action
SetDefaultColumnAction Default
PGSetNotNullColumnAction
PGDropNotNullColumnAction
DropDefaultColumnAction
PGAlterDataTypeColumnAction DataType
DropTableStmt IfExists TableNames Cascade
DropIndexStmt IndexNames
ExplainStmt Stmt
Wildcard
`), "\n") {
		f := strings.Fields(l)
		schema[f[0]] = f[1:]
	}
}

var operators = map[string]sqlast.OperatorType{"Plus": sqlast.Plus, "Minus": sqlast.Minus, "Multiply": sqlast.Multiply, "Divide": sqlast.Divide,
	"Modulus": sqlast.Modulus, "Gt": sqlast.Gt, "Lt": sqlast.Lt, "GtEq": sqlast.GtEq, "LtEq": sqlast.LtEq, "Eq": sqlast.Eq, "NotEq": sqlast.NotEq,
	"And": sqlast.And, "Or": sqlast.Or, "Not": sqlast.Not, "Like": sqlast.Like, "NotLike": sqlast.NotLike}

var joinTypes = map[string]sqlast.JoinTypeCondition{"INNER": sqlast.INNER, "LEFT": sqlast.LEFT, "RIGHT": sqlast.RIGHT, "FULL": sqlast.FULL,
	"LEFTOUTER": sqlast.LEFTOUTER, "RIGHTOUTER": sqlast.RIGHTOUTER, "FULLOUTER": sqlast.FULLOUTER, "IMPLICIT": sqlast.IMPLICIT}

var units = map[string]sqlast.WindowFrameUnitType{"ROWS": sqlast.RowsUnit, "RANGE": sqlast.RangeUnit, "GROUPS": sqlast.GroupsUnit}

// matcher compares a real AST with the one the specification prescribes for a rendered text.
type matcher struct {
	rd      *rendered
	extents bool // compare the extents of identifiers and literals, too
	onlyExt bool // ... and nothing of their values
	base    int  // tokens before those the tree counts
}

type mismatch struct{ Path, What, Expected, Got string }

func (m *mismatch) Error() string { return m.Path + ": " + m.What }

func bad(path, what string, exp, got interface{}) *mismatch {
	return &mismatch{path, what, fmt.Sprint(exp), fmt.Sprint(got)}
}

// deref unwraps interfaces and pointers; nil when absent.
func deref(v reflect.Value) (reflect.Value, bool) {
	for v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr) {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	return v, v.IsValid()
}

func typeName(v reflect.Value) string {
	d, ok := deref(v)
	if !ok {
		return "nothing"
	}
	if d.Kind() == reflect.Struct {
		return d.Type().Name()
	}
	return d.Type().String()
}

func (m *matcher) match(n *specNode, v reflect.Value, path string) *mismatch {
	switch n.Kind {
	case "nil":
		if v.Kind() == reflect.Slice {
			if !v.IsNil() {
				return bad(path, "is present", "absent", fmt.Sprintf("%d elements", v.Len()))
			}
			return nil
		}
		if _, ok := deref(v); ok {
			return bad(path, "is present", "absent", typeName(v))
		}
		return nil
	case "true", "false":
		d, ok := deref(v)
		if !ok || d.Kind() != reflect.Bool {
			return bad(path, "is absent", n.Kind, typeName(v))
		}
		if d.Bool() != (n.Kind == "true") {
			return bad(path, "differs", n.Kind, d.Bool())
		}
		return nil
	case "L":
		if v.Kind() != reflect.Slice {
			return bad(path, "is no list", n, typeName(v))
		}
		if strings.HasSuffix(path, "Table.Args") && v.IsNil() {
			return bad(path, "is absent", "argument list", "nil")
		}
		if v.Len() != len(n.Kids) {
			return bad(path, "has another number of elements", len(n.Kids), v.Len())
		}
		for i, k := range n.Kids {
			if e := m.match(k, v.Index(i), fmt.Sprintf("%s[%d]", path, i)); e != nil {
				return e
			}
		}
		return nil
	}
	d, ok := deref(v)
	if !ok {
		return bad(path, "is absent", n.Kind, "nothing")
	}
	switch n.Kind {
	case "Op":
		o, ok := d.Addr().Interface().(*sqlast.Operator)
		if !ok || o.Type != operators[n.Str] {
			return bad(path, "operator differs", n.Str, fmt.Sprintf("%+v", d.Interface()))
		}
		return nil
	case "JoinType":
		o, ok := d.Addr().Interface().(*sqlast.JoinType)
		if !ok || o.Condition != joinTypes[n.Str] {
			return bad(path, "join type differs", n.Str, fmt.Sprintf("%+v", d.Interface()))
		}
		return nil
	case "Unit":
		o, ok := d.Addr().Interface().(*sqlast.WindowFrameUnit)
		if !ok || o.Type != units[n.Str] {
			return bad(path, "unit differs", n.Str, fmt.Sprintf("%+v", d.Interface()))
		}
		return nil
	case "SetOp":
		if typeName(v) != n.Str {
			return bad(path, "set operator differs", n.Str, typeName(v))
		}
		return nil
	case "U":
		want, err := strconv.ParseUint(m.rd.Lex[m.base+n.Tok-1].Text, 10, 64)
		if err != nil {
			fatal("size %q", m.rd.Lex[m.base+n.Tok-1].Text)
		}
		if k := d.Kind(); k != reflect.Uint && k != reflect.Uint64 {
			return bad(path, "is no number", want, typeName(v))
		}
		if !m.onlyExt && d.Uint() != want {
			return bad(path, "differs", want, d.Uint())
		}
		return nil
	}
	kind := n.Kind
	if kind == "CastOp" {
		kind = "Cast"
	}
	if n.Tok != 0 {
		return m.leaf(n, kind, d, path)
	}
	fields, known := schema[kind]
	if !known {
		fatal("no schema for %s", kind)
	}
	if typeName(v) != kind {
		return bad(path, "is another node", n, typeName(v))
	}
	if len(fields) != len(n.Kids) {
		fatal("%s has %d fields in the specification", kind, len(n.Kids))
	}
	for i, f := range fields {
		fv := d.FieldByName(f)
		if !fv.IsValid() {
			fatal("%s has no field %s", kind, f)
		}
		if e := m.match(n.Kids[i], fv, path+"."+kind+"."+f); e != nil {
			return e
		}
	}
	for _, f := range unset[kind] {
		if fv := d.FieldByName(f); fv.IsValid() && !fv.IsZero() {
			return bad(path+"."+kind+"."+f, "is set", "nothing", fv.Interface())
		}
	}
	return nil
}

func unquoteString(s string) string {
	if i := strings.IndexByte(s, '\''); i >= 0 {
		s = s[i:]
	}
	return strings.Replace(s[1:len(s)-1], "''", "'", -1)
}

// nearest is the float64 nearest to a decimal number, computed with rationals.
func nearest(s string) float64 {
	q, ok := new(big.Rat).SetString(s)
	if !ok {
		fatal("not a number: %q", s)
	}
	f, _ := q.Float64()
	return f
}

func (m *matcher) leaf(n *specNode, kind string, d reflect.Value, path string) *mismatch {
	l := m.rd.Lex[m.base+n.Tok-1]
	if !d.CanAddr() {
		return bad(path, "is another node", kind, d.Type())
	}
	x := d.Addr().Interface()
	if typeName(d) != kind {
		return bad(path, "is another node", fmt.Sprintf("%s %s", kind, l.Text), typeName(d))
	}
	if !m.onlyExt {
		var exp, got interface{}
		switch x := x.(type) {
		case *sqlast.Ident:
			exp, got = l.Text, x.Value
		case *sqlast.LongValue:
			v, ok := new(big.Int).SetString(l.Text, 10)
			if !ok {
				fatal("not an integer: %q", l.Text)
			}
			exp, got = v.String(), strconv.FormatInt(x.Long, 10)
		case *sqlast.DoubleValue:
			exp, got = nearest(l.Text), x.Double
		case *sqlast.SingleQuotedString:
			exp, got = unquoteString(l.Text), x.String
		case *sqlast.NationalStringLiteral:
			exp, got = unquoteString(l.Text), x.String
		case *sqlast.BooleanValue:
			exp, got = strings.EqualFold(l.Text, "true"), x.Boolean
		case *sqlast.NullValue:
		default:
			fatal("leaf %T", x)
		}
		if exp != got {
			return bad(path, "another value", exp, got)
		}
	}
	if m.extents {
		nd := x.(sqlast.Node)
		from, to := m.rd.From[m.base+n.Tok-1], m.rd.To[m.base+n.Tok-1]
		var pf, pt sqltoken.Pos
		if p := guard(func() { pf, pt = nd.Pos(), nd.End() }); p != nil {
			return bad(path, "position panics", nil, p)
		}
		if pf != from || pt != to {
			return bad(path, fmt.Sprintf("%s %q has another extent", kind, l.Text), fmt.Sprintf("%v-%v", from, to), fmt.Sprintf("%v-%v", pf, pt))
		}
	}
	return nil
}

var posType = reflect.TypeOf(sqltoken.Pos{})

// dump writes an AST without its positions; two ASTs are equal up to positions iff their dumps are.
func dump(x interface{}) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(x), false, false)
	return b.String()
}

// dumpFull includes the positions.
func dumpFull(x interface{}) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(x), true, false)
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value, pos, keepNil bool) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("-")
			return
		}
		dumpTo(b, v.Elem(), pos, false)
	case reflect.Slice:
		if v.IsNil() && keepNil {
			b.WriteString("-")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpTo(b, v.Index(i), pos, false)
		}
		b.WriteByte(']')
	case reflect.Struct:
		t := v.Type()
		b.WriteString(t.Name())
		b.WriteByte('(')
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.Type == posType && !pos {
				continue
			}
			if f.Anonymous && v.Field(i).Kind() == reflect.Struct && v.Field(i).NumField() == 0 {
				continue
			}
			b.WriteString(f.Name)
			b.WriteByte('=')
			dumpTo(b, v.Field(i), pos, t.Name() == "Table" && f.Name == "Args")
			b.WriteByte(' ')
		}
		b.WriteByte(')')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Map:
		fmt.Fprintf(b, "map%d", v.Len())
	default:
		if v.IsValid() {
			fmt.Fprintf(b, "%v", v.Kind())
		} else {
			b.WriteString("-")
		}
	}
}

func valueOf(x interface{}) reflect.Value { return reflect.ValueOf(x) }
