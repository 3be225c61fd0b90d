------------------------------ MODULE Grammar ------------------------------
(* The supported SQL grammar with the AST every construct prescribes.       *)
(*                                                                          *)
(* A rule set is a function from nonterminals to sequences of alternatives  *)
(*   [g |-> guard, c |-> cost, m |-> mode, r |-> right hand side]           *)
(* guard: the symbols the next tokens must match for the alternative to be  *)
(*        taken when recognising (the first alternative that matches is it) *)
(* cost:  what choosing the alternative costs when generating               *)
(* mode:  "b" both, "g" only when generating, "r" only when recognising     *)
(* A right hand side is a sequence of symbols: terminals, nonterminals, and *)
(* actions on the stack of AST values.                                      *)
EXTENDS Integers, Sequences

(* terminals *)
K(s) == <<"t", s>>                 \* keyword or punctuation
W(cl) == <<"w", cl>>               \* identifier; pushes its node
L(c) == <<"l", c>>                 \* literal: int dbl str nstr; pushes its node
KV(s, ty) == <<"kv", s, ty>>       \* keyword that is a value
Size == <<"size">>                 \* integer used as a size or a number of rows
(* nonterminals *)
N(n) == <<"n", n>>
Sub(p) == <<"sub", p>>             \* expression binding tighter than p
DSub(p) == <<"dsub", p>>           \* the same, ended by NOT and NULL (default values)
Tail_(p) == <<"tail", p>>
DTail(p) == <<"dtail", p>>
Body(p) == <<"body", p>>           \* query body binding tighter than p
STail(p) == <<"stail", p>>
(* actions *)
Mk(ty, n) == <<"mk", ty, n>>       \* make a node of the n topmost values
V(c) == <<"v", c>>                 \* push a constant
App == <<"app">>                   \* append the topmost value to the list below it
AppD(d) == <<"appd", d>>           \* ... to the list d values further down
SetD(d) == <<"setd", d>>           \* replace the d-th value further down by the topmost one
Cap(c) == <<"cap", c>>
Unwrap == <<"unwrap">>             \* a list of identifiers as identifier or compound identifier
Conv == <<"conv">>                 \* qualified wildcard as select item

Nil == <<"nil">>
True == <<"true">>
False == <<"false">>
Empty == <<"L">>
Op(o) == V(<<"Op", o>>)

A(g, c, r) == [g |-> g, c |-> c, m |-> "b", r |-> r, v |-> ""]
G(c, r) == [g |-> <<>>, c |-> c, m |-> "g", r |-> r, v |-> ""]
R(g, r) == [g |-> g, c |-> 0, m |-> "r", r |-> r, v |-> ""]
\* an alternative open only if the topmost value is of the given kind
RV(v, r) == [g |-> <<>>, c |-> 0, m |-> "r", r |-> r, v |-> v]
\* an alternative open only if the value d below the topmost is nil
AN(g, c, r, v) == [g |-> g, c |-> c, m |-> "b", r |-> r, v |-> v]
\* keyword led alternative
AK(k, c, r) == A(<<K(k)>>, c, <<K(k)>> \o r)
E(r) == A(<<>>, 0, r)

ReservedCol == {"WITH", "SELECT", "WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "UNION", "EXCEPT", "INTERSECT", "FROM", "ON"}
ReservedTab == {"WITH", "SELECT", "WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "UNION", "EXCEPT", "INTERSECT", "ON",
                "JOIN", "INNER", "CROSS", "FULL", "LEFT", "RIGHT", "NATURAL", "USING"}
Excluded(cl) == CASE cl = "any" -> {} [] cl = "tab" -> ReservedTab [] OTHER -> ReservedCol

Punct == {",", "(", ")", "=", "<>", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", ".", "::", "[", "]", ";"}
Classes == {"id", "int", "dbl", "str", "nstr"}
Keywords == ReservedCol \cup ReservedTab \cup
  {"DISTINCT", "ALL", "BY", "AS", "RECURSIVE", "ASC", "DESC", "OFFSET", "OUTER", "LATERAL", "CASE", "WHEN", "THEN", "ELSE", "END",
   "CAST", "EXISTS", "NOT", "AND", "OR", "IN", "BETWEEN", "LIKE", "IS", "NULL", "TRUE", "FALSE", "OVER", "PARTITION", "ROWS",
   "RANGE", "GROUPS", "UNBOUNDED", "PRECEDING", "FOLLOWING", "CURRENT", "ROW", "INSERT", "INTO", "VALUES", "DUPLICATE", "KEY",
   "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "IF", "VIEW", "MATERIALIZED", "INDEX", "UNIQUE", "PRIMARY", "FOREIGN",
   "REFERENCES", "CHECK", "CONSTRAINT", "DEFAULT", "AUTO_INCREMENT", "ENGINE", "CHARSET", "ALTER", "ADD", "COLUMN", "DROP",
   "CASCADE", "TYPE", "EXPLAIN", "BOOLEAN", "FLOAT", "REAL", "DOUBLE", "PRECISION", "SMALLINT", "INTEGER", "INT", "BIGINT",
   "VARCHAR", "CHAR", "CHARACTER", "VARYING", "UUID", "DATE", "TIMESTAMP", "TIME", "ZONE", "WITHOUT", "REGCLASS", "TEXT",
   "BYTEA", "NUMERIC", "UNSIGNED"}

IsWord(t) == t \notin Punct /\ t \notin {"int", "dbl", "str", "nstr", "<eof>"}

Matches(x, t) ==
  CASE x[1] = "t" -> t = x[2]
    [] x[1] = "w" -> IsWord(t) /\ t \notin Excluded(x[2])
    [] x[1] = "l" -> t = x[2]
    [] OTHER -> FALSE

(* comma separated lists: the list is on the stack already, its elements follow *)
CommaLoop(self, elem) == << A(<<K(",")>>, 1, <<K(",")>> \o elem \o <<App, N(self)>>), E(<<>>) >>
List(elem, loop) == <<V(Empty)>> \o elem \o <<App, N(loop)>>

Expr == Sub(0)
ExprList == N("ExprList")
ObjectName == N("ObjectName")
Paren(x) == <<K("(")>> \o x \o <<K(")")>>
Opt(k, x) == << AK(k, 1, x), E(<<V(Nil)>>) >>
Flag(k) == << AK(k, 1, <<V(True)>>), E(<<V(False)>>) >>
(* the rest of a query after its common table expressions and the first part of its body *)
QueryRest == <<Cap(100), STail(0), N("OrderBy"), N("Limit"), Mk("QueryStmt", 4)>>

Rules == [
  Script |-> << A(<<K(";")>>, 9, <<K(";"), N("Script")>>), A(<<K("<eof>")>>, 9, <<>>), E(<<N("Stmt"), App, N("ScriptTail")>>) >>,
  ScriptTail |-> << A(<<K(";")>>, 9, <<K(";"), N("Script")>>), E(<<>>) >>,

  Stmt |-> << A(<<K("SELECT")>>, 0, <<N("QuerySel")>>), A(<<K("WITH")>>, 0, <<N("QueryWith")>>),
              AK("INSERT", 0, <<N("Insert")>>), AK("UPDATE", 0, <<N("Update")>>), AK("DELETE", 0, <<N("Delete")>>),
              AK("CREATE", 0, <<N("Create")>>), AK("ALTER", 0, <<N("Alter")>>), AK("DROP", 0, <<N("Drop")>>),
              AK("EXPLAIN", 1, <<N("Stmt"), Mk("ExplainStmt", 1)>>) >>,

  (* ---- queries ---- *)
  QuerySel |-> << E(<<V(Empty), N("Select")>> \o QueryRest) >>,
  QueryWith |-> << E(<<K("WITH"), V(Empty), N("CTE"), App, N("CTEs"), N("BodyPrimary")>> \o QueryRest) >>,
  Query |-> << A(<<K("WITH")>>, 1, <<N("QueryWith")>>), E(<<V(Empty), N("BodyPrimary")>> \o QueryRest) >>,
  CTE |-> << E(<<W("any"), K("AS"), K("("), N("Query"), K(")"), Mk("CTE", 2)>>) >>,
  CTEs |-> CommaLoop("CTEs", <<N("CTE")>>),
  BodyPrimary |-> << A(<<K("SELECT")>>, 0, <<N("Select")>>),
                     AK("(", 1, <<N("Query"), K(")"), Mk("QueryExpr", 1)>>) >>,
  All |-> Flag("ALL"),
  OrderBy |-> << A(<<K("ORDER"), K("BY")>>, 1, <<K("ORDER"), K("BY"), N("OrderList")>>), E(<<V(Empty)>>) >>,
  OrderList |-> << E(List(<<N("OrderItem")>>, "OrderItems")) >>,
  OrderItems |-> CommaLoop("OrderItems", <<N("OrderItem")>>),
  OrderItem |-> << E(<<Expr, N("Asc"), Mk("OrderByExpr", 2)>>) >>,
  Asc |-> << AK("ASC", 1, <<V(True)>>), AK("DESC", 1, <<V(False)>>), E(<<V(Nil)>>) >>,
  Limit |-> << AK("LIMIT", 1, <<N("LimitValue")>>), E(<<V(Nil)>>) >>,
  LimitValue |-> << AK("ALL", 1, <<V(True), V(Nil), V(Nil), Mk("LimitExpr", 3)>>),
                    E(<<V(False), L("int"), N("Offset"), Mk("LimitExpr", 3)>>) >>,
  Offset |-> Opt("OFFSET", <<L("int")>>),

  Select |-> << E(<<K("SELECT"), N("Distinct"), N("Items"), N("From"), N("Where"), N("GroupBy"), N("Having"),
                    Mk("SQLSelect", 6)>>) >>,
  Distinct |-> Flag("DISTINCT"),
  Items |-> << E(List(<<N("Item")>>, "ItemLoop")) >>,
  ItemLoop |-> CommaLoop("ItemLoop", <<N("Item")>>),
  Item |-> << G(1, <<K("*"), V(<<"Wildcard">>), Mk("UnnamedSelectItem", 1)>>),
              G(1, <<V(Empty), W("expr"), App, N("WildParts"), K("."), K("*"), Mk("ObjectName", 1), Mk("QualifiedWildcardSelectItem", 1)>>),
              E(<<Expr, N("ItemTail")>>) >>,
  WildParts |-> << G(1, <<K("."), W("any"), App, N("WildParts")>>), E(<<>>) >>,
  ItemTail |-> << RV("QualifiedWildcard", <<Conv>>),
                  AK("AS", 1, <<W("any"), Mk("AliasSelectItem", 2)>>),
                  A(<<W("col")>>, 1, <<W("col"), Mk("AliasSelectItem", 2)>>),
                  E(<<Mk("UnnamedSelectItem", 1)>>) >>,
  From |-> << AK("FROM", 1, <<V(Empty), N("TableRef"), App, N("FromLoop")>>), E(<<V(Empty)>>) >>,
  FromLoop |-> CommaLoop("FromLoop", <<N("TableRef")>>),
  Where |-> Opt("WHERE", <<Expr>>),
  GroupBy |-> << A(<<K("GROUP"), K("BY")>>, 1, <<K("GROUP"), K("BY"), ExprList>>), E(<<V(Empty)>>) >>,
  Having |-> Opt("HAVING", <<Expr>>),

  (* ---- tables and joins ---- *)
  TableRef |-> << E(<<N("Factor"), N("RefTail")>>) >>,
  RefTail |-> << A(<<K("NATURAL")>>, 1, <<Mk("TableJoinElement", 1), K("NATURAL"), N("NatType"), K("JOIN"), N("TableRef"), Mk("TableJoinElement", 1),
                                    Mk("NaturalJoin", 3)>>),
                 AK("CROSS", 1, <<K("JOIN"), N("Factor"), Mk("CrossJoin", 2), N("RefTail")>>),
                 A(<<K("INNER")>>, 1, <<Mk("TableJoinElement", 1), K("INNER"), V(<<"JoinType", "INNER">>), K("JOIN"), N("JoinRight")>>),
                 A(<<K("LEFT")>>, 1, <<Mk("TableJoinElement", 1), K("LEFT"), N("LeftType"), K("JOIN"), N("JoinRight")>>),
                 A(<<K("RIGHT")>>, 1, <<Mk("TableJoinElement", 1), K("RIGHT"), N("RightType"), K("JOIN"), N("JoinRight")>>),
                 A(<<K("FULL")>>, 1, <<Mk("TableJoinElement", 1), K("FULL"), N("FullType"), K("JOIN"), N("JoinRight")>>),
                 A(<<K("JOIN")>>, 1, <<Mk("TableJoinElement", 1), V(<<"JoinType", "IMPLICIT">>), K("JOIN"), N("JoinRight")>>),
                 E(<<>>) >>,
  JoinRight |-> << E(<<N("TableRef"), Mk("TableJoinElement", 1), N("JoinSpec"), Mk("QualifiedJoin", 4), N("RefTail")>>) >>,
  NatType |-> << AK("INNER", 1, <<V(<<"JoinType", "INNER">>)>>), AK("LEFT", 1, <<N("LeftType")>>),
                 AK("RIGHT", 1, <<N("RightType")>>), AK("FULL", 1, <<N("FullType")>>),
                 E(<<V(<<"JoinType", "IMPLICIT">>)>>) >>,
  LeftType |-> << AK("OUTER", 1, <<V(<<"JoinType", "LEFTOUTER">>)>>), E(<<V(<<"JoinType", "LEFT">>)>>) >>,
  RightType |-> << AK("OUTER", 1, <<V(<<"JoinType", "RIGHTOUTER">>)>>), E(<<V(<<"JoinType", "RIGHT">>)>>) >>,
  FullType |-> << AK("OUTER", 1, <<V(<<"JoinType", "FULLOUTER">>)>>), E(<<V(<<"JoinType", "FULL">>)>>) >>,
  JoinSpec |-> << AK("ON", 0, <<Expr, Mk("JoinCondition", 1)>>),
                  AK("USING", 1, Paren(<<N("Names")>>) \o <<Mk("NamedColumnsJoin", 1)>>) >>,
  Factor |-> << AK("LATERAL", 1, <<V(True)>> \o Paren(<<N("Query")>>) \o <<N("TableAlias"), Mk("Derived", 3)>>),
                A(<<K("(")>>, 1, <<V(False)>> \o Paren(<<N("Query")>>) \o <<N("TableAlias"), Mk("Derived", 3)>>),
                E(<<ObjectName, N("TableArgs"), N("TableAlias"), N("Hints"), Mk("Table", 4)>>) >>,
  TableArgs |-> << A(<<K("(")>>, 1, Paren(<<N("Args")>>)), E(<<V(Nil)>>) >>,
  TableAlias |-> << AK("AS", 1, <<W("any")>>), A(<<W("tab")>>, 1, <<W("tab")>>), E(<<V(Nil)>>) >>,
  Hints |-> << A(<<K("WITH"), K("(")>>, 1, <<K("WITH")>> \o Paren(<<ExprList>>)), E(<<V(Empty)>>) >>,

  (* ---- names ---- *)
  ObjectName |-> << E(<<V(Empty), W("any"), App, N("NameLoop"), Mk("ObjectName", 1)>>) >>,
  NameLoop |-> << A(<<K(".")>>, 1, <<K("."), W("any"), App, N("NameLoop")>>), E(<<>>) >>,
  Names |-> << E(List(<<W("any")>>, "NamesLoop")) >>,
  NamesLoop |-> CommaLoop("NamesLoop", <<W("any")>>),

  (* ---- expressions ---- *)
  ExprList |-> << E(List(<<Expr>>, "ExprLoop")) >>,
  ExprLoop |-> CommaLoop("ExprLoop", <<Expr>>),
  Args |-> << A(<<K(")")>>, 1, <<V(Empty)>>), G(1, <<V(Empty), K("*"), V(<<"Wildcard">>), App>>), E(<<ExprList>>) >>,
  Prefix |-> << A(<<K("NOT"), K("EXISTS")>>, 1, <<K("NOT"), K("EXISTS"), V(True)>> \o Paren(<<N("Query")>>) \o <<Mk("Exists", 2), Cap(100)>>),
                A(<<K("EXISTS")>>, 1, <<K("EXISTS"), V(False)>> \o Paren(<<N("Query")>>) \o <<Mk("Exists", 2), Cap(100)>>),
                E(<<N("PrefixNX")>>) >>,
  \* the operand of NOT: EXISTS there belongs to NOT EXISTS
  PrefixNX |->
    << A(<<K("TRUE")>>, 1, <<KV("TRUE", "BooleanValue"), Cap(100)>>),
       A(<<K("FALSE")>>, 1, <<KV("FALSE", "BooleanValue"), Cap(100)>>),
       A(<<K("NULL")>>, 1, <<KV("NULL", "NullValue"), Cap(100)>>),
       AK("CASE", 1, <<N("CaseOperand"), V(Empty), V(Empty), N("When"), N("Whens"), N("Else"), K("END"), Mk("CaseExpr", 4), Cap(100)>>),
       AK("CAST", 1, <<K("("), Expr, K("AS"), N("Type"), K(")"), Mk("Cast", 2), Cap(100)>>),
       A(<<K("NOT"), K("EXISTS")>>, 1, <<K("NOT"), K("EXISTS"), V(True)>> \o Paren(<<N("Query")>>) \o <<Mk("Exists", 2), Cap(100)>>),
       AK("NOT", 1, <<Op("Not"), N("PrefixNX"), Tail_(15), Mk("UnaryExpr", 2)>>),
       A(<<L("int")>>, 1, <<L("int"), Cap(100)>>), A(<<L("dbl")>>, 1, <<L("dbl"), Cap(100)>>),
       A(<<L("str")>>, 1, <<L("str"), Cap(100)>>), A(<<L("nstr")>>, 1, <<L("nstr"), Cap(100)>>),
       AK("+", 1, <<Op("Plus"), Sub(30), Mk("UnaryExpr", 2)>>),
       AK("-", 1, <<Op("Minus"), Sub(30), Mk("UnaryExpr", 2)>>),
       A(<<K("("), K("SELECT")>>, 1, Paren(<<N("QuerySel")>>) \o <<Mk("SubQuery", 1), Cap(100)>>),
       A(<<K("("), K("WITH")>>, 1, Paren(<<N("QueryWith")>>) \o <<Mk("SubQuery", 1), Cap(100)>>),
       AK("(", 1, <<Expr, K(")"), Mk("Nested", 1), Cap(100)>>),
       R(<<K("*")>>, <<K("*"), V(<<"Wildcard">>), Cap(100)>>),
       A(<<W("expr")>>, 0, <<V(Empty), W("expr"), App, N("IdTail"), Cap(100)>>) >>,
  IdTail |-> << R(<<K("."), K("*")>>, <<K("."), K("*"), Mk("QualifiedWildcard", 1)>>),
                A(<<K(".")>>, 1, <<K("."), W("any"), App, N("IdTail")>>),
                A(<<K("(")>>, 1, <<Mk("ObjectName", 1), K("("), N("Args"), K(")"), N("Over"), Mk("Function", 3)>>),
                E(<<Unwrap>>) >>,
  CaseOperand |-> << A(<<K("WHEN")>>, 0, <<V(Nil)>>), A(<<>>, 1, <<Expr>>) >>,
  When |-> << E(<<K("WHEN"), Expr, AppD(2), K("THEN"), Expr, AppD(1)>>) >>,
  Whens |-> << A(<<K("WHEN")>>, 1, <<N("When"), N("Whens")>>), E(<<>>) >>,
  Else |-> Opt("ELSE", <<Expr>>),
  Over |-> << AK("OVER", 1, <<K("("), N("PartitionBy"), N("WinOrder"), N("Frame"), K(")"), Mk("WindowSpec", 3)>>), E(<<V(Nil)>>) >>,
  PartitionBy |-> << AK("PARTITION", 1, <<K("BY"), ExprList>>), E(<<V(Empty)>>) >>,
  WinOrder |-> << AK("ORDER", 1, <<K("BY"), N("OrderList")>>), E(<<V(Empty)>>) >>,
  Frame |-> << AK("ROWS", 1, <<V(<<"Unit", "ROWS">>), N("Bounds"), Mk("WindowFrame", 3)>>),
               AK("RANGE", 1, <<V(<<"Unit", "RANGE">>), N("Bounds"), Mk("WindowFrame", 3)>>),
               AK("GROUPS", 1, <<V(<<"Unit", "GROUPS">>), N("Bounds"), Mk("WindowFrame", 3)>>),
               E(<<V(Nil)>>) >>,
  Bounds |-> << AK("BETWEEN", 1, <<N("Bound"), K("AND"), N("Bound")>>), E(<<N("Bound"), V(Nil)>>) >>,
  Bound |-> << A(<<K("CURRENT"), K("ROW")>>, 0, <<K("CURRENT"), K("ROW"), Mk("CurrentRow", 0)>>),
               A(<<K("UNBOUNDED"), K("PRECEDING")>>, 1, <<K("UNBOUNDED"), K("PRECEDING"), Mk("UnboundedPreceding", 0)>>),
               A(<<K("UNBOUNDED"), K("FOLLOWING")>>, 1, <<K("UNBOUNDED"), K("FOLLOWING"), Mk("UnboundedFollowing", 0)>>),
               A(<<L("int")>>, 1, <<Size, N("BoundDir")>>) >>,
  BoundDir |-> << AK("PRECEDING", 0, <<Mk("Preceding", 1)>>), AK("FOLLOWING", 0, <<Mk("Following", 1)>>) >>,

  (* ---- types ---- *)
  Type |-> << AK("INT", 0, <<N("Unsigned"), Mk("Int", 1)>>), AK("INTEGER", 1, <<N("Unsigned"), Mk("Int", 1)>>),
              AK("SMALLINT", 1, <<N("Unsigned"), Mk("SmallInt", 1)>>), AK("BIGINT", 1, <<N("Unsigned"), Mk("BigInt", 1)>>),
              AK("REAL", 1, <<N("Unsigned"), Mk("Real", 1)>>), AK("FLOAT", 1, <<N("Precision"), N("Unsigned"), Mk("Float", 2)>>),
              AK("DOUBLE", 1, <<K("PRECISION"), Mk("Double", 0)>>),
              AK("NUMERIC", 1, <<N("PrecScale"), N("Unsigned"), Mk("Decimal", 3)>>),
              AK("BOOLEAN", 1, <<Mk("Boolean", 0)>>), AK("UUID", 1, <<Mk("UUID", 0)>>), AK("DATE", 1, <<Mk("Date", 0)>>),
              AK("REGCLASS", 1, <<Mk("Regclass", 0)>>), AK("BYTEA", 1, <<Mk("Bytea", 0)>>),
              AK("TIMESTAMP", 1, <<N("Zone"), Mk("Timestamp", 1)>>), AK("TIME", 1, <<N("Zone"), Mk("Time", 1)>>),
              A(<<K("TEXT"), K("[")>>, 1, <<K("TEXT"), Mk("Text", 0), K("["), K("]"), Mk("Array", 1)>>), AK("TEXT", 1, <<Mk("Text", 0)>>),
              AK("VARCHAR", 1, <<N("Precision"), Mk("VarcharType", 1)>>),
              A(<<K("CHAR"), K("VARYING")>>, 1, <<K("CHAR"), K("VARYING"), N("Precision"), Mk("VarcharType", 1)>>),
              A(<<K("CHARACTER"), K("VARYING")>>, 1, <<K("CHARACTER"), K("VARYING"), N("Precision"), Mk("VarcharType", 1)>>),
              AK("CHAR", 1, <<N("Precision"), Mk("CharType", 1)>>), AK("CHARACTER", 1, <<N("Precision"), Mk("CharType", 1)>>),
              A(<<>>, 1, <<ObjectName, Mk("Custom", 1)>>) >>,
  Unsigned |-> Flag("UNSIGNED"),
  Precision |-> << A(<<K("(")>>, 1, Paren(<<Size>>)), E(<<V(Nil)>>) >>,
  PrecScale |-> << A(<<K("(")>>, 1, <<K("("), Size, N("Scale"), K(")")>>), E(<<V(Nil), V(Nil)>>) >>,
  Scale |-> Opt(",", <<Size>>),
  Zone |-> << AK("WITH", 1, <<K("TIME"), K("ZONE"), V(True)>>), AK("WITHOUT", 1, <<K("TIME"), K("ZONE"), V(False)>>), E(<<V(False)>>) >>,

  (* ---- data manipulation ---- *)
  Insert |-> << E(<<K("INTO"), ObjectName, N("InsertRest"), N("OnDuplicate"), Mk("InsertStmt", 4)>>) >>,
  InsertRest |-> << A(<<K("(")>>, 1, Paren(<<N("Names")>>) \o <<N("InsertSourceC")>>), E(<<V(Empty), N("InsertSource")>>) >>,
  InsertSource |-> << A(<<K("VALUES")>>, 0, <<N("Values")>>),
                      A(<<K("SELECT")>>, 1, <<N("QuerySel"), Mk("SubQuerySource", 1)>>),
                      A(<<K("WITH")>>, 1, <<N("QueryWith"), Mk("SubQuerySource", 1)>>) >>,
  InsertSourceC |-> << A(<<K("VALUES")>>, 0, <<N("Values")>>), A(<<>>, 1, <<N("Query"), Mk("SubQuerySource", 1)>>) >>,
  Values |-> << E(<<K("VALUES"), V(Empty), N("Row"), App, N("Rows"), Mk("ConstructorSource", 1)>>) >>,
  Row |-> << E(<<K("("), ExprList, K(")"), Mk("RowValueExpr", 1)>>) >>,
  Rows |-> CommaLoop("Rows", <<N("Row")>>),
  OnDuplicate |-> << A(<<K("ON"), K("DUPLICATE"), K("KEY"), K("UPDATE")>>, 1,
                       <<K("ON"), K("DUPLICATE"), K("KEY"), K("UPDATE"), N("Assignments")>>), E(<<V(Empty)>>) >>,
  Assignments |-> << E(List(<<N("Assignment")>>, "AssignLoop")) >>,
  AssignLoop |-> CommaLoop("AssignLoop", <<N("Assignment")>>),
  Assignment |-> << E(<<W("any"), K("="), Expr, Mk("Assignment", 2)>>) >>,
  Update |-> << E(<<ObjectName, K("SET"), N("Assignments"), N("Where"), Mk("UpdateStmt", 3)>>) >>,
  Delete |-> << E(<<K("FROM"), ObjectName, N("Where"), Mk("DeleteStmt", 2)>>) >>,

  (* ---- data definition ---- *)
  Create |-> << AK("TABLE", 0, <<N("IfNotExists"), ObjectName, N("Elements"), N("Options"), Mk("CreateTableStmt", 4)>>),
                AK("MATERIALIZED", 1, <<V(True), N("View")>>), A(<<K("VIEW")>>, 0, <<V(False), N("View")>>),
                AK("INDEX", 0, <<V(False), N("Index")>>),
                AK("UNIQUE", 1, <<K("INDEX"), V(True), N("Index")>>) >>,
  View |-> << E(<<K("VIEW"), ObjectName, K("AS"), N("Query"), Mk("CreateViewStmt", 3)>>) >>,
  Index |-> << E(<<N("IndexName"), ObjectName, N("Method"), N("IndexCols"), N("Where"), Mk("CreateIndexStmt", 6)>>) >>,
  IndexName |-> << AK("ON", 1, <<V(Nil)>>), E(<<W("any"), K("ON")>>) >>,
  Method |-> Opt("USING", <<W("any")>>),
  IndexCols |-> << A(<<K("(")>>, 0, Paren(<<N("Names")>>)), A(<<>>, 1, <<V(Empty)>>) >>,
  IfNotExists |-> << A(<<K("IF"), K("NOT"), K("EXISTS")>>, 1, <<K("IF"), K("NOT"), K("EXISTS"), V(True)>>), E(<<V(False)>>) >>,
  Elements |-> << A(<<K("(")>>, 0, <<K("("), V(Empty), N("Element"), App, N("ElementLoop"), K(")")>>), A(<<>>, 1, <<V(Empty)>>) >>,
  ElementLoop |-> CommaLoop("ElementLoop", <<N("Element")>>),
  Element |-> << A(<<K("CONSTRAINT")>>, 1, <<N("TableConstraint")>>), A(<<K("PRIMARY")>>, 1, <<N("TableConstraint")>>),
                 A(<<K("CHECK")>>, 1, <<N("TableConstraint")>>), A(<<K("FOREIGN")>>, 1, <<N("TableConstraint")>>),
                 A(<<K("UNIQUE")>>, 1, <<N("TableConstraint")>>), E(<<N("Column")>>) >>,
  TableConstraint |-> << AK("CONSTRAINT", 1, <<W("any"), N("TableSpec"), Mk("TableConstraint", 2)>>),
                         E(<<V(Nil), N("TableSpec"), Mk("TableConstraint", 2)>>) >>,
  TableSpec |-> << AK("PRIMARY", 0, <<K("KEY"), V(True)>> \o Paren(<<N("Names")>>) \o <<Mk("UniqueTableConstraint", 2)>>),
                   AK("UNIQUE", 0, <<N("KeyNoise"), V(False)>> \o Paren(<<N("Names")>>) \o <<Mk("UniqueTableConstraint", 2)>>),
                   AK("FOREIGN", 0, <<K("KEY")>> \o Paren(<<N("Names")>>) \o <<K("REFERENCES"), W("any")>> \o Paren(<<N("Names")>>) \o
                                    <<Mk("ReferenceKeyExpr", 2), Mk("ReferentialTableConstraint", 2)>>),
                   AK("CHECK", 0, Paren(<<Expr>>) \o <<Mk("CheckTableConstraint", 1)>>) >>,
  KeyNoise |-> << AK("KEY", 1, <<>>), E(<<>>) >>,
  Column |-> << E(<<W("any"), N("Type"), V(Nil), V(Empty), V(Empty), N("ColAttrs"), Mk("ColumnDef", 5)>>) >>,
  ColAttrs |-> << AN(<<K("DEFAULT")>>, 1, <<K("DEFAULT"), DSub(0), SetD(3), N("ColAttrs")>>, "nodefault"),
                  AK("AUTO_INCREMENT", 1, <<V(<<"AutoIncrement">>), AppD(1), N("ColAttrs")>>),
                  AK("CONSTRAINT", 1, <<W("any"), N("ColSpec"), Mk("ColumnConstraint", 2), AppD(2), N("ColAttrs")>>),
                  A(<<K("NOT")>>, 1, <<N("ColConstraint")>>), A(<<K("UNIQUE")>>, 1, <<N("ColConstraint")>>),
                  A(<<K("PRIMARY")>>, 1, <<N("ColConstraint")>>), A(<<K("REFERENCES")>>, 1, <<N("ColConstraint")>>),
                  A(<<K("CHECK")>>, 1, <<N("ColConstraint")>>),
                  E(<<>>) >>,
  ColConstraint |-> << E(<<V(Nil), N("ColSpec"), Mk("ColumnConstraint", 2), AppD(2), N("ColAttrs")>>) >>,
  ColSpec |-> << AK("NOT", 0, <<K("NULL"), Mk("NotNullColumnSpec", 0)>>),
                 AK("UNIQUE", 0, <<V(False), Mk("UniqueColumnSpec", 1)>>),
                 AK("PRIMARY", 0, <<K("KEY"), V(True), Mk("UniqueColumnSpec", 1)>>),
                 AK("REFERENCES", 0, <<ObjectName>> \o Paren(<<N("Names")>>) \o <<Mk("ReferencesColumnSpec", 2)>>),
                 AK("CHECK", 0, Paren(<<Expr>>) \o <<Mk("CheckColumnSpec", 1)>>) >>,
  Options |-> << A(<<W("any")>>, 1, <<V(Empty), N("Option"), App, N("OptionLoop")>>), E(<<V(Empty)>>) >>,
  OptionLoop |-> << A(<<K(",")>>, 1, <<K(","), N("Option"), App, N("OptionLoop")>>),
                    A(<<W("any")>>, 1, <<N("Option"), App, N("OptionLoop")>>), E(<<>>) >>,
  Option |-> << AK("ENGINE", 0, <<N("Equal"), W("any"), Mk("MyEngine", 2)>>),
                AK("CHARSET", 0, <<V(False), N("Equal"), W("any"), Mk("MyCharset", 3)>>),
                AK("DEFAULT", 0, <<K("CHARSET"), V(True), N("Equal"), W("any"), Mk("MyCharset", 3)>>) >>,
  Equal |-> Flag("="),
  Alter |-> << E(<<K("TABLE"), ObjectName, N("AlterAction"), Mk("AlterTableStmt", 2)>>) >>,
  AlterAction |-> << A(<<K("ADD"), K("COLUMN")>>, 0, <<K("ADD"), K("COLUMN"), N("Column"), Mk("AddColumnTableAction", 1)>>),
                     AK("ADD", 0, <<N("TableConstraint"), Mk("AddConstraintTableAction", 1)>>),
                     A(<<K("DROP"), K("CONSTRAINT")>>, 0, <<K("DROP"), K("CONSTRAINT"), W("any"), N("Cascade"), Mk("DropConstraintTableAction", 2)>>),
                     A(<<K("DROP"), K("COLUMN")>>, 0, <<K("DROP"), K("COLUMN"), W("any"), N("Cascade"), Mk("RemoveColumnTableAction", 2)>>),
                     A(<<K("ALTER"), K("COLUMN")>>, 0, <<K("ALTER"), K("COLUMN"), W("any"), N("ColAction"), Mk("AlterColumnTableAction", 2)>>) >>,
  ColAction |-> << A(<<K("SET"), K("DEFAULT")>>, 0, <<K("SET"), K("DEFAULT"), DSub(0), Mk("SetDefaultColumnAction", 1)>>),
                   A(<<K("SET"), K("NOT")>>, 0, <<K("SET"), K("NOT"), K("NULL"), Mk("PGSetNotNullColumnAction", 0)>>),
                   A(<<K("DROP"), K("DEFAULT")>>, 0, <<K("DROP"), K("DEFAULT"), Mk("DropDefaultColumnAction", 0)>>),
                   A(<<K("DROP"), K("NOT")>>, 0, <<K("DROP"), K("NOT"), K("NULL"), Mk("PGDropNotNullColumnAction", 0)>>),
                   AK("TYPE", 0, <<N("Type"), Mk("PGAlterDataTypeColumnAction", 1)>>) >>,
  Cascade |-> Flag("CASCADE"),
  Drop |-> << AK("TABLE", 0, <<N("IfExists"), V(Empty), ObjectName, App, N("TableNames"), N("Cascade"), Mk("DropTableStmt", 3)>>),
              AK("INDEX", 0, <<N("Names"), Mk("DropIndexStmt", 1)>>) >>,
  TableNames |-> CommaLoop("TableNames", <<ObjectName>>),
  IfExists |-> << A(<<K("IF"), K("EXISTS")>>, 1, <<K("IF"), K("EXISTS"), V(True)>>), E(<<V(False)>>) >>
]

(* infix operators: precedence, guard, right hand side (the left operand is on the stack) *)
Bin(k, o, q) == [q |-> q, g |-> <<K(k)>>, c |-> 1, r |-> <<K(k), Op(o), Sub(q), Mk("BinaryExpr", 3)>>, not |-> FALSE]
Not2(k) == <<K("NOT"), K(k)>>
InRhs(neg) == << V(neg), K("("), N("InList"), Cap(100) >>
BetweenRhs(neg) == << V(neg), Sub(20), K("AND"), Sub(20), Mk("Between", 4) >>
Infix ==
  << Bin("OR", "Or", 5), Bin("AND", "And", 10),
     [q |-> 17, g |-> <<K("IS"), K("NOT")>>, c |-> 1, r |-> <<K("IS"), K("NOT"), K("NULL"), Mk("IsNotNull", 1), Cap(100)>>, not |-> FALSE],
     [q |-> 17, g |-> <<K("IS")>>, c |-> 1, r |-> <<K("IS"), K("NULL"), Mk("IsNull", 1), Cap(100)>>, not |-> FALSE],
     Bin("=", "Eq", 20), Bin("<>", "NotEq", 20), Bin("<", "Lt", 20), Bin(">", "Gt", 20), Bin("<=", "LtEq", 20), Bin(">=", "GtEq", 20),
     Bin("LIKE", "Like", 20),
     [q |-> 20, g |-> Not2("LIKE"), c |-> 1, r |-> Not2("LIKE") \o <<Op("NotLike"), Sub(20), Mk("BinaryExpr", 3)>>, not |-> TRUE],
     [q |-> 20, g |-> <<K("IN")>>, c |-> 1, r |-> <<K("IN")>> \o InRhs(False), not |-> FALSE],
     [q |-> 20, g |-> Not2("IN"), c |-> 1, r |-> Not2("IN") \o InRhs(True), not |-> TRUE],
     [q |-> 20, g |-> <<K("BETWEEN")>>, c |-> 1, r |-> <<K("BETWEEN")>> \o BetweenRhs(False), not |-> FALSE],
     [q |-> 20, g |-> Not2("BETWEEN"), c |-> 1, r |-> Not2("BETWEEN") \o BetweenRhs(True), not |-> TRUE],
     Bin("+", "Plus", 30), Bin("-", "Minus", 30), Bin("*", "Multiply", 40), Bin("/", "Divide", 40), Bin("%", "Modulus", 40),
     [q |-> 50, g |-> <<K("::")>>, c |-> 1, r |-> <<K("::"), N("Type"), Mk("CastOp", 2), Cap(100)>>, not |-> FALSE] >>

(* what stands between the parentheses of IN, with the closing one *)
InListRules == << A(<<K("SELECT")>>, 1, <<N("QuerySel"), K(")"), Mk("InSubQuery", 3)>>),
                  A(<<K("WITH")>>, 1, <<N("QueryWith"), K(")"), Mk("InSubQuery", 3)>>),
                  E(<<ExprList, K(")"), Mk("InList", 3)>>) >>

(* set operators *)
SetOps ==
  << [q |-> 10, g |-> <<K("UNION")>>, c |-> 1, r |-> <<K("UNION"), V(<<"SetOp", "UnionOperator">>), N("All"), Body(10), Mk("SetOperationExpr", 4)>>],
     [q |-> 10, g |-> <<K("EXCEPT")>>, c |-> 1, r |-> <<K("EXCEPT"), V(<<"SetOp", "ExceptOperator">>), N("All"), Body(10), Mk("SetOperationExpr", 4)>>],
     [q |-> 20, g |-> <<K("INTERSECT")>>, c |-> 1, r |-> <<K("INTERSECT"), V(<<"SetOp", "IntersectOperator">>), N("All"), Body(20), Mk("SetOperationExpr", 4)>>] >>

Alt(n) == IF n = "InList" THEN InListRules ELSE Rules[n]
=============================================================================
