-------------------------------- MODULE Sql --------------------------------
(* Derivations of the grammar as a push-down machine, and its recogniser.   *)
EXTENDS Grammar, FiniteSets
LOCAL SX == INSTANCE SequencesExt   \* FoldLeft: iteration that TLC evaluates strictly

LitType == [int |-> "LongValue", dbl |-> "DoubleValue", str |-> "SingleQuotedString", nstr |-> "NationalStringLiteral"]

Top(vs) == vs[Len(vs)]
Butlast(vs) == SubSeq(vs, 1, Len(vs) - 1)
(* the value d below the top, 1 being the topmost *)
At(vs, d) == vs[Len(vs) - d + 1]

(* one action on the value stack; ids are indices of tokens *)
Act(x, vs) ==
  CASE x[1] = "v" -> Append(vs, x[2])
    [] x[1] = "mk" -> LET n == Len(vs) - x[3] IN Append(SubSeq(vs, 1, n), <<x[2]>> \o SubSeq(vs, n + 1, Len(vs)))
    [] x[1] = "app" -> LET f == Butlast(vs) IN Append(Butlast(f), Append(Top(f), Top(vs)))
    [] x[1] = "appd" -> LET f == Butlast(vs) i == Len(f) - x[2] + 1 IN [f EXCEPT ![i] = Append(@, Top(vs))]
    [] x[1] = "setd" -> LET f == Butlast(vs) i == Len(f) - x[2] + 1 IN [f EXCEPT ![i] = Top(vs)]
    [] x[1] = "unwrap" -> Append(Butlast(vs), IF Len(Top(vs)) = 2 THEN Top(vs)[2] ELSE <<"CompoundIdent", Top(vs)>>)
    [] x[1] = "conv" -> Append(Butlast(vs), <<"QualifiedWildcardSelectItem", <<"ObjectName", Top(vs)[2]>>>>)

Actions == {"v", "mk", "app", "appd", "setd", "unwrap", "conv"}
(* the node a terminal stands for; k is its index *)
Leaf(x, k) == CASE x[1] = "w" -> <<"Ident", k>> [] x[1] = "l" -> <<LitType[x[2]], k>>
                [] x[1] = "kv" -> <<x[3], k>> [] x[1] = "size" -> <<"U", k>>
Leaves == {"w", "l", "kv", "size"}
Spell(x) == CASE x[1] = "w" -> "id" [] x[1] = "size" -> "int" [] OTHER -> x[2]

ValueOK(v, vs) == CASE v = "" -> TRUE [] v = "nodefault" -> At(vs, 3)[1] = "nil" [] OTHER -> Top(vs)[1] = v

Choices == {"n", "tail", "dtail", "stail"}
Expand(x) == CASE x[1] = "sub" -> <<N("Prefix"), Tail_(x[2])>>
               [] x[1] = "dsub" -> <<N("Prefix"), DTail(x[2])>>
               [] x[1] = "body" -> <<N("BodyPrimary"), Cap(100), STail(x[2])>>
Ops(x) == IF x[1] = "stail" THEN SetOps ELSE Infix

(* ------------------------------ generation ------------------------------ *)
(* state of a derivation: symbols to be derived, tokens so far, values,     *)
(* the tightest operator that may follow what has been derived              *)
Start(syms) == [stk |-> syms, out |-> <<>>, vals |-> <<>>, cap |-> 100, wait |-> FALSE]

(* a step that is not a choice *)
Step(s, x, rest) ==
  CASE x[1] = "t" -> [s EXCEPT !.stk = rest, !.out = Append(@, x[2])]
    [] x[1] \in Leaves -> [s EXCEPT !.stk = rest, !.out = Append(@, Spell(x)), !.vals = Append(@, Leaf(x, Len(s.out) + 1))]
    [] x[1] = "cap" -> [s EXCEPT !.stk = rest, !.cap = x[2]]
    [] x[1] \in Actions -> [s EXCEPT !.stk = rest, !.vals = Act(x, @)]
    [] OTHER -> [s EXCEPT !.stk = Expand(x) \o rest]
Min2(a, b) == IF a < b THEN a ELSE b

(* focus restricts where costly alternatives are taken: nonterminals, nonterminals with the first terminal, *)
(* "tail" or "stail" (operators); {} is no restriction                                                     *)
InFocus(focus, x, r) ==
  IF focus = {} THEN TRUE ELSE IF x[1] # "n" THEN x[1] \in focus
  ELSE x[2] \in focus \/ (IF r = <<>> THEN FALSE ELSE r[1][1] = "t" /\ (x[2] \o " " \o r[1][2]) \in focus)

(* the alternatives open to a derivation with that much fuel: records [c, s] *)
Open(s, fuel, focus) ==
  LET x == Head(s.stk)
      rest == Tail(s.stk)
  IN IF x[1] = "n"
     THEN LET as == SelectSeq(Alt(x[2]), LAMBDA a: a.m # "r" /\ a.c <= fuel /\ ValueOK(a.v, s.vals) /\ (a.c = 0 \/ InFocus(focus, x, a.r)))
          IN [i \in 1..Len(as) |-> [c |-> as[i].c, s |-> [s EXCEPT !.stk = as[i].r \o rest]]]
     ELSE LET os == SelectSeq(Ops(x), LAMBDA o: o.c <= fuel /\ InFocus(focus, x, o.r) /\ x[2] < o.q /\ o.q <= s.cap /\ (x[1] = "dtail" => ~o.not))
          IN [i \in 1..Len(os) |-> [c |-> os[i].c, s |-> [s EXCEPT !.stk = os[i].r \o <<x>> \o rest]]]
             \o << [c |-> 0, s |-> [s EXCEPT !.stk = rest, !.cap = Min2(@, x[2])]] >>

Naturals_ == [k \in 1..6000 |-> k]
(* all steps up to the next choice among several alternatives *)
Advance(s, fuel, focus) ==
  IF s.wait \/ s.stk = <<>> THEN s
  ELSE IF Head(s.stk)[1] \notin Choices THEN Step(s, Head(s.stk), Tail(s.stk))
  ELSE LET os == Open(s, fuel, focus) IN IF Len(os) = 1 /\ os[1].c = 0 THEN os[1].s ELSE [s EXCEPT !.wait = TRUE]
RECURSIVE NormLoop(_, _, _)
NormLoop(s0, fuel, focus) == IF s0.wait \/ s0.stk = <<>> THEN s0
                      ELSE NormLoop(SX!FoldLeft(LAMBDA s, k : Advance(s, fuel, focus), s0, SubSeq(Naturals_, 1, 40)), fuel, focus)
Norm(s0, fuel, focus) == NormLoop([s0 EXCEPT !.wait = FALSE], fuel, focus)

Finished(s) == s.stk = <<>>

(* ------------------------------ recognition ----------------------------- *)
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE "<eof>"
RECURSIVE GuardFrom(_, _, _, _)
GuardFrom(g, k, ts, i) == IF k > Len(g) THEN TRUE ELSE Matches(g[k], Tok(ts, i + k - 1)) /\ GuardFrom(g, k + 1, ts, i)

Tokens == Punct \cup Classes \cup Keywords \cup {"<eof>"}
(* the alternatives whose guard may match, by nonterminal and next token, in order *)
Predict(as) == [t \in Tokens |-> SelectSeq([k \in 1..Len(as) |-> k],
                  LAMBDA k : as[k].m # "g" /\ (IF as[k].g = <<>> THEN TRUE ELSE Matches(as[k].g[1], t)))]
Table == [n \in DOMAIN Rules \cup {"InList"} |-> Predict(Alt(n))]
PredictOps(os) == [t \in Tokens |-> SelectSeq([k \in 1..Len(os) |-> k], LAMBDA k : Matches(os[k].g[1], t))]
InfixTable == PredictOps(Infix)
SetOpTable == PredictOps(SetOps)
OpTable(x) == IF x[1] = "stail" THEN SetOpTable ELSE InfixTable

AltFits(a, ts, i, vs) == GuardFrom(a.g, 2, ts, i) /\ ValueOK(a.v, vs)

(* one step of the recogniser at token i, which is t; kw notes that a keyword has been read as an identifier *)
RStep(s, ts, x, rest, i, t) ==
  CASE x[1] = "t" -> IF t = x[2] THEN [s EXCEPT !.stk = rest, !.i = i + 1] ELSE [s EXCEPT !.ok = FALSE]
    [] x[1] = "w" -> IF Matches(x, t)
                     THEN [s EXCEPT !.stk = rest, !.i = i + 1, !.vals = Append(@, Leaf(x, i)), !.kw = @ \/ t # "id"]
                     ELSE [s EXCEPT !.ok = FALSE]
    [] x[1] \in Leaves -> IF t = Spell(x) THEN [s EXCEPT !.stk = rest, !.i = i + 1, !.vals = Append(@, Leaf(x, i))]
                          ELSE [s EXCEPT !.ok = FALSE]
    [] x[1] = "cap" -> [s EXCEPT !.stk = rest]
    [] x[1] \in Actions -> [s EXCEPT !.stk = rest, !.vals = Act(x, @)]
    [] x[1] = "n" -> LET fit == SelectSeq(Table[x[2]][t], LAMBDA k : AltFits(Alt(x[2])[k], ts, i, s.vals)) IN
         IF fit = <<>> THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.stk = Alt(x[2])[fit[1]].r \o rest]
    [] x[1] = "dtail" /\ t \in {"NOT", "NULL"} -> [s EXCEPT !.stk = rest]
    [] x[1] \in Choices -> LET fit == SelectSeq(OpTable(x)[t], LAMBDA k : Ops(x)[k].q > x[2] /\ GuardFrom(Ops(x)[k].g, 2, ts, i)) IN
         IF fit = <<>> THEN [s EXCEPT !.stk = rest] ELSE [s EXCEPT !.stk = Ops(x)[fit[1]].r \o <<x>> \o rest]
    [] OTHER -> [s EXCEPT !.stk = Expand(x) \o rest]

Running(s) == s.ok /\ s.stk # <<>>
RECURSIVE RLoop(_, _)
RLoop(s0, ts) ==
  IF ~Running(s0) THEN s0
  ELSE RLoop(SX!FoldLeft(LAMBDA s, k : IF Running(s) THEN RStep(s, ts, Head(s.stk), Tail(s.stk), s.i, Tok(ts, s.i)) ELSE s,
                         s0, SubSeq(Naturals_, 1, Min2(6000, 20 + 8 * Len(ts)))), ts)
(* the verdict on a text: whether it derives from syms, with which values *)
Verdict(s, ts) == [ok |-> s.ok /\ s.i > Len(ts), vals |-> s.vals, kw |-> s.kw, at |-> s.i]
RecogniseAs(syms, ts) == Verdict(RLoop([stk |-> syms, i |-> 1, vals |-> <<>>, kw |-> FALSE, ok |-> TRUE], ts), ts)
(* a whole script; the value is the list of its statements *)
Recognise(ts) == RecogniseAs(<<V(Empty), N("Script")>>, ts)

(* --------------------------- properties of ASTs ------------------------- *)
LeafTypes == {"Ident", "LongValue", "DoubleValue", "SingleQuotedString", "NationalStringLiteral", "BooleanValue", "NullValue", "U"}
ConstTypes == {"nil", "true", "false", "Op", "SetOp", "JoinType", "Unit"}

(* the token indices of the leaves of an AST *)
RECURSIVE LeavesOf(_)
LeavesOf(v) == IF v[1] \in LeafTypes THEN {v[2]} ELSE IF v[1] \in ConstTypes THEN {}
               ELSE UNION {LeavesOf(v[i]) : i \in 2..Len(v)}
RECURSIVE LeafCount(_)
RECURSIVE SumFrom(_, _)
SumFrom(v, i) == IF i > Len(v) THEN 0 ELSE LeafCount(v[i]) + SumFrom(v, i + 1)
LeafCount(v) == IF v[1] \in LeafTypes THEN 1 ELSE IF v[1] \in ConstTypes THEN 0 ELSE SumFrom(v, 2)

ValueTokens(ts) == {i \in 1..Len(ts) : ts[i] \in Classes \cup {"TRUE", "FALSE"}}
(* nothing of the text is left out of the AST, and nothing appears twice: every identifier and literal is one leaf *)
Yield(ts, v) == /\ ValueTokens(ts) \subseteq LeavesOf(v)
                /\ LeafCount(v) = Cardinality(LeavesOf(v))

(* the grouping of an AST agrees with the precedence table *)
OpPrec(o) == CASE o = "Or" -> 5 [] o = "And" -> 10 [] o \in {"Eq", "NotEq", "Lt", "Gt", "LtEq", "GtEq", "Like", "NotLike"} -> 20
               [] o \in {"Plus", "Minus"} -> 30 [] OTHER -> 40
(* how tightly the outermost construct of an expression binds: 100 when it is closed *)
Binds(v) == CASE v[1] = "BinaryExpr" -> OpPrec(v[3][2])
              [] v[1] \in {"IsNull", "IsNotNull"} -> 17
              [] v[1] \in {"InList", "InSubQuery", "Between"} -> 20
              [] v[1] = "CastOp" -> 50   \* e :: t; CAST(e AS t) is closed
              [] OTHER -> 100
(* the loosest construct whose right operand ends the expression *)
RECURSIVE OpenRight(_)
OpenRight(v) == CASE v[1] = "BinaryExpr" -> Min2(OpPrec(v[3][2]), OpenRight(v[4]))
                  [] v[1] = "Between" -> Min2(20, OpenRight(v[5]))
                  [] v[1] = "UnaryExpr" -> Min2(IF v[2][2] = "Not" THEN 15 ELSE 30, OpenRight(v[3]))
                  [] OTHER -> 100
(* the loosest construct whose left operand begins the expression *)
RECURSIVE OpenLeft(_)
OpenLeft(v) == CASE Binds(v) = 100 -> 100 [] OTHER -> Min2(Binds(v), OpenLeft(v[2]))

(* a left operand would otherwise have swallowed the operator; a right operand is tighter than it *)
GroupedHere(v) ==
  CASE v[1] = "BinaryExpr" -> OpenRight(v[2]) >= OpPrec(v[3][2]) /\ OpenLeft(v[4]) > OpPrec(v[3][2])
    [] v[1] \in {"IsNull", "IsNotNull"} -> OpenRight(v[2]) >= 17
    [] v[1] \in {"InList", "InSubQuery"} -> OpenRight(v[2]) >= 20
    [] v[1] = "Between" -> OpenRight(v[2]) >= 20 /\ OpenLeft(v[4]) > 20 /\ OpenLeft(v[5]) > 20
    [] v[1] = "UnaryExpr" -> OpenLeft(v[3]) > (IF v[2][2] = "Not" THEN 15 ELSE 30)
    [] v[1] = "SetOperationExpr" ->
         LET q(w) == IF w[1] # "SetOperationExpr" THEN 100 ELSE IF w[3][2] = "IntersectOperator" THEN 20 ELSE 10
         IN q(v[2]) >= q(v) /\ q(v[5]) > q(v)
    [] OTHER -> TRUE
RECURSIVE Grouped(_)
Grouped(v) == IF v[1] \in LeafTypes \cup ConstTypes THEN TRUE
              ELSE GroupedHere(v) /\ \A i \in 2..Len(v) : Grouped(v[i])
(* ------------------------ interchangeable leaves ------------------------ *)
(* where an identifier stands for a whole operand, a literal may stand as well: the AST differs in that leaf only *)
ExprFields(v) == CASE v[1] = "BinaryExpr" -> {2, 4} [] v[1] = "UnaryExpr" -> {3} [] v[1] = "Between" -> {2, 4, 5} [] v[1] = "Assignment" -> {3}
                   [] v[1] \in {"IsNull", "IsNotNull", "InList", "InSubQuery", "Nested", "Cast", "CastOp", "UnnamedSelectItem", "OrderByExpr"} -> {2}
                   [] OTHER -> {}
RECURSIVE Operands(_)
Operands(v) == IF v[1] \in LeafTypes \cup ConstTypes THEN {}
               ELSE {v[i][2] : i \in {j \in ExprFields(v) : v[j][1] = "Ident"}} \cup UNION {Operands(v[i]) : i \in 2..Len(v)}
LiteralTokens == <<"int", "TRUE", "str", "NULL", "dbl", "nstr", "FALSE">>
LiteralNodes == <<"LongValue", "BooleanValue", "SingleQuotedString", "NullValue", "DoubleValue", "NationalStringLiteral", "BooleanValue">>
LiteralAt(i) == 1 + (i % 7)
RECURSIVE SubstituteNodes(_, _)
SubstituteNodes(v, S) == CASE v[1] = "Ident" -> IF v[2] \in S THEN <<LiteralNodes[LiteralAt(v[2])], v[2]>> ELSE v
                           [] v[1] \in LeafTypes \cup ConstTypes -> v
                           [] OTHER -> [i \in 1..Len(v) |-> IF i = 1 THEN v[1] ELSE SubstituteNodes(v[i], S)]
SubstituteTokens(ts, S) == [i \in 1..Len(ts) |-> IF i \in S THEN LiteralTokens[LiteralAt(i)] ELSE ts[i]]
Interchangeable(syms, ts, v) == LET S == Operands(v) r == RecogniseAs(syms, SubstituteTokens(ts, S)) IN
  S = {} \/ (r.ok /\ ~r.kw /\ r.vals[1] = SubstituteNodes(v, S))
(* the statement a case is: SELECT of one item, with nothing else, or from some tables *)
SelectOf(item, from) ==
  <<V(Empty), K("SELECT"), V(False), V(Empty)>> \o item \o <<Mk("UnnamedSelectItem", 1), App>> \o from
  \o <<V(Nil), V(Empty), V(Nil), Mk("SQLSelect", 6), V(Empty), V(Nil), Mk("QueryStmt", 4)>>
(* where derivations of the kinds of parts start *)
Column1 == <<V(Empty), W("expr"), App, Unwrap>>
StmtWord == [Insert |-> "INSERT", Update |-> "UPDATE", Delete |-> "DELETE", Create |-> "CREATE", Alter |-> "ALTER", Drop |-> "DROP"]
StmtKinds == DOMAIN StmtWord
StartOf(kd) == CASE kd = "Expr" -> SelectOf(<<Expr>>, <<V(Empty)>>)
                 [] kd = "Query" -> <<N("QuerySel")>>
                 [] kd = "With" -> <<N("QueryWith")>>
                 [] kd = "Table" -> SelectOf(Column1, <<K("FROM"), V(Empty), N("TableRef"), App, N("FromLoop")>>)
                 [] kd = "SetOp" -> <<V(Empty), N("Select"), Cap(100), STail(0), V(Empty), V(Nil), Mk("QueryStmt", 4)>>
                 [] kd = "Type" -> SelectOf(<<K("CAST"), K("(")>> \o Column1 \o <<K("AS"), N("Type"), K(")"), Mk("Cast", 2)>>, <<V(Empty)>>)
                 [] kd = "Column" -> <<K("ALTER"), K("TABLE"), ObjectName, K("ADD"), K("COLUMN"), N("Column"), Mk("AddColumnTableAction", 1), Mk("AlterTableStmt", 2)>>
                 [] kd = "Element" -> <<K("CREATE"), K("TABLE"), V(False), ObjectName, K("("), V(Empty), N("Element"), App, N("ElementLoop"), K(")"), V(Empty), Mk("CreateTableStmt", 4)>>
                 [] kd = "Frame" -> SelectOf(<<V(Empty), W("expr"), App, Mk("ObjectName", 1), K("("), V(Empty), Column1[2], App, K(")"), N("Over"), Mk("Function", 3)>>, <<V(Empty)>>)
                 [] kd \in StmtKinds -> <<K(StmtWord[kd]), N(kd)>>
                 [] OTHER -> <<N("Stmt")>>
=============================================================================
