------------------------------ MODULE SqlSpans -----------------------------
(* Where the nodes of an AST stand: the recogniser, noting for every node it makes the tokens from the first to the   *)
(* last that belong to it. A node begins where the alternative that makes it begins, or where its first part does if  *)
(* that is earlier (left recursion).                                                                                   *)
EXTENDS Sql
LOCAL SX == INSTANCE SequencesExt

(* the alternatives of these go on with what has been begun before *)
Continued == {"Insert", "Update", "Delete", "Create", "Alter", "Drop", "View", "Index", "LimitValue"}
(* nodes within a larger alternative, which begin with their first part *)
FromPart == {"ReferenceKeyExpr", "TableJoinElement"}

Stamp(r, st) == [k \in 1..Len(r) |-> IF r[k][1] = "mk" \/ (IF r[k][1] = "n" THEN r[k][2] \in Continued ELSE FALSE) THEN Append(r[k], st) ELSE r[k]]
Earliest(S) == LET P == S \ {0} IN IF P = {} THEN 0 ELSE CHOOSE a \in P : \A b \in P : a <= b
(* constants have tokens of their own: the one or two that were read last, or the next *)
ConstName(v) == CASE v[1] = "Op" -> "Operator" [] v[1] = "SetOp" -> v[2] [] v[1] = "Unit" -> "WindowFrameUnit"
                  [] v[1] \in {"Wildcard", "AutoIncrement", "JoinType"} -> v[1] [] OTHER -> ""
OfTwo == {<<"Op", "NotLike">>} \cup {<<"JoinType", t>> : t \in {"LEFTOUTER", "RIGHTOUTER", "FULLOUTER"}}
ToCome == {<<"JoinType", "IMPLICIT">>}
Place(v, i) == IF ConstName(v) = "" THEN 0 ELSE IF v \in OfTwo THEN i - 2 ELSE IF v \in ToCome THEN i ELSE i - 1
(* where the values begin after an action; 0 for what has no tokens *)
Begin(x, at, i) ==
  CASE x[1] = "v" -> Append(at, Place(x[2], i))
    [] x[1] = "mk" -> LET n == Len(at) - x[3]
                          parts == {at[k] : k \in n + 1..Len(at)}
                      IN Append(SubSeq(at, 1, n), Earliest(IF x[2] \in FromPart THEN parts ELSE parts \cup {x[4]}))
    [] x[1] = "app" -> LET f == Butlast(at) IN Append(Butlast(f), IF Top(f) = 0 THEN Top(at) ELSE Top(f))
    [] x[1] \in {"appd", "setd"} -> LET f == Butlast(at) k == Len(f) - x[2] + 1 IN [f EXCEPT ![k] = IF @ = 0 THEN Top(at) ELSE @]
    [] OTHER -> at
Noted(x, at, i, vals) ==
  CASE x[1] = "mk" -> << <<IF x[2] = "CastOp" THEN "Cast" ELSE x[2], Top(at), i - 1>> >>
    [] x[1] = "v" -> IF Top(at) = 0 THEN <<>> ELSE << <<ConstName(x[2]), Top(at), IF x[2] \in ToCome THEN i ELSE i - 1>> >>
    [] x[1] = "unwrap" -> IF Len(Top(vals)) = 2 THEN <<>> ELSE << <<"CompoundIdent", Top(at), i - 1>> >>
    [] x[1] = "conv" -> << <<"QualifiedWildcardSelectItem", Top(at), i - 1>>, <<"ObjectName", Top(at), i - 3>> >>
    [] OTHER -> <<>>
SStep(s, ts) ==
  LET x == Head(s.stk)
      rest == Tail(s.stk)
      s2 == RStep(s, ts, x, rest, s.i, Tok(ts, s.i))
      new(st) == [s2 EXCEPT !.stk = Stamp(SubSeq(s2.stk, 1, Len(s2.stk) - Len(rest)), st) \o rest]
  IN IF ~s2.ok THEN s2
     ELSE CASE x[1] = "n" -> new(IF Len(x) = 3 THEN x[3] ELSE s.i)
            [] x[1] \in Choices -> new(s.i)
            [] x[1] \in Leaves -> [s2 EXCEPT !.at = Append(@, s.i)]
            [] x[1] \in Actions -> LET at == Begin(x, s.at, s.i) IN [s2 EXCEPT !.at = at, !.spans = (IF x[1] = "conv" THEN Butlast(@) ELSE @) \o Noted(x, at, s.i, s.vals)]
            [] OTHER -> s2
RECURSIVE SLoop(_, _)
SLoop(s0, ts) ==
  IF ~Running(s0) THEN s0
  ELSE SLoop(SX!FoldLeft(LAMBDA s, k : IF Running(s) THEN SStep(s, ts) ELSE s, s0, SubSeq(Naturals_, 1, Min2(6000, 20 + 8 * Len(ts)))), ts)
(* the nodes of a script: << type, first token, last token >> *)
Spans(ts) == LET s == SLoop([stk |-> <<V(Empty), N("Script")>>, i |-> 1, vals |-> <<>>, kw |-> FALSE, ok |-> TRUE, at |-> <<>>, spans |-> <<>>], ts)
             IN [ok |-> s.ok /\ s.i > Len(ts) /\ ~s.kw, spans |-> s.spans]
=============================================================================
