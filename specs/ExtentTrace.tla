---------------------------- MODULE ExtentTrace ----------------------------
(* The extents of the nodes of a file. A trace has the number of tokens, the tokens that are identifiers or          *)
(* literals, and the nodes in the order of Walk: << first token, last token, parent, leaf >>; a token is 0 when the    *)
(* node does not begin, or end, at one. leaf: 1 for the nodes that stand for one token.                               *)
(* The trace has also the text and the types of the nodes: the recogniser tells which tokens belong to a node.         *)
(* The sweep takes one node after the other, like a visitor, and keeps the nodes that are open.                       *)
EXTENDS SqlSpans, Json, TLC
CONSTANTS TraceFile
VARIABLES num, x,      \* the next node
          open,        \* its ancestors, outermost first
          taken,       \* by ancestor: the tokens of its children so far
          covered,     \* the tokens of the leaves
          verdict
Traces == ndJsonDeserialize(TraceFile)
T == Traces[num]
Size_ == Len(T.nodes)
First(y) == T.nodes[y][1]
Last(y) == T.nodes[y][2]
(* what the code leaves out of the extents: see DESIGN.md *)
Skipped == {"File"}
LooseFirst == {"QueryStmt", "SubQuerySource", "ConstructorSource", "LimitExpr", "ColumnConstraint", "WindowSpec"}
LooseLast == {"CTE", "CreateTableStmt", "ExplainStmt", "WindowSpec"}
Blank(s) == s[1] = "WindowSpec" /\ s[3] = s[2] + 2   \* OVER ( )
Loose(s) == <<s[1], IF s[1] \in LooseFirst THEN 0 ELSE s[2], IF s[1] \in LooseLast THEN 0 ELSE s[3]>>
Init == num \in 1..Len(Traces) /\ x = 1 /\ open = <<>> /\ taken = <<>> /\ covered = {} /\ verdict = "ok"

Judge(par) ==
  CASE First(x) = 0 -> "does not begin where a token does"
    [] Last(x) = 0 -> "does not end where a token does"
    [] First(x) > Last(x) \/ Last(x) > T.tokens -> "has no extent"
    [] T.nodes[x][4] = 1 /\ First(x) # Last(x) -> "is an identifier or literal, but not one token"
    [] par # 0 /\ (First(x) < First(par) \/ Last(x) > Last(par)) -> "is not within its parent"
    [] par # 0 /\ (First(x)..Last(x)) \cap Top(taken) # {} -> "overlaps its sibling"
    [] OTHER -> "ok"
(* the ancestors of the next node are still open, the others are closed *)
Close == /\ verdict = "ok" /\ x <= Size_ /\ open # <<>> /\ Top(open) # T.nodes[x][3]
         /\ open' = SubSeq(open, 1, Len(open) - 1) /\ taken' = SubSeq(taken, 1, Len(taken) - 1)
         /\ UNCHANGED <<num, x, covered, verdict>>
Enter == /\ verdict = "ok" /\ x <= Size_ /\ (IF open = <<>> THEN TRUE ELSE Top(open) = T.nodes[x][3])
         /\ verdict' = Judge(IF open = <<>> THEN 0 ELSE Top(open))
         /\ open' = Append(open, x)
         /\ taken' = Append(IF taken = <<>> THEN taken ELSE [taken EXCEPT ![Len(taken)] = @ \cup (First(x)..Last(x))], {})
         /\ covered' = IF T.nodes[x][4] = 1 THEN covered \cup {First(x)} ELSE covered
         /\ x' = x + 1 /\ UNCHANGED num
Next == Close \/ Enter

(* whatever has been read so far: the leaves are tokens of their own, and within every open node *)
InvWithin == verdict = "ok" => \A i \in 1..Len(open) : \A j \in i..Len(open) : First(open[i]) <= First(open[j]) /\ Last(open[j]) <= Last(open[i])
(* positions are << line, column >>; the file encloses its comments *)
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Enclosed == \A k \in 1..Len(T.comments) : Before(T.file[1], T.comments[k][1]) /\ Before(T.comments[k][2], T.file[2])
(* the nodes of the types that the grammar makes are where it makes them *)
Where == LET r == Spans(T.text) IN
  IF ~r.ok THEN "tool: the text is not derivable"
  ELSE LET want == {Loose(r.spans[k]) : k \in {j \in 1..Len(r.spans) : r.spans[j][1] \notin Skipped /\ ~Blank(r.spans[j])}}
           got == {Loose(<<T.types[k], First(k), Last(k)>>) : k \in {j \in 1..Size_ : T.types[j] \notin Skipped /\ T.nodes[j][4] = 0}}
       IN IF want = got THEN "ok" ELSE "a node is not where its tokens are: " \o ToString(want \ got) \o " but " \o ToString(got \ want)
Values == {T.values[k] : k \in 1..Len(T.values)}
Over == x > Size_ \/ verdict # "ok"
Final == IF verdict # "ok" THEN verdict ELSE IF ~(Values \subseteq covered) THEN "an identifier or literal belongs to no node"
         ELSE IF ~Enclosed THEN "a comment is not within the file"
         ELSE IF T.text = <<>> THEN "ok" ELSE Where
Emit == Over => PrintT(ToJson([n |-> num, at |-> x - 1, verdict |-> Final, node |-> IF x > 1 THEN T.nodes[x - 1] ELSE <<>>]))
=============================================================================
