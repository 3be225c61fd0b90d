------------------------------ MODULE Comments -----------------------------
(* Grouping of the comments between two tokens of code. What stands there is a sequence of                           *)
(*   "s" blanks, "n" a line terminator, "l" a line comment, "b" a comment within a line, "m" one over several lines.  *)
(* Every such sequence up to a length is a case, after code and at the beginning of the file.                         *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxLen
VARIABLES after,   \* code stands before, on the first line
          gap, groups, open, line

Symbols == {"s", "n", "l", "b", "m"}
IsComment(x) == x \in {"l", "b", "m"}
Ordinal(g, k) == Cardinality({j \in 1..k : IsComment(g[j])})

Init == after \in BOOLEAN /\ gap = <<>> /\ groups = <<>> /\ open = <<>> /\ line = 1
Follows(x) == IF gap = <<>> THEN TRUE
              ELSE LET y == gap[Len(gap)] IN (y = "l" => x = "n") /\ ~(x = "s" /\ y = "s")
(* the scan: a line terminator on a line that code touches ends the open group *)
Take(x) ==
  /\ gap' = Append(gap, x) /\ UNCHANGED after
  /\ line' = line + (IF x \in {"n", "m"} THEN 1 ELSE 0)
  /\ CASE IsComment(x) -> open' = Append(open, Ordinal(gap, Len(gap)) + 1) /\ UNCHANGED groups
       [] x = "n" /\ after /\ line = 1 /\ open # <<>> -> groups' = Append(groups, open) /\ open' = <<>>
       [] OTHER -> UNCHANGED <<groups, open>>
Next == Len(gap) < MaxLen /\ \E x \in Symbols : Follows(x) /\ Take(x)

All == IF open = <<>> THEN groups ELSE Append(groups, open)
(* the property, without the scan: all comments, once, in order ... *)
RECURSIVE Flat(_)
Flat(gs) == IF gs = <<>> THEN <<>> ELSE gs[1] \o Flat(Tail(gs))
InvAll == Flat(All) = [k \in 1..Ordinal(gap, Len(gap)) |-> k]
Place(c) == CHOOSE k \in 1..Len(gap) : IsComment(gap[k]) /\ Ordinal(gap, k) = c
Together(a, b) == \E k \in 1..Len(All) : \E i, j \in 1..Len(All[k]) : All[k][i] = a /\ All[k][j] = b
(* ... and neighbours are together unless the line of the code before ends between them *)
LineEndsAt(k) == gap[k] = "n" /\ \A j \in 1..k - 1 : gap[j] \notin {"n", "m"}
InvSplit == \A c \in 1..Ordinal(gap, Len(gap)) - 1 :
              ~Together(c, c + 1) <=> after /\ \E k \in Place(c) + 1..Place(c + 1) - 1 : LineEndsAt(k)
Emit == PrintT(ToJson([after |-> after, gap |-> gap, groups |-> All]))
=============================================================================
