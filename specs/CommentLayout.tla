---------------------------- MODULE CommentLayout --------------------------
(* Where comments belong when every item (statement, column, constraint) has a line of its own: the property in      *)
(* terms of lines. A line is "i" an item, "t" an item with a comment behind it, "c" a comment of its own, "_" blank.  *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxLines, MaxItems
VARIABLES lines
Item(x) == x \in {"i", "t"}
Items(ls) == Cardinality({k \in 1..Len(ls) : Item(ls[k])})
Init == lines = <<>>
Next == /\ Len(lines) < MaxLines
        /\ \E x \in {"i", "t", "c", "_"} : (Item(x) => Items(lines) < MaxItems) /\ lines' = Append(lines, x)

ItemUpTo(k) == Cardinality({j \in 1..k : Item(lines[j])})
(* groups of own-line comments: those with no item between them; the trailing comments are groups of their own *)
OwnStarts == {k \in 1..Len(lines) : lines[k] = "c" /\ \A j \in 1..k - 1 : lines[j] = "c" => \E i \in j + 1..k - 1 : Item(lines[i])}
OwnEnd(k) == CHOOSE e \in k..Len(lines) : lines[e] = "c" /\ (\A j \in k..e : ~Item(lines[j]))
                                          /\ \A j \in e + 1..Len(lines) : lines[j] = "c" => \E i \in e + 1..j - 1 : Item(lines[i])
NextItemLine(k) == {j \in k + 1..Len(lines) : Item(lines[j])}
(* the item a group belongs to: number, or 0 when there is no item after it (then it goes to the last node) *)
Owner(k) ==
  LET e == OwnEnd(k)
      after == NextItemLine(e)
      apart == after = {} \/ lines[e + 1] = "_"
  IN IF k > 1 /\ Item(lines[k - 1]) /\ apart THEN ItemUpTo(k)
     ELSE IF after = {} THEN 0 ELSE ItemUpTo(k) + 1
(* case: the lines, and by line on which a group begins, its owner (-1: no group begins there) *)
Owners == [k \in 1..Len(lines) |-> IF lines[k] = "t" THEN ItemUpTo(k) ELSE IF k \in OwnStarts THEN Owner(k) ELSE -1]
(* a group has one owner, next to it: no item lies between them *)
InvNear == \A k \in 1..Len(lines) : Owners[k] > 0 => Owners[k] \in {ItemUpTo(k), ItemUpTo(k) + 1}
Emit == Items(lines) > 0 /\ (\E k \in 1..Len(lines) : lines[k] \in {"t", "c"}) => PrintT(ToJson([lines |-> lines, owners |-> Owners]))
=============================================================================
