------------------------------ MODULE Compare ------------------------------
(* Comparing ASTs: two copies of one AST, some of whose places are changed and changed back; after every change they   *)
(* compare equal exactly if every place is the same in both.                                                           *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Places, MaxOps
VARIABLES left, right,   \* by place: whether it is changed
          ops            \* << side, place, whether they are equal afterwards >>
P == 1..Places
Init == left = [p \in P |-> FALSE] /\ right = left /\ ops = <<>>
Same(x, y) == \A p \in P : x[p] = y[p]
ChangeLeft(p) == /\ left' = [left EXCEPT ![p] = ~@] /\ UNCHANGED right
                 /\ ops' = Append(ops, <<1, p, IF Same(left', right) THEN 1 ELSE 0>>)
ChangeRight(p) == /\ right' = [right EXCEPT ![p] = ~@] /\ UNCHANGED left
                  /\ ops' = Append(ops, <<2, p, IF Same(left, right') THEN 1 ELSE 0>>)
Next == Len(ops) < MaxOps /\ \E p \in P : ChangeLeft(p) \/ ChangeRight(p)

(* a place that was changed an odd number of times in all is a difference *)
Times(p) == Len(SelectSeq(ops, LAMBDA o : o[2] = p))
InvParity == \A p \in P : (left[p] # right[p]) <=> Times(p) % 2 = 1
(* two changes of the same kind: equal again *)
InvPairs == Len(ops) = 2 => ((ops[2][3] = 1) <=> ops[1][2] = ops[2][2])
Emit == Len(ops) = MaxOps => PrintT(ToJson([ops |-> ops]))
=============================================================================
