------------------------------- MODULE Edits -------------------------------
(* Every sequence of edits of a list during one traversal: before and after the children of each element, up to    *)
(* MaxOps edits at a time, a deletion last. Each behaviour is a case: the script and the list it must leave behind. *)
EXTENDS Traverse, Json, TLC
CONSTANTS MaxLen, MaxOps, MaxTotal
VARIABLES size, list, idx, phase, cur, script, visits, used

(* the k-th edit of a behaviour brings in the node 100 + k *)
OpSeqs(u) == UNION {{s \in [1..n -> {"R", "D", "B", "A"}] : \A k \in 1..n : s[k] = "D" => k = n} : n \in 0..(IF u + MaxOps > MaxTotal THEN MaxTotal - u ELSE MaxOps)}
Numbered(s, u) == [k \in 1..Len(s) |-> <<s[k], IF s[k] = "D" THEN 0 ELSE 100 + u + k>>]

Init == size \in 0..MaxLen /\ list = [k \in 1..size |-> k] /\ idx = 1 /\ phase = "pre" /\ cur = 0 /\ script = <<>> /\ visits = <<>> /\ used = 0
Pre == /\ phase = "pre" /\ idx <= Len(list)
       /\ \E s \in OpSeqs(used) :
            LET ops == Numbered(s, used) st == EditAll([ns |-> list, i |-> idx, cur |-> list[idx]], ops) IN
            /\ list' = st.ns /\ cur' = st.cur /\ idx' = st.i /\ used' = used + Len(s)
            /\ script' = Append(script, ops) /\ visits' = Append(visits, <<"pre", list[idx], idx - 1>>)
       /\ phase' = "post" /\ UNCHANGED size
(* the inserted nodes behind the element, by pre and by post, are not visited *)
Behind(ops) == Cardinality({k \in 1..Len(ops) : ops[k][1] = "A"})
Post == /\ phase = "post"
        /\ \E s \in IF cur = 0 THEN {<<>>} ELSE OpSeqs(used) :
             LET ops == Numbered(s, used)
                 st == IF cur = 0 THEN [ns |-> list, i |-> idx, cur |-> 0] ELSE EditAll([ns |-> list, i |-> idx, cur |-> cur], ops)
             IN /\ list' = st.ns /\ used' = used + Len(s)
                /\ idx' = (IF st.cur = 0 THEN st.i ELSE st.i + 1) + Behind(script[Len(script)]) + Behind(ops)
                /\ script' = Append(script, ops)
                /\ visits' = Append(visits, <<"post", Last(visits)[2], IF cur = 0 THEN -1 ELSE idx - 1>>)
        /\ phase' = "pre" /\ cur' = 0 /\ UNCHANGED size
Next == Pre \/ Post
Done == phase = "pre" /\ idx > Len(list)

(* every original element is visited once, in order, and nothing else is *)
InvVisits == Done => [k \in 1..Len(visits) |-> <<visits[k][1], visits[k][2]>>]
                     = [k \in 1..2 * size |-> <<IF k % 2 = 1 THEN "pre" ELSE "post", (k + 1) \div 2>>]
(* what the script means: each element or its last replacement unless deleted, between what was put before and after it *)
Puts(ops, op) == SelectSeq(ops, LAMBDA o : o[1] = op)
Ids(ops) == [k \in 1..Len(ops) |-> ops[k][2]]
Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) - k + 1]]
Piece(k) == LET ops == script[2 * k - 1] \o script[2 * k]
                rs == Puts(ops, "R")
            IN Ids(Puts(ops, "B")) \o (IF Puts(ops, "D") # <<>> THEN <<>> ELSE IF rs = <<>> THEN <<k>> ELSE <<rs[Len(rs)][2]>>)
               \o Reverse(Ids(Puts(ops, "A")))
RECURSIVE Pieces(_)
Pieces(k) == IF k > size THEN <<>> ELSE Piece(k) \o Pieces(k + 1)
InvMeaning == Done => list = Pieces(1)
Emit == Done => PrintT(ToJson([size |-> size, script |-> script, visits |-> visits, list |-> list]))
=============================================================================
