-------------------------- MODULE CommentMapTrace --------------------------
(* Comment maps: the groups of a file are attached to its nodes in one sweep over the nodes in the order of Walk.   *)
(* A trace: nodes << pos line, pos column, end line, end column, important >>, groups << the same four >> in source *)
(* order, map: the groups of each node, in the order of the map's lists.                                            *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS TraceFile
VARIABLES num, q,      \* the node of the sweep; after the last one, the end of the file
          k,           \* the next group
          stack,       \* the important nodes that are open
          done,        \* the important node that ended last, 0 if none has
          attached     \* by group, its node
Traces == ndJsonDeserialize(TraceFile)
T == Traces[num]
Before(l1, c1, l2, c2) == l1 < l2 \/ (l1 = l2 /\ c1 < c2)
N == Len(T.nodes)
Q(x) == IF x > N THEN <<1000000, 1000000, 1000000, 1000000, 0>> ELSE T.nodes[x]
Ended(x, l, c) == ~Before(l, c, Q(x)[3], Q(x)[4])

RECURSIVE Pop(_, _, _, _)
(* removes the open nodes that have ended at a position; the outermost of them *)
Pop(s, top, l, c) == IF s = <<>> THEN [s |-> s, top |-> top]
                     ELSE IF Ended(s[Len(s)], l, c) THEN Pop(SubSeq(s, 1, Len(s) - 1), s[Len(s)], l, c)
                     ELSE [s |-> s, top |-> top]

Init == num \in 1..Len(Traces) /\ q = 1 /\ k = 1 /\ stack = <<>> /\ done = 0 /\ attached = <<>>
(* group g follows node x: on its last line, or directly below and apart from what comes next *)
Follows(g, x) == \/ Q(x)[3] = g[1]
                 \/ Q(x)[3] + 1 = g[1] /\ g[3] + 1 < Q(q)[1]
Sweeping == k <= Len(T.groups) /\ q <= N + 1
(* the group lies before node q *)
Due == ~Before(Q(q)[1], Q(q)[2], T.groups[k][3], T.groups[k][4])
Attach == /\ Sweeping /\ Due
          /\ LET g == T.groups[k]
                 p == Pop(stack, 0, g[1], g[2])
                 imp == IF p.top # 0 THEN p.top ELSE done
                 prev == q - 1
             IN /\ stack' = p.s /\ done' = imp
                /\ attached' = Append(attached, CASE imp # 0 /\ Follows(g, imp) -> imp
                                                  [] prev # 0 /\ (Follows(g, prev) \/ q > N) -> prev
                                                  [] OTHER -> q)
          /\ k' = k + 1 /\ UNCHANGED <<num, q>>
Pass == /\ Sweeping /\ ~Due
        /\ stack' = IF Q(q)[5] = 1 THEN Append(Pop(stack, 0, Q(q)[1], Q(q)[2]).s, q) ELSE stack
        /\ q' = q + 1 /\ UNCHANGED <<num, k, done, attached>>
Next == Attach \/ Pass

(* every group to one node of the file; by proximity *)
InvNode == \A i \in 1..Len(attached) : attached[i] \in 1..N
Over == k > Len(T.groups)
RECURSIVE Filter(_, _)
Filter(x, i) == IF i > Len(attached) THEN <<>> ELSE (IF attached[i] = x THEN <<i>> ELSE <<>>) \o Filter(x, i + 1)
Wrong == {x \in 1..N : T.map[x] # Filter(x, 1)}
Emit == Over => PrintT(ToJson([n |-> num, at |-> 0, verdict |-> IF Wrong = {} THEN "ok" ELSE "other groups at some nodes",
                               nodes |-> Wrong, attached |-> attached]))
=============================================================================
