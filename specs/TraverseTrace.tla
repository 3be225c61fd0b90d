--------------------------- MODULE TraverseTrace ---------------------------
(* Is a recorded traversal a behaviour of Traverse? Every trace of the file is judged; the verdict is printed. *)
(* A trace: mode, tree (slots by node, node 1 holding the root), ev.                                            *)
(*   walk:  ev = << node, visitor, returned >>; node 0 is the closing visit                                     *)
(*   apply: ev = << phase, node, parent, name, index, node found there, returned, ops >>; ord: the nodes in the *)
(*          order of Walk; fin: the tree afterwards                                                             *)
EXTENDS Traverse, Json, TLC, IOUtils
CONSTANTS TraceFile
VARIABLES num, at, stack, tree, rank, bad

Traces == ndJsonDeserialize(TraceFile)
T == Traces[num]

Init == /\ num \in 1..Len(Traces)
        /\ at = 1 /\ tree = (IF Traces[num].mode = "walk" THEN <<>> ELSE Traces[num].tree) /\ rank = 0 /\ bad = ""
        /\ stack = IF Traces[num].mode = "walk" THEN WalkStart(Traces[num].tree) ELSE ApplyStart(Traces[num].tree)

Running == bad = "" /\ at <= Len(T.ev)
Fail(why) == bad' = why /\ UNCHANGED <<num, at, stack, tree, rank>>

(* ------------------------------- Walk, Inspect --------------------------- *)
WalkStep ==
  LET e == T.ev[at] x == e[1] IN
  IF x = 0
  THEN IF ~CanClose(stack, e[2]) THEN Fail("a closing visit, but children have not been visited, or by the wrong visitor")
       ELSE stack' = Close(stack) /\ at' = at + 1 /\ UNCHANGED <<num, tree, rank, bad>>
  ELSE IF x < 0 THEN Fail("an absent child, or a node that is not in the tree, is visited")
  ELSE IF x \notin Last(stack).rem THEN Fail("the node is not a child that remains to be visited")
  ELSE IF e[2] # Last(stack).vis THEN Fail("the node is visited by another visitor than its parent's visit returned")
  ELSE stack' = Enter(T.tree, stack, x, e[3]) /\ at' = at + 1 /\ UNCHANGED <<num, tree, rank, bad>>

(* --------------------------------- Apply -------------------------------- *)
RankOf(x) == IF \E k \in 1..Len(T.ord) : T.ord[k] = x THEN CHOOSE k \in 1..Len(T.ord) : T.ord[k] = x ELSE 0
(* the tree, place and node after the edits of an event at slot k, place i of the parent p *)
Edited(p, k, i, c, ops) == EditAll([ns |-> tree[p][k][3], i |-> i, cur |-> c], ops)
PutNodes(p, k, ns) == [tree EXCEPT ![p][k][3] = ns]

Pre(e) ==
  LET x == e[2] p == e[3] IN
  IF x < 0 \/ x \notin Last(stack).rem THEN Fail("pre: the node is not a child that remains to be visited")
  ELSE IF p # Last(stack).node THEN Fail("pre: the parent of the cursor is another node")
  ELSE IF ~Leads(tree, p, e[4], e[5], x) THEN Fail("pre: name and index do not lead to the node in the tree as edited so far")
  ELSE IF e[6] # x THEN Fail("pre: parent, name and index do not lead to the node of the cursor")
  ELSE IF RankOf(x) <= rank THEN Fail("pre: not in the order of Walk")
  ELSE LET k == SlotOf(tree, p, e[4])
           i == IF tree[p][k][2] = 1 THEN e[5] + 1 ELSE 1
       IN IF ~LegalOps(tree[p][k][2] = 1, e[8]) THEN Fail("tool: illegal edits")
          ELSE LET st == Edited(p, k, i, x, e[8])
                   s == [stack EXCEPT ![Len(stack)].rem = @ \ {x}]
               IN /\ tree' = PutNodes(p, k, st.ns) /\ rank' = RankOf(x) /\ at' = at + 1
                  /\ stack' = IF e[7] = 0 THEN s
                              ELSE Append(s, [node |-> x, cur |-> st.cur, slot |-> k, at |-> st.i, rem |-> Children(tree, x)])
                  /\ UNCHANGED <<num, bad>>
Post(e) ==
  LET x == e[2] p == e[3] f == Last(stack) IN
  IF Len(stack) = 1 \/ f.node # x THEN Fail("post: not the node whose visit is open")
  ELSE IF f.rem # {} THEN Fail("post: children have not been visited")
  ELSE IF p # stack[Len(stack) - 1].node THEN Fail("post: the parent of the cursor is another node")
  ELSE IF ~HasSlot(tree, p, e[4]) THEN Fail("post: the parent has no such field")
  ELSE IF SlotOf(tree, p, e[4]) # f.slot THEN Fail("post: another field")
  ELSE IF f.cur # 0 /\ ~Leads(tree, p, e[4], e[5], f.cur) THEN Fail("post: name and index do not lead to the node or its replacement")
  ELSE IF f.cur # 0 /\ e[6] # f.cur THEN Fail("post: parent, name and index do not lead to the node or its replacement")
  ELSE IF f.cur = 0 /\ e[8] # <<>> THEN Fail("tool: edits after a deletion")
  ELSE LET st == Edited(p, f.slot, f.at, f.cur, e[8])
       IN /\ tree' = PutNodes(p, f.slot, st.ns) /\ at' = at + 1
          /\ IF e[7] = 0 /\ at < Len(T.ev) THEN bad' = "post: returned false but the traversal goes on" /\ UNCHANGED stack
             ELSE stack' = (IF e[7] = 0 THEN << [stack[1] EXCEPT !.rem = {}] >> ELSE Front(stack)) /\ UNCHANGED bad
          /\ UNCHANGED <<num, rank>>
ApplyStep == LET e == T.ev[at] IN IF e[1] = 0 THEN Pre(e) ELSE Post(e)

Next == Running /\ (IF T.mode = "walk" THEN WalkStep ELSE ApplyStep)

Ended == ~Running
Verdict == IF bad # "" THEN bad
           ELSE IF ~WalkDone(stack) THEN "the traversal ends although nodes remain to be visited or closed"
           ELSE IF T.mode = "apply" /\ T.fin # tree THEN "the tree afterwards is not the edited one"
           ELSE "ok"
Emit == Ended => PrintT(ToJson([n |-> num, at |-> at, verdict |-> Verdict,
                                diff |-> IF T.mode = "apply" /\ bad = "" THEN {k \in 1..Len(tree) : T.fin[k] # tree[k]} ELSE {}]))
=============================================================================
