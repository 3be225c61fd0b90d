------------------------------ MODULE Traverse -----------------------------
(* The traversals of an AST: Walk and Inspect, and Apply with its edits.     *)
(* A traversal is a stack of frames, one per node whose visit is open; the   *)
(* children of a node may be visited in any order, each exactly once.        *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[k] : k \in 1..Len(s)}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

(* A tree: a sequence indexed by node of slots << name, isList, nodes >>; a slot that is no list has one node or none. *)
SlotNodes(slots) == UNION {Range(slots[k][3]) : k \in 1..Len(slots)}
Children(tree, x) == SlotNodes(tree[x])
(* node 1 holds the root *)
Holder == 1

(* --------------------------------- Walk --------------------------------- *)
(* a frame: the node, the visitor of its children, the children still to be visited *)
WalkStart(tree) == << [node |-> Holder, vis |-> 1, rem |-> Children(tree, Holder)] >>
(* visiting x with visitor v, which returned r (0: declined) *)
CanEnter(stack, x, v) == x \in Last(stack).rem /\ v = Last(stack).vis
Enter(tree, stack, x, r) ==
  LET s == [stack EXCEPT ![Len(stack)].rem = @ \ {x}]
  IN IF r = 0 THEN s ELSE Append(s, [node |-> x, vis |-> r, rem |-> Children(tree, x)])
(* the closing visit *)
CanClose(stack, v) == Len(stack) > 1 /\ Last(stack).rem = {} /\ v = Last(stack).vis
Close(stack) == Front(stack)
WalkDone(stack) == Len(stack) = 1 /\ stack[1].rem = {}

(* --------------------------------- Apply -------------------------------- *)
(* a frame: the node, what is in its place now (0: deleted), the slot and the index of that place, children still to be visited *)
ApplyStart(tree) == << [node |-> Holder, cur |-> Holder, slot |-> 0, at |-> 0, rem |-> Children(tree, Holder)] >>
SlotOf(tree, p, name) == CHOOSE k \in 1..Len(tree[p]) : tree[p][k][1] = name
HasSlot(tree, p, name) == \E k \in 1..Len(tree[p]) : tree[p][k][1] = name
(* the cursor << parent, name, index >> leads to x; the index of what is in no list is -1 *)
Leads(tree, p, name, index, x) ==
  /\ HasSlot(tree, p, name)
  /\ LET sl == tree[p][SlotOf(tree, p, name)] IN
     IF sl[2] = 1 THEN index + 1 \in 1..Len(sl[3]) /\ sl[3][index + 1] = x
     ELSE index = -1 /\ sl[3] = <<x>>

(* an edit at place i of a list, or of the only place of a slot; the result: the nodes, the place, what is there *)
EditNodes(st, op, y) ==
  CASE op = "R" -> [ns |-> [st.ns EXCEPT ![st.i] = y], i |-> st.i, cur |-> y]
    [] op = "D" -> [ns |-> SubSeq(st.ns, 1, st.i - 1) \o SubSeq(st.ns, st.i + 1, Len(st.ns)), i |-> st.i, cur |-> 0]
    [] op = "B" -> [ns |-> SubSeq(st.ns, 1, st.i - 1) \o <<y>> \o SubSeq(st.ns, st.i, Len(st.ns)), i |-> st.i + 1, cur |-> st.cur]
    [] op = "A" -> [ns |-> SubSeq(st.ns, 1, st.i) \o <<y>> \o SubSeq(st.ns, st.i + 1, Len(st.ns)), i |-> st.i, cur |-> st.cur]
RECURSIVE EditAll(_, _)
(* ops: sequence of << op, node >>; the place is lost once its node is deleted, so that a deletion comes last *)
EditAll(st, ops) == IF ops = <<>> THEN st ELSE EditAll(EditNodes(st, ops[1][1], ops[1][2]), Tail(ops))
LegalOps(isList, ops) == /\ \A k \in 1..Len(ops) : ops[k][1] = "D" => k = Len(ops)
                         /\ \A k \in 1..Len(ops) : isList \/ ops[k][1] = "R"
=============================================================================
