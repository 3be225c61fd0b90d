----------------------------- MODULE TraverseMC ----------------------------
(* Every behaviour of Walk on every small tree, with any visits declined: what the property says holds of the model. *)
EXTENDS Traverse, TLC
CONSTANTS MaxNodes
VARIABLES par, stack, seen, hist, fresh

(* a tree is given by the parents: node k has a parent before it; node 1 is the holder and has one child *)
Parents == UNION {{f \in [2..n -> 1..n] : f[2] = 1 /\ \A k \in 3..n : f[k] > 1 /\ f[k] < k} : n \in 2..MaxNodes}
N == Cardinality(DOMAIN par) + 1
KidSeq(q, x) == LET ks == {k \in DOMAIN q : q[k] = x} IN
  CHOOSE s \in [1..Cardinality(ks) -> ks] : \A a, b \in 1..Cardinality(ks) : a < b => s[a] < s[b]
TreeOf(q) == [x \in 1..Cardinality(DOMAIN q) + 1 |-> << <<"kids", 1, KidSeq(q, x)>> >>]
Tree == TreeOf(par)

Init == par \in Parents /\ stack = WalkStart(TreeOf(par)) /\ seen = {} /\ hist = <<>> /\ fresh = 2
Visit == \E x \in Last(stack).rem, decline \in BOOLEAN :
           /\ CanEnter(stack, x, Last(stack).vis)
           /\ stack' = Enter(Tree, stack, x, IF decline THEN 0 ELSE fresh)
           /\ seen' = seen \cup {<<x, decline>>} /\ hist' = Append(hist, <<x, Last(stack).vis, IF decline THEN 0 ELSE fresh>>)
           /\ fresh' = fresh + 1 /\ UNCHANGED par
Shut == CanClose(stack, Last(stack).vis) /\ stack' = Close(stack) /\ hist' = Append(hist, <<0, Last(stack).vis, 0>>) /\ UNCHANGED <<par, seen, fresh>>
Next == Visit \/ Shut

Visits(x) == {k \in 1..Len(hist) : hist[k][1] = x}
RECURSIVE Ancestors(_)
Ancestors(x) == IF x = 1 THEN {} ELSE {par[x]} \cup Ancestors(par[x])
(* at most one visit; a parent before its children; a visitor returned by the parent's visit *)
InvOnce == \A x \in 2..N : Cardinality(Visits(x)) <= 1
InvParent == \A x \in 3..N : \A k \in Visits(x) : \E j \in Visits(par[x]) : j < k /\ hist[j][3] # 0 /\ hist[j][3] = hist[k][2]
(* all of the traversal: everything below no declined node has been visited, and every open visit is closed after its subtree *)
Over == WalkDone(stack)
InvComplete == Over => \A x \in 2..N : Visits(x) # {} <=> \A a \in Ancestors(x) \ {1} : \A k \in Visits(a) : hist[k][3] # 0
InvNested == Over => \A x \in 2..N : \A k \in Visits(x) : hist[k][3] # 0 =>
               \E c \in k + 1..Len(hist) : /\ hist[c] = <<0, hist[k][3], 0>>
                                           /\ \A d \in k + 1..Len(hist) : hist[d] = <<0, hist[k][3], 0>> => d = c
                                           /\ \A y \in 3..N : x \in Ancestors(y) => \A j \in Visits(y) : k < j /\ j < c
=============================================================================
