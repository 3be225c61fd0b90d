----------------------------- MODULE FirstRand -----------------------------
(* Sampled derivations and edits of them, with the verdict on their beginning: does a statement derive from a prefix?  *)
EXTENDS SqlRand
First(ts) == RLoop([stk |-> <<N("Stmt")>>, i |-> 1, vals |-> <<>>, kw |-> FALSE, ok |-> TRUE], ts)
VerdictOf(m) == LET f == First(m.t) IN [t |-> m.t, script |-> m.ok, first |-> f.ok, len |-> f.i - 1]
(* what derives as a script begins with a statement, unless it is empty or begins with a semicolon *)
InvFirst == Done => \A i \in 1..Len(mut) :
  (IF mut[i].t = <<>> THEN FALSE ELSE mut[i].ok /\ mut[i].t[1] # ";") => First(mut[i].t).ok
EmitFirst == Done => PrintT(ToJson([t |-> dv.out, k |-> KindOf(num)[1], n |-> num, first |-> [i \in 1..Len(mut) |-> VerdictOf(mut[i])]]))
=============================================================================
