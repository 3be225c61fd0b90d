------------------------------ MODULE SqlPump ------------------------------
(* Self-embeddings of the grammar: a derivation reaches a symbol, and, deriving it, the same symbol again, the stack    *)
(* below being longer by what is left of the first. What has been derived in between may then be repeated any number    *)
(* of times:  pre alpha^n core beta^n post.  The recogniser gives its verdict on small n.                               *)
EXTENDS Sql, Json, TLC
CONSTANTS Starts,     \* set of [kind, syms]: where derivations start
          PreFuel, AlphaFuel
VARIABLES dv, fuel, phase, mark, res
LOCAL SX == INSTANCE SequencesExt
vars == <<dv, fuel, phase, mark, res>>

Nothing == [sym |-> <<>>, rest |-> 0, pre |-> 0, alpha |-> 0, below |-> 0]
Init == /\ \E s \in Starts : dv = Norm(Start(s), 9, {})
        /\ fuel = PreFuel /\ phase = "pre" /\ mark = Nothing /\ res = <<>>

Derive(phases, stay) ==
  /\ phase \in phases /\ ~Finished(dv)
  /\ LET os == Open(dv, fuel, {}) IN
     \E i \in 1..Len(os) : /\ Len(os[i].s.stk) >= stay
                           /\ dv' = Norm(os[i].s, 9, {}) /\ fuel' = fuel - os[i].c
  /\ UNCHANGED <<phase, mark, res>>
Mark == /\ phase = "pre" /\ ~Finished(dv)
        /\ mark' = [sym |-> Head(dv.stk), rest |-> Len(dv.stk) - 1, pre |-> Len(dv.out), alpha |-> 0, below |-> 0]
        /\ phase' = "alpha" /\ fuel' = AlphaFuel /\ UNCHANGED <<dv, res>>
(* the same symbol again *)
Again == /\ phase = "alpha"
         /\ IF Finished(dv) THEN FALSE ELSE Head(dv.stk) = mark.sym /\ Len(dv.out) > mark.pre /\ Len(dv.stk) > mark.rest
         /\ mark' = [mark EXCEPT !.alpha = Len(dv.out), !.below = Len(dv.stk) - 1]
         /\ phase' = "finish" /\ UNCHANGED <<dv, fuel, res>>

(* the plainest derivation of what is left, noting where the core and where beta end *)
FStep(s) ==
  IF s.d.stk = <<>> THEN s
  ELSE LET d == s.d
           d2 == IF Head(d.stk)[1] \in Choices THEN Open(d, 0, {})[1].s ELSE Step(d, Head(d.stk), Tail(d.stk))
           s2 == IF s.core < 0 /\ Len(d2.stk) <= mark.below THEN [s EXCEPT !.core = Len(d2.out)] ELSE s
           s3 == IF s2.beta < 0 /\ Len(d2.stk) <= mark.rest THEN [s2 EXCEPT !.beta = Len(d2.out)] ELSE s2
       IN [s3 EXCEPT !.d = d2]
RECURSIVE FLoop(_)
FLoop(s0) == IF s0.d.stk = <<>> THEN s0 ELSE FLoop(SX!FoldLeft(LAMBDA s, k : FStep(s), s0, SubSeq(Naturals_, 1, 40)))

RECURSIVE Times(_, _)
Times(n, ts) == IF n = 0 THEN <<>> ELSE ts \o Times(n - 1, ts)
Pumped(r, n) == r.pre \o Times(n, r.alpha) \o r.core \o Times(n, r.beta) \o r.post
Finish == /\ phase = "finish"
          /\ LET f == FLoop([d |-> [dv EXCEPT !.wait = FALSE], core |-> -1, beta |-> -1])
                 o == f.d.out
                 p == [pre |-> SubSeq(o, 1, mark.pre), alpha |-> SubSeq(o, mark.pre + 1, mark.alpha), core |-> SubSeq(o, mark.alpha + 1, f.core),
                       beta |-> SubSeq(o, f.core + 1, f.beta), post |-> SubSeq(o, f.beta + 1, Len(o)), sym |-> mark.sym]
             IN res' = <<p, <<Recognise(Pumped(p, 0)).ok, Recognise(Pumped(p, 1)).ok, Recognise(Pumped(p, 2)).ok, Recognise(Pumped(p, 3)).ok>>>>
          /\ phase' = "end" /\ UNCHANGED <<dv, fuel, mark>>
Next == \/ Derive({"pre"}, 1) \/ Mark \/ Derive({"alpha"}, mark.rest + 1) \/ Again \/ Finish

Ended == phase = "end"
(* the parts put together are a text of the grammar; nothing is pumped in vain *)
InvText == Ended => res[2][2]
InvGrows == Ended => Len(res[1].alpha) > 0
(* from the second repetition on nothing changes *)
InvRegular == Ended => res[2][3] = res[2][4]
Emit == Ended => PrintT(ToJson([pump |-> res[1], ok |-> res[2]]))
=============================================================================
