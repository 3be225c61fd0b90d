------------------------------- MODULE SqlLong -----------------------------
(* Long lists and deep nestings: what SqlPump found can be repeated any number of times is repeated often, and the      *)
(* recogniser derives the AST.                                                                                           *)
EXTENDS SqlEdits, Json, TLC
CONSTANTS Pumps,      \* sequence of [pre, alpha, core, beta, post]
          Flat, Deep, \* the length of lists and the depth of nestings, in tokens repeated
          Seed, Mutants
VARIABLES num, res
LOCAL SX == INSTANCE SequencesExt

Repeat(n, ts) == IF ts = <<>> THEN <<>> ELSE [k \in 1..n * Len(ts) |-> ts[1 + ((k - 1) % Len(ts))]]
Count(p) == LET l == IF p.beta = <<>> THEN Flat ELSE Deep
                n == l \div (Len(p.alpha) + Len(p.beta))
            IN IF n < 2 THEN 2 ELSE n
Text(p) == p.pre \o Repeat(Count(p), p.alpha) \o p.core \o Repeat(Count(p), p.beta) \o p.post
Init == num \in 1..Len(Pumps) /\ res = <<>>
Next == /\ res = <<>>
        /\ LET ts == Text(Pumps[num]) r == RecogniseAs(<<N("Stmt")>>, ts)
           IN res' = <<ts, r.ok, r.kw, IF r.ok THEN r.vals[1] ELSE Nil, MutLoop(ts, RngStart(Seed, num), Mutants, <<>>).m>>
        /\ UNCHANGED num
Done == res # <<>>
Valid == Done /\ res[2] /\ ~res[3]
(* what may be repeated twice may be repeated often; nothing is lost of it *)
InvRegular == Done => res[2]
InvYield == Valid => Yield(res[1], res[4])
InvGrouped == Valid => Grouped(res[4])
InvMutants == Done => \A i \in 1..Len(res[5]) : res[5][i].ok => Grouped(res[5][i].v) /\ (~res[5][i].kw => Yield(res[5][i].t, res[5][i].v))
Emit == Valid => PrintT(ToJson([t |-> res[1], v |-> res[4], k |-> "Long", n |-> num, m |-> res[5], x |-> SX!SetToSeq(Operands(res[4]))]))
=============================================================================
