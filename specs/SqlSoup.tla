------------------------------ MODULE SqlSoup ------------------------------
(* Token sequences, with the recogniser's verdict: what is viable, starting from the contexts, is extended by every    *)
(* token of the alphabet, up to MaxDepth times. A sequence is viable if the recogniser fails only at its end, and       *)
(* reads no keyword as an identifier.                                                                                   *)
EXTENDS Sql, Json, TLC
CONSTANTS Contexts,   \* set of token sequences
          Alphabet, MaxDepth
VARIABLES text, depth, m
LOCAL SX == INSTANCE SequencesExt

AlphabetSeq == SX!SetToSeq(Alphabet)
(* tokens that begin a guard of several ones: the recogniser fails before them when the others are missing *)
Leading == UNION {{a.g[1][2] : a \in {Alt(n)[k] : k \in {j \in 1..Len(Alt(n)) : Len(Alt(n)[j].g) > 1 /\ Alt(n)[j].m # "g"}}} : n \in DOMAIN Rules}
           \cup {Infix[k].g[1][2] : k \in {j \in 1..Len(Infix) : Len(Infix[j].g) > 1}}
Judge(t) == LET v == Recognise(t) IN
  [t |-> t, ok |-> v.ok, kw |-> v.kw, v |-> IF v.ok THEN v.vals[1] ELSE <<"nil">>,
   dead |-> ~v.ok /\ v.at <= Len(t) /\ t[Len(t)] \notin Leading,
   go |-> ~v.kw /\ (v.at > Len(t) \/ (v.at = Len(t) /\ t[Len(t)] \in Leading))]
Judged(ts) == SX!FoldLeft(LAMBDA acc, a : Append(acc, Judge(Append(ts, a))), <<>>, AlphabetSeq)

Init == text \in Contexts /\ depth = 0 /\ m = <<>>
Extend == m = <<>> /\ m' = Judged(text) /\ UNCHANGED <<text, depth>>
Choose == /\ m # <<>> /\ depth + 1 < MaxDepth
          /\ \E k \in 1..Len(m) : m[k].go /\ text' = m[k].t
          /\ depth' = depth + 1 /\ m' = <<>>
Next == Extend \/ Choose

(* what is accepted is grouped by the precedences and keeps every identifier and literal *)
InvAccepted == \A k \in 1..Len(m) : m[k].ok => Grouped(m[k].v) /\ (~m[k].kw => Yield(m[k].t, m[k].v))
(* a sequence that fails inside stays malformed, whatever follows: extending one by any token that begins something *)
InvDead == \A k \in 1..Len(m) : (k % 17 = 0 /\ m[k].dead) => \A a \in {")", "id", ",", ";"} : ~Recognise(Append(m[k].t, a)).ok
(* r: the tokens after which it is no statement *)
Accepted == SelectSeq(m, LAMBDA x : x.ok)
Rejected == SelectSeq([k \in 1..Len(m) |-> IF m[k].ok THEN "" ELSE AlphabetSeq[k]], LAMBDA a : a # "")
Emit == m # <<>> => PrintT(ToJson([t |-> text, v |-> <<"nil">>, k |-> "Soup", r |-> Rejected,
                                   m |-> [k \in 1..Len(Accepted) |-> [t |-> Accepted[k].t, ok |-> TRUE, kw |-> Accepted[k].kw, v |-> Accepted[k].v]]]))
=============================================================================
