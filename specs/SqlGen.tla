------------------------------- MODULE SqlGen ------------------------------
(* For each part: every derivation from the start symbols of its kind whose cost is at most its fuel and that   *)
(* takes costly alternatives only in its focus (anywhere if that is empty); each finished one is a case.        *)
EXTENDS Sql, Json, TLC
CONSTANTS Parts,    \* set of records [kind, fuel, focus]
          Edits,    \* which edits of each text are judged: subset of {"cut", "drop", "twice", "swap", "unkey", "insert", "copy", "replace"}
          Inserted  \* the tokens inserted or put in place of others
VARIABLES dv, fuel, kind, foc, chk, mut
LOCAL SX == INSTANCE SequencesExt

(* chk: what the invariants need, computed once per case *)
Check(kd, d) == IF Finished(d) THEN LET r == RecogniseAs(StartOf(kd), d.out) IN r.ok /\ r.vals = d.vals /\ ~r.kw
                                    /\ (kd = "Expr" => Interchangeable(StartOf(kd), d.out, d.vals[1])) ELSE TRUE

(* the texts one edit away: t with the place p of the edit; w is the keyword an identifier has replaced *)
Cut(ts, a, b) == SubSeq(ts, 1, a - 1) \o SubSeq(ts, b + 1, Len(ts))
Put(ts, p, xs) == SubSeq(ts, 1, p - 1) \o xs \o SubSeq(ts, p, Len(ts))
InsertedSeq == SX!SetToSeq(Inserted)
EditsAt(ts, p) ==
  (IF "cut" \in Edits /\ p > 1 THEN << [t |-> SubSeq(ts, 1, p - 1), p |-> p, w |-> ""] >> ELSE <<>>)
  \o (IF "drop" \in Edits THEN << [t |-> Cut(ts, p, p), p |-> p, w |-> ""] >> ELSE <<>>)
  \o (IF "twice" \in Edits THEN << [t |-> Put(ts, p, <<ts[p]>>), p |-> p, w |-> ""] >> ELSE <<>>)
  \o (IF "swap" \in Edits /\ p < Len(ts) THEN << [t |-> [ts EXCEPT ![p] = ts[p + 1], ![p + 1] = ts[p]], p |-> p, w |-> ""] >> ELSE <<>>)
  \o (IF "unkey" \in Edits /\ ts[p] \in Keywords THEN << [t |-> [ts EXCEPT ![p] = "id"], p |-> p, w |-> ts[p]] >> ELSE <<>>)
  \o (IF "insert" \in Edits THEN [k \in 1..Len(InsertedSeq) |-> [t |-> Put(ts, p, <<InsertedSeq[k]>>), p |-> p, w |-> ""]] ELSE <<>>)
Distinct(ts) == SX!SetToSeq({ts[k] : k \in 1..Len(ts)})
CopiesAt(ts, p) ==
  (IF "copy" \in Edits THEN LET ds == SelectSeq(Distinct(ts), LAMBDA x : x # ts[p]) IN
     [k \in 1..Len(ds) |-> [t |-> Put(ts, p, <<ds[k]>>), p |-> p, w |-> ""]] ELSE <<>>)
  \o (IF "replace" \in Edits THEN LET rs == SelectSeq(InsertedSeq, LAMBDA x : x # ts[p]) IN
     [k \in 1..Len(rs) |-> [t |-> [ts EXCEPT ![p] = rs[k]], p |-> p, w |-> ""]] ELSE <<>>)
Judge(e) == LET v == Recognise(e.t) IN
  [t |-> e.t, p |-> e.p, w |-> e.w, ok |-> v.ok, kw |-> v.kw, v |-> IF v.ok THEN v.vals[1] ELSE <<"nil">>]
Edited(ts) == SX!FoldLeft(LAMBDA acc, p : SX!FoldLeft(LAMBDA acc2, e : Append(acc2, Judge(e)), acc, EditsAt(ts, p) \o CopiesAt(ts, p)),
                          <<>>, [p \in 1..Len(ts) |-> p])

Init == /\ mut = <<>> /\ chk = TRUE
        /\ \E p \in Parts : /\ kind = p.kind /\ fuel = p.fuel /\ foc = p.focus
                            /\ dv = Norm(Start(StartOf(p.kind)), p.fuel, p.focus)
Next == /\ ~Finished(dv)
        /\ LET os == Open(dv, fuel, foc) IN
           \E i \in 1..Len(os) : dv' = Norm(os[i].s, fuel - os[i].c, foc) /\ fuel' = fuel - os[i].c
        /\ chk' = Check(kind, dv')
        /\ mut' = (IF Finished(dv') /\ Edits # {} THEN Edited(dv'.out) ELSE <<>>)
        /\ UNCHANGED <<kind, foc>>

Result == dv.vals[1]
InvOne == Finished(dv) => Len(dv.vals) = 1
InvYield == Finished(dv) => Yield(dv.out, Result)
InvGrouped == Finished(dv) => Grouped(Result)
InvRecognised == chk
(* what the recogniser accepts of the edited texts has the same properties *)
InvEdits == \A i \in 1..Len(mut) : mut[i].ok => Grouped(mut[i].v) /\ (~mut[i].kw => Yield(mut[i].t, mut[i].v))
Emit == Finished(dv) => PrintT(ToJson([t |-> dv.out, v |-> Result, k |-> kind, m |-> mut, x |-> SX!SetToSeq(Operands(Result))]))
=============================================================================
