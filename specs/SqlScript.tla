----------------------------- MODULE SqlScript -----------------------------
(* Whole scripts: statements separated by semicolons, with empty statements  *)
(* anywhere. Exhaustive over the shape of the script up to MaxItems, the     *)
(* statements being drawn by the seeded generator.                           *)
EXTENDS Sql, Rng, Json, TLC
CONSTANTS Seed, MaxItems, Variants, Fuel,
          Edits     \* number of edited scripts judged per script
VARIABLES shape, num, at, rng, dv, fuel, mut
LOCAL SX == INSTANCE SequencesExt

(* a shape is a sequence of "S" (statement) and ";" in which statements are separated *)
Shapes == {sh \in UNION {[1..n -> {"S", ";"}] : n \in 0..MaxItems} : \A k \in 1..Len(sh) - 1 : sh[k] = ";" \/ sh[k + 1] = ";"}
(* and a few long ones, every third separator being doubled *)
LongShape(n) == [k \in 1..n |-> IF k % 7 \in {1, 3, 5} THEN "S" ELSE ";"]
ShapeSeq == SX!SetToSeq(Shapes) \o <<LongShape(70), LongShape(150)>>
VariantsOf(s) == IF Len(ShapeSeq[s]) > MaxItems THEN 3 ELSE Variants
Fresh == [Start(<<>>) EXCEPT !.vals = <<Empty>>]

KindSeq == << <<N("QuerySel")>>, <<K("CREATE"), N("Create")>>, <<N("QueryWith")>>, <<K("INSERT"), N("Insert")>>, <<K("ALTER"), N("Alter")>>,
              <<K("UPDATE"), N("Update")>>, <<K("DELETE"), N("Delete")>>, <<K("DROP"), N("Drop")>>, <<K("EXPLAIN"), N("Stmt"), Mk("ExplainStmt", 1)>>, <<N("Stmt")>> >>
NKinds == Len(KindSeq)
(* the variants go through every pair of kinds for the first two statements; the others are sampled *)
Before(sh, k) == Cardinality({j \in 1..k - 1 : sh[j] = "S"})
KindAt(sh, k, n, r) == CASE Before(sh, k) = 0 -> KindSeq[1 + (n % NKinds)]
                         [] Before(sh, k) = 1 -> KindSeq[1 + ((n \div NKinds) % NKinds)]
                         [] OTHER -> KindSeq[1 + RngVal(r, NKinds)]

Init == /\ shape \in 1..Len(ShapeSeq) /\ num \in 1..VariantsOf(shape)
        /\ at = 0 /\ rng = RngStart(Seed, shape * 1000 + num) /\ dv = Fresh /\ fuel = 0 /\ mut = <<>>
Sh == ShapeSeq[shape]
Begin == /\ Finished(dv) /\ at < Len(Sh)
         /\ at' = at + 1
         /\ LET r1 == RngNext(rng) r2 == RngNext(r1) IN
            IF Sh[at + 1] = ";"
            THEN dv' = [dv EXCEPT !.out = Append(@, ";")] /\ fuel' = 0 /\ rng' = rng
            ELSE /\ fuel' = RngVal(r1, Fuel + 1) /\ rng' = r2
                 /\ dv' = Norm([dv EXCEPT !.stk = KindAt(Sh, at + 1, num, r2) \o <<App>>, !.cap = 100], RngVal(r1, Fuel + 1), {})
         /\ UNCHANGED <<shape, num, mut>>
Pick(os, r, r2) ==
  LET plain == SelectSeq(os, LAMBDA o : o.c = 0)
  IN IF RngVal(r, 5) < 2 /\ plain # <<>> THEN plain[1 + RngVal(r2, Len(plain))] ELSE os[1 + RngVal(r2, Len(os))]
Derive == /\ ~Finished(dv)
          /\ LET r1 == RngNext(rng)
                 r2 == RngNext(r1)
                 o == Pick(Open(dv, fuel, {}), r1, r2)
             IN fuel' = fuel - o.c /\ dv' = Norm(o.s, fuel - o.c, {}) /\ rng' = r2
          /\ UNCHANGED <<shape, num, at, mut>>

(* edits that damage the separation of the statements *)
Cut(ts, p) == SubSeq(ts, 1, p - 1) \o SubSeq(ts, p + 1, Len(ts))
Put(ts, p, xs) == SubSeq(ts, 1, p - 1) \o xs \o SubSeq(ts, p, Len(ts))
Semis(ts) == SelectSeq([k \in 1..Len(ts) |-> k], LAMBDA k : ts[k] = ";")
Edit(ts, r1, r2) ==
  LET ss == Semis(ts)
  IN CASE RngVal(r1, 4) = 0 /\ ss # <<>> -> Cut(ts, ss[1 + RngVal(r2, Len(ss))])
       [] RngVal(r1, 4) = 1 -> Put(ts, 1 + RngVal(r2, Len(ts) + 1), <<";">>)
       [] RngVal(r1, 4) = 2 /\ ts # <<>> -> Cut(ts, 1 + RngVal(r2, Len(ts)))
       [] OTHER -> ts \o <<SX!SetToSeq({"id", ",", ")", "SELECT", "AS"})[1 + RngVal(r2, 5)]>>
Judge(ts) == LET v == Recognise(ts) IN [t |-> ts, ok |-> v.ok, kw |-> v.kw, v |-> IF v.ok THEN v.vals[1] ELSE <<"nil">>]
Mutate == /\ Finished(dv) /\ at = Len(Sh) /\ mut = <<>> /\ Edits > 0
          /\ LET f == SX!FoldLeft(LAMBDA acc, k : LET r1 == RngNext(acc.r) r2 == RngNext(r1) IN
                                    [m |-> Append(acc.m, Judge(Edit(dv.out, r1, r2))), r |-> r2],
                                  [m |-> <<>>, r |-> rng], [k \in 1..Edits |-> k])
             IN mut' = f.m /\ rng' = f.r
          /\ UNCHANGED <<shape, num, at, dv, fuel>>
Next == Begin \/ Derive \/ Mutate

Done == Finished(dv) /\ at = Len(Sh) /\ (Edits > 0 => mut # <<>>)
Result == dv.vals[1]
(* one value per statement of the shape, in order, and the recogniser splits the text the same way *)
InvCount == Done => Len(Result) - 1 = Cardinality({k \in 1..Len(Sh) : Sh[k] = "S"})
InvYield == Done => Yield(dv.out, Result)
InvOrder == Done => \A i, j \in 2..Len(Result) : i < j => \A a \in LeavesOf(Result[i]), b \in LeavesOf(Result[j]) : a < b
InvRecognised == Done => LET v == Recognise(dv.out) IN v.ok /\ v.vals = dv.vals /\ ~v.kw
Emit == Done => PrintT(ToJson([t |-> dv.out, v |-> Result, k |-> "Script", m |-> mut]))
=============================================================================
