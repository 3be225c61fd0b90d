------------------------------ MODULE SqlRand ------------------------------
(* Sampled derivations: behaviour num follows one derivation, the choices   *)
(* being drawn by the seeded generator; Mutants edits of the finished text  *)
(* are judged by the recogniser.                                            *)
EXTENDS SqlEdits, Json, TLC
CONSTANTS Seed, Cases, Fuel, Mutants, StartSyms
LOCAL SX == INSTANCE SequencesExt
VARIABLES num, rng, dv, fuel, mut

KindSeq == CASE StartSyms = "Expr" -> << <<"Expr", SelectOf(<<Expr>>, <<V(Empty)>>)>> >>
   [] StartSyms = "Stmt" ->
      << <<"Select", <<N("QuerySel")>>>>, <<"Create", <<K("CREATE"), N("Create")>>>>, <<"Select", <<N("QuerySel")>>>>,
         <<"With", <<N("QueryWith")>>>>, <<"Insert", <<K("INSERT"), N("Insert")>>>>, <<"Alter", <<K("ALTER"), N("Alter")>>>>,
         <<"Create", <<K("CREATE"), N("Create")>>>>, <<"Update", <<K("UPDATE"), N("Update")>>>>, <<"Stmt", <<N("Stmt")>>>>,
         <<"Select", <<N("QuerySel")>>>>, <<"Delete", <<K("DELETE"), N("Delete")>>>>, <<"Drop", <<K("DROP"), N("Drop")>>>>,
         <<"Element", StartOf("Element")>>, <<"Frame", StartOf("Frame")>>, <<"Table", StartOf("Table")>>, <<"Element", StartOf("Element")>>,
         <<"Column", StartOf("Column")>>, <<"Type", StartOf("Type")>> >>
KindOf(n) == KindSeq[1 + (n % Len(KindSeq))]

(* every second choice takes a plain alternative, the others any; the fuel a case starts with varies *)
FuelOf(n, r) == 1 + RngVal(r, Fuel)
Pick(os, r, r2) ==
  LET plain == SelectSeq(os, LAMBDA o : o.c = 0)
  IN IF RngVal(r, 5) < 2 /\ plain # <<>> THEN plain[1 + RngVal(r2, Len(plain))] ELSE os[1 + RngVal(r2, Len(os))]

StartRng(n) == RngStart(Seed, n)
Init == /\ num \in 1..Cases
        /\ rng = StartRng(num)
        /\ fuel = FuelOf(num, StartRng(num))
        /\ dv = Norm(Start(KindOf(num)[2]), FuelOf(num, StartRng(num)), {})
        /\ mut = <<>>
Derive == /\ ~Finished(dv)
          /\ LET r1 == RngNext(rng)
                 r2 == RngNext(r1)
                 o == Pick(Open(dv, fuel, {}), r1, r2)
             IN /\ fuel' = fuel - o.c
                /\ dv' = Norm(o.s, fuel - o.c, {})
                /\ rng' = r2
          /\ UNCHANGED <<num, mut>>
Mutate == /\ Finished(dv) /\ mut = <<>> /\ Mutants > 0
          /\ LET m == MutLoop(dv.out, rng, Mutants, <<>>) IN mut' = m.m /\ rng' = m.r
          /\ UNCHANGED <<num, dv, fuel>>
Next == Derive \/ Mutate

Done == Finished(dv) /\ (Mutants > 0 => mut # <<>>)
Result == dv.vals[1]
InvYield == Done => Yield(dv.out, Result)
InvGrouped == Done => Grouped(Result)
InvRecognised == Done => LET v == RecogniseAs(KindOf(num)[2], dv.out) IN v.ok /\ v.vals = dv.vals /\ ~v.kw
InvInterchangeable == Done => Interchangeable(<<N("Stmt")>>, dv.out, Result)
(* what the recogniser accepts of the edited texts has the same properties *)
InvMutants == Done => \A i \in 1..Len(mut) : mut[i].ok => Grouped(mut[i].v) /\ (~mut[i].kw => Yield(mut[i].t, mut[i].v))
Emit == Done => PrintT(ToJson([t |-> dv.out, v |-> Result, k |-> KindOf(num)[1], n |-> num, m |-> mut, x |-> SX!SetToSeq(Operands(Result))]))
=============================================================================
