------------------------------- MODULE Calls -------------------------------
(* One parser used piece by piece: a text made of statements, expressions,   *)
(* types, semicolons and stray tokens, and calls of the entry points one     *)
(* after another. The state of the parser is the next token; a call that     *)
(* succeeds moves it behind exactly what it returns.                         *)
EXTENDS Sql, Rng, Json, TLC
CONSTANTS Seed, Cases, Fuel, MaxChunks, MaxCalls
LOCAL SX == INSTANCE SequencesExt
VARIABLES num, rng, dv, fuel,
          chunks,  \* where the chunks end, and the kinds they were derived from
          pos,     \* the next token of the parser; 0 before the first call and after a call that fails
          calls    \* the calls with what they return

Kinds == << <<"expr", <<Expr>>>>, <<"type", <<N("Type")>>>>, <<"stmt", <<N("QuerySel")>>>>, <<";", <<K(";")>>>>, <<"expr", <<Expr>>>>,
            <<"stmt", <<N("Stmt")>>>>, <<"type", <<N("Type")>>>>, <<";", <<K(";")>>>>, <<"stmt", <<N("QueryWith")>>>>, <<"stmt", <<K("INSERT"), N("Insert")>>>>,
            <<"expr", <<Expr>>>>, <<"stmt", <<K("CREATE"), N("Create")>>>>, <<"stmt", <<K("ALTER"), N("Alter")>>>>, <<"stray", <<K(")")>>>>,
            <<"stmt", <<K("DROP"), N("Drop")>>>>, <<"expr", <<Expr>>>>, <<"stmt", <<K("UPDATE"), N("Update")>>>>, <<"stmt", <<K("DELETE"), N("Delete")>>>> >>
Entry == [stmt |-> <<N("Stmt")>>, expr |-> <<Expr>>, type |-> <<N("Type")>>, sql |-> <<V(Empty), N("Script")>>]
Entries == <<"stmt", "expr", "type", "sql">>

NChunks(n) == 1 + (n % MaxChunks)
Init == /\ num \in 1..Cases /\ rng = RngStart(Seed, num) /\ dv = [Start(<<>>) EXCEPT !.vals = <<>>] /\ fuel = 0
        /\ chunks = <<>> /\ pos = 1 /\ calls = <<>>
Complete == Finished(dv) /\ Len(chunks) = NChunks(num)
Begin == /\ Finished(dv) /\ Len(chunks) < NChunks(num)
         /\ LET r1 == RngNext(rng) r2 == RngNext(r1) kd == Kinds[1 + RngVal(r2, Len(Kinds))] IN
            /\ rng' = r2 /\ fuel' = RngVal(r1, Fuel + 1)
            /\ chunks' = Append(chunks, [kind |-> kd[1], from |-> Len(dv.out) + 1])
            /\ dv' = Norm([dv EXCEPT !.stk = kd[2], !.cap = 100], RngVal(r1, Fuel + 1), {})
         /\ UNCHANGED <<num, pos, calls>>
Pick(os, r, r2) ==
  LET plain == SelectSeq(os, LAMBDA o : o.c = 0)
  IN IF RngVal(r, 5) < 2 /\ plain # <<>> THEN plain[1 + RngVal(r2, Len(plain))] ELSE os[1 + RngVal(r2, Len(os))]
Derive == /\ ~Finished(dv)
          /\ LET r1 == RngNext(rng)
                 r2 == RngNext(r1)
                 o == Pick(Open(dv, fuel, {}), r1, r2)
             IN fuel' = fuel - o.c /\ dv' = Norm(o.s, fuel - o.c, {}) /\ rng' = r2
          /\ UNCHANGED <<num, chunks, pos, calls>>

(* the call that suits the next token, if a chunk begins there *)
Suited(p, r) == LET here == SelectSeq(chunks, LAMBDA ch : ch.from = p)
                    any == Entries[1 + RngVal(r, 4)]
                IN IF here = <<>> THEN any
                   ELSE IF here[1].kind \in DOMAIN Entry THEN here[1].kind ELSE IF here[1].kind = ";" THEN "sql" ELSE any
Run(e, p) == RLoop([stk |-> Entry[e], i |-> p, vals |-> <<>>, kw |-> FALSE, ok |-> TRUE], dv.out)
Call == /\ Complete /\ pos > 0 /\ Len(calls) < MaxCalls
        /\ LET r1 == RngNext(rng) r2 == RngNext(r1)
               e == IF RngVal(r1, 8) = 0 THEN Entries[1 + RngVal(r2, 4)] ELSE Suited(pos, r2)
               s == Run(e, pos)
               ok == IF e = "sql" THEN s.ok /\ s.i > Len(dv.out) ELSE s.ok
           IN /\ rng' = r2
              /\ calls' = Append(calls, [entry |-> e, from |-> pos, to |-> IF ok THEN s.i - 1 ELSE 0, ok |-> ok, kw |-> s.kw,
                                         at |-> s.i, v |-> IF ok THEN s.vals[1] ELSE <<"nil">>])
              /\ pos' = IF ok /\ ~s.kw THEN s.i ELSE 0
        /\ UNCHANGED <<num, dv, fuel, chunks>>
Next == Begin \/ Derive \/ Call

Done == Complete /\ (pos = 0 \/ Len(calls) = MaxCalls)
(* the calls that succeed partition the beginning of the text, and each node is made of the tokens of its call *)
InvPartition == \A k \in 1..Len(calls) : /\ calls[k].from = IF k = 1 THEN 1 ELSE calls[k - 1].to + 1
                                         /\ calls[k].ok => LeavesOf(calls[k].v) \subseteq calls[k].from..calls[k].to
InvYield == \A k \in 1..Len(calls) : (calls[k].ok /\ ~calls[k].kw) =>
              LET c == calls[k] IN {i \in ValueTokens(dv.out) : i \in c.from..c.to} \subseteq LeavesOf(c.v)
(* a statement or a script after nothing is what a parser of that text alone makes of it *)
InvAlone == \A k \in 1..Len(calls) : (calls[k].ok /\ calls[k].entry = "stmt") =>
              LET s == RecogniseAs(Entry["stmt"], SubSeq(dv.out, 1, calls[k].to)) IN calls[k].from = 1 => s.ok /\ s.vals = <<calls[k].v>>
(* nothing but an empty script succeeds at the end *)
InvEnd == \A k \in 1..Len(calls) : (calls[k].from > Len(dv.out) /\ calls[k].ok) => calls[k].entry = "sql" /\ calls[k].v = Empty
Emit == Done => PrintT(ToJson([t |-> dv.out, n |-> num, calls |-> calls]))
=============================================================================
