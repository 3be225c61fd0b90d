----------------------------- MODULE Instances -----------------------------
(* Tokenizers, parsers and users of ASTs side by side. An instance goes through the operations of its life, one      *)
(* segment at a time; an operation of several segments is under way between them. Instances share the table of       *)
(* keywords, which is complete from the beginning, and users may share an AST. A parser owns the AST that it has      *)
(* made and may edit it in place. All interleavings are explored; whatever the others do, an instance observes what   *)
(* it observes alone.                                                                                                 *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Lives      \* by instance: [name, text, ops]; a text is a sequence of << word, quoted >>
VARIABLES pc, obs, heap, own, table, hist

N == Len(Lives)
Ops(i) == Lives[i].ops
Known == {"select", "from"}
Texts == << << <<"select", FALSE>>, <<"x", FALSE>>, <<"from", FALSE>>, <<"select", TRUE>> >>,
            << <<"select", FALSE>>, <<"from", TRUE>>, <<"from", FALSE>>, <<"x", TRUE>> >> >>

(* the meaning of a word, with the table and without *)
Meaning(w) == IF w[2] THEN <<"identifier", w[1]>> ELSE IF w[1] \in Known THEN <<"keyword", w[1]>> ELSE <<"identifier", w[1]>>
Looked(w, tab) == IF w[2] \/ w[1] \notin DOMAIN tab THEN <<"identifier", w[1]>> ELSE tab[w[1]]
Tokens(t, tab) == [k \in 1..Len(t) |-> Looked(t[k], tab)]

(* what an operation yields, given the table and the AST it works on *)
Result(op, t, tab, ast) == CASE op \in {"read", "token"} -> Tokens(t, tab) [] op = "parse" -> <<"ast", Tokens(t, tab)>>
                             [] op = "edit" -> <<"edited", ast>> [] OTHER -> <<op, ast>>
Ast(t) == <<"ast", [k \in 1..Len(t) |-> Meaning(t[k])]>>
Keywords == [w \in Known |-> <<"keyword", w>>]
Nothing == <<"nothing">>
(* the AST that an instance has after an operation, and what it observes *)
After(op, r, ast) == IF op \in {"parse", "edit"} THEN r ELSE ast

Init == /\ pc = [i \in 1..N |-> 0] /\ obs = [i \in 1..N |-> <<>>] /\ hist = <<>>
        /\ table = Keywords
        /\ heap = [t \in 1..Len(Texts) |-> Ast(Texts[t])]
        /\ own = [i \in 1..N |-> Nothing]
Step(i) ==
  /\ pc[i] < Len(Ops(i))
  /\ LET op == Ops(i)[pc[i] + 1]
         t == Lives[i].text
         ast == IF Lives[i].name = "user" THEN heap[t] ELSE own[i]
         r == Result(op, Texts[t], table, ast)
     IN /\ obs' = [obs EXCEPT ![i] = Append(@, r)]
        /\ own' = [own EXCEPT ![i] = After(op, r, @)]
  /\ pc' = [pc EXCEPT ![i] = @ + 1]
  /\ hist' = Append(hist, i)
  /\ UNCHANGED <<table, heap>>
Next == \E i \in 1..N : Step(i)

RECURSIVE Life(_, _, _, _)
Life(i, k, ast, seen) ==
  IF k > pc[i] THEN seen
  ELSE LET r == Result(Ops(i)[k], Texts[Lives[i].text], Keywords, ast) IN Life(i, k + 1, After(Ops(i)[k], r, ast), Append(seen, r))
Alone(i) == Life(i, 1, IF Lives[i].name = "user" THEN Ast(Texts[Lives[i].text]) ELSE Nothing, <<>>)
InvAlone == \A i \in 1..N : obs[i] = Alone(i)
InvUnchanged == heap = [t \in 1..Len(Texts) |-> Ast(Texts[t])] /\ table = Keywords
Finished == \A i \in 1..N : pc[i] = Len(Ops(i))
Emit == Finished => PrintT(ToJson([lives |-> [i \in 1..N |-> [name |-> Lives[i].name, ops |-> Ops(i)]], hist |-> hist]))
=============================================================================
