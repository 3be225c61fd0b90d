----------------------------- MODULE LexerRand -----------------------------
(* Sampled long source texts: each behaviour (id) appends Pieces lexemes    *)
(* and characters drawn by the seeded generator and lets the tokenizer      *)
(* react; the finished text is emitted as a conformance case.               *)
EXTENDS Lexer, Rng, Json

CONSTANTS Seed, N, Pieces

VARIABLES id, k, r, d, src, st

DSeq == <<"generic", "mysql", "postgres", "letters", "wide">>

(* characters of every class, ASCII and beyond, including ones without any meaning *)
Chars == <<0, 1, 9, 10, 13, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47,
           48, 53, 57, 58, 59, 60, 61, 62, 63, 64, 65, 78, 90, 91, 92, 93, 94, 95, 96, 97,
           110, 122, 123, 124, 125, 126, 127, 11, 12, 133, 160, 173, 178, 233, 1635, 8217, 65297, 65313, 8232, 12354, 65279, 65533, 128512>>

Snippets ==
  << <<83,69,76,69,67,84>>,                 \* SELECT
     <<102,114,111,109>>, <<78>>, <<78,117,108,108>>, <<110>>,   \* from N Null n
     <<95,97>>, <<97,95,49>>, <<64,120>>, <<97,36,50>>, <<105,110,39>>,
     <<49,50,51>>, <<49,46,53>>, <<46,53>>, <<49,46,46,50>>, <<48,120,49>>, <<49,101,53>>,
     <<39,97,39>>, <<39,39>>, <<39,105,116,39,39,115,39>>, <<78,39,120,39>>, <<39,10,39>>,
     <<39,13,10,39>>, <<39,9,233,39>>, <<39,45,45,39>>, <<39,59,39>>, <<39>>, <<39,39,39,39>>,
     <<34,97,32,98,34>>, <<34,34>>, <<34,10,34>>, <<34,39,34>>, <<34,34,34,34>>, <<34>>,
     <<96,115,101,108,101,99,116,96>>, <<96>>, <<96,13,96>>, <<96,13,10,34,96>>,
     <<45,45>>, <<45,45,32,97,10>>, <<45,45,32,97,13,10>>, <<45,45,13>>, <<45,45,45>>, <<45>>, <<45,47>>,
     <<47,42>>, <<42,47>>, <<47,42,42,47>>, <<47,42,32,97,10,98,32,42,47>>, <<47,42,42,42,47>>,
     <<47,42,47,42,42,47>>, <<47,42,13,10,13,10,42,47>>, <<47,42,42,10,42,42,47>>, <<47,42,39,42,47>>, <<47,47>>,
     <<47,42,45,45,42,47>>,
     <<60,61>>, <<62,61>>, <<60,62>>, <<33,61>>, <<33>>, <<60,60>>, <<62,62>>, <<61,62>>, <<60,45>>, <<58,58>>, <<58,58,58>>, <<58>>,
     <<13,10>>, <<10,13>>, <<13,13>>, <<9,9>>, <<32,9,32>>, <<10,10>>, <<59>>, <<91,93>>,
     <<233,116,233>>, <<8490>>, <<383,84>>, <<12354,95,49>>, <<97,233,36>>, <<91,97,32,98,93>>, <<91,34,93>>, <<34,91,34>>, <<91,10,91>> >>

Init == /\ id \in 1..N
        /\ k = 0 /\ r = RngStart(Seed, id) /\ src = <<>> /\ st = Start0
        /\ d = DSeq[1 + RngVal(RngStart(Seed, id), 5)]

(* a closing character is preferred while a quoted token or comment is open, *)
(* so that most texts tokenize                                               *)
Closer(s) == CASE s.m \in {"str", "nstr"} -> <<QUOTE>>
               [] s.m = "quoted" -> <<Closing(s.q)>>
               [] s.m \in {"block", "block*"} -> <<STAR, SLASH>>
               [] s.m = "line" -> <<LF>>
               [] OTHER -> <<SP>>

RECURSIVE Feed(_, _, _, _)
Feed(dd, s, p, i) == IF i > Len(p) THEN s ELSE Feed(dd, Step(dd, s, p[i]), p, i + 1)

(* now and then a piece is repeated often: what a token may hold has no bound *)
Times(p, n) == [i \in 1..(IF Len(p) > n THEN Len(p) ELSE n) |-> p[1 + ((i - 1) % Len(p))]]
Long(p, r1) ==
  LET few == Len(Feed(d, st, Times(p, 32), 1).t) < Len(st.t) + 3   \* one token, that is
      sizes == IF few THEN <<64, 65, 130, 257, 600, 1100>> ELSE <<64, 65, 130, 257>>
  IN Times(p, sizes[1 + RngVal(r1, Len(sizes))])

Next == /\ k < Pieces
        /\ LET r1 == RngNext(r)
               r2 == RngNext(r1)
               w == RngVal(r1, 10)
               piece == CASE w < 2 -> <<Chars[1 + RngVal(r2, Len(Chars))]>>
                          [] w = 2 -> Closer(st)
                          [] w = 3 -> <<97 + RngVal(r2, 26)>>
                          [] w = 4 -> <<32>>
                          [] w = 5 /\ RngVal(RngNext(r2), 8) = 0 -> Long(Snippets[1 + RngVal(r2, Len(Snippets))], RngNext(r2))
                          [] OTHER -> Snippets[1 + RngVal(r2, Len(Snippets))]
               p2 == IF k = Pieces - 1 /\ Failed(Flush(Feed(d, st, piece, 1)))
                     THEN (IF RngVal(r2, 8) = 0 THEN piece ELSE Closer(st)) ELSE piece
               \* BANG alone ends everything: let it through rarely
               p3 == IF Failed(Feed(d, st, p2, 1)) /\ RngVal(r2, 16) # 0 THEN <<EQ>> ELSE p2
               p4 == IF src = <<>> /\ p3 = <<65279>> THEN <<SP>> ELSE p3  \* a byte order mark is no text
           IN /\ src' = src \o p4
              /\ st' = Feed(d, st, p4, 1)
              /\ r' = r2
        /\ k' = k + 1
        /\ UNCHANGED <<id, d>>

End == Flush(st)
Done == k = Pieces

InvTiles == Done => Tiles(src, End)
InvComplete == Done /\ ~Failed(End) /\ Len(src) > 0 => End.sp[Len(End.sp)][2] = Len(src)
InvLossless == Done /\ ~Failed(End) => Lossless(src, End)
InvPositions == Done /\ ~Failed(End) => TruePositions(src, End)
InvMunch == Done /\ ~Failed(End) => MaximalMunch(d, src, End)
InvBigStep == Done => Lex(d, src) = End

Emit == Done => PrintT(ToJson([d |-> d, s |-> src, e |-> Failed(End), t |-> End.t]))
=============================================================================
