------------------------------ MODULE LexerMC ------------------------------
(* Every source text up to MaxLen characters over an alphabet holding a     *)
(* representative of each character class, in every dialect: the            *)
(* environment supplies the next character, the tokenizer reacts.  Every    *)
(* state is emitted as a conformance case for the real tokenizer.           *)
EXTENDS Lexer, Json

CONSTANTS Alphabet, MaxLen, MCDialects

VARIABLES d, src, st

Init == d \in MCDialects /\ src = <<>> /\ st = Start0

Next == /\ Len(src) < MaxLen
        /\ \E ch \in Alphabet :
             /\ src' = Append(src, ch)
             /\ st' = Step(d, st, ch)
        /\ UNCHANGED d

End == Flush(st)

InvTiles == Tiles(src, End)
InvComplete == ~Failed(End) => \/ Len(src) = 0
                               \/ End.sp[Len(End.sp)][2] = Len(src)
InvLossless == ~Failed(End) => Lossless(src, End)
InvPositions == ~Failed(End) => TruePositions(src, End)
InvMunch == ~Failed(End) => MaximalMunch(d, src, End)
InvBigStep == Lex(d, src) = End

Emit == PrintT(ToJson([d |-> d, s |-> src, e |-> Failed(End), t |-> End.t]))
=============================================================================
