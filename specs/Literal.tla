------------------------------ MODULE Literal ------------------------------
(* What literals mean. Digits are 0..9, the decimal point is 10; the content *)
(* of a string is a sequence of code points.                                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxDigits,   \* every numeral up to this length over NumAlphabet
          NumAlphabet,
          MaxString,   \* every string content up to this length over StrAlphabet
          StrAlphabet
VARIABLE lit

Point == 10
Quote == 39
MaxLong == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MaxUint == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
Rep(d, n) == [k \in 1..n |-> d]

(* the number without leading zeros; <<0>> for zero *)
RECURSIVE Canon(_)
Canon(ds) == IF Len(ds) <= 1 THEN ds ELSE IF ds[1] = 0 THEN Canon(Tail(ds)) ELSE ds
(* comparison of canonical numbers *)
RECURSIVE LexLE(_, _)
LexLE(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLE(Tail(a), Tail(b))
LE(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLE(a, b)

Points(ds) == Cardinality({k \in 1..Len(ds) : ds[k] = Point})
WholeDigits(ds) == IF Points(ds) = 0 THEN Len(ds) ELSE (CHOOSE k \in 1..Len(ds) : ds[k] = Point) - 1
(* the largest double is 1.79769...e308; none of the numerals below comes closer to it than 10^304 *)
Bounded(ds) == IF Len(ds) # 309 THEN Len(ds) < 309 ELSE LexLE(SubSeq(ds, 1, 5), <<1, 7, 9, 7, 5>>)
(* what a numeral is: an integer that fits 64 bits, a number with one point that fits a double, or nothing *)
KindOf(ds) == IF Points(ds) = 0 THEN (IF LE(Canon(ds), MaxLong) THEN "int" ELSE "bad")
              ELSE IF Points(ds) > 1 THEN "bad"
              ELSE IF Bounded(Canon(SubSeq(ds, 1, WholeDigits(ds)))) THEN "dbl" ELSE "bad"
(* the same for the sizes of data types and windows; the upper half of the unsigned numbers need not be accepted *)
SizeOf(ds) == IF Points(ds) # 0 THEN "bad" ELSE IF LE(Canon(ds), MaxLong) THEN "size" ELSE IF LE(Canon(ds), MaxUint) THEN "maybe" ELSE "bad"

(* numbers near a bound: a prefix of it, another digit, and all zeros or nines *)
Near(b) == {SubSeq(b, 1, p - 1) \o <<d>> \o Rep(f, Len(b) - p) : p \in 1..Len(b), d \in 0..9, f \in {0, 9}}
           \cup {b, b \o <<0>>, <<0>> \o b, <<0, 0, 0>> \o b}
           \cup {Rep(9, n) : n \in 1..25}
Canonical(S) == {ds \in S : ds # <<>> /\ ds[1] # Point}
Short == Canonical(UNION {[1..n -> NumAlphabet] : n \in 1..MaxDigits})
Long == {<<1>> \o Rep(0, n) \o <<Point>> \o Rep(5, m) : n \in {15, 16, 17, 22, 23, 307, 308, 309, 400}, m \in {1, 2}}
        \cup {<<0, Point>> \o Rep(0, n) \o <<d>> : n \in {5, 17, 100, 306, 322, 323, 330}, d \in {1, 5, 9}}
        \cup {<<d>> \o Rep(0, 3) \o <<Point>> \o Rep(e, n) : d \in {1, 9}, e \in {0, 1, 3, 9}, n \in {1, 8, 15, 16, 17, 30}}
        \cup {Rep(d, n) \o <<Point, e>> : d \in {1, 9}, n \in {14, 15, 16, 17, 20}, e \in {0, 5}}
        \cup {Rep(0, n) \o <<Point, 5>> : n \in {1, 2, 5}} \cup {Rep(7, n) \o <<Point>> : n \in {1, 2, 20}}
Contents == UNION {[1..n -> StrAlphabet] : n \in 0..MaxString}
RECURSIVE Doubled(_)
Doubled(cs) == IF cs = <<>> THEN <<>> ELSE (IF cs[1] = Quote THEN <<Quote, Quote>> ELSE <<cs[1]>>) \o Doubled(Tail(cs))
(* the inverse: what the text between the outer quotes stands for *)
RECURSIVE Undoubled(_)
Undoubled(cs) == IF cs = <<>> THEN <<>>
                 ELSE IF cs[1] = Quote THEN <<Quote>> \o Undoubled(SubSeq(cs, 3, Len(cs))) ELSE <<cs[1]>> \o Undoubled(Tail(cs))

Lits == [c : {"num"}, ds : Short \cup Near(MaxLong) \cup Long] \cup [c : {"size"}, ds : Near(MaxUint) \cup Near(MaxLong)]
        \cup [c : {"str"}, ds : Contents] \cup [c : {"nstr"}, ds : Contents]
Init == lit \in Lits
Next == UNCHANGED lit

Verdict == CASE lit.c = "num" -> KindOf(lit.ds) [] lit.c = "size" -> SizeOf(lit.ds) [] OTHER -> lit.c
Canon2 == Canon(lit.ds)
InvCanon == lit.c \in {"num", "size"} => Canon(Canon2) = Canon2 /\ Len(Canon2) >= 1
(* comparing with the bound is consistent with the order of numbers of equal length *)
InvOrder == lit.c = "num" /\ Verdict = "int" => Len(Canon2) <= 19
InvDoubled == lit.c \in {"str", "nstr"} => Undoubled(Doubled(lit.ds)) = lit.ds
Emit == PrintT(ToJson([c |-> lit.c, k |-> Verdict, d |-> lit.ds,
                       t |-> IF lit.c \in {"str", "nstr"} THEN Doubled(lit.ds) ELSE lit.ds]))
=============================================================================
