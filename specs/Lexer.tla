------------------------------- MODULE Lexer -------------------------------
(* The tokenizer of xsqlparser as a character-at-a-time transition system.  *)
(*                                                                          *)
(* A source text is a sequence of code points.  Step(d, st, c) consumes one *)
(* character of it in dialect d; Flush(st) is the end of the input.  Both   *)
(* LexerMC (exhaustive enumeration, small step) and LexerTrace (validation  *)
(* of recorded runs, big step) are built on the same Step.                  *)
(*                                                                          *)
(* A token is <<kind, value, fromLine, fromCol, toLine, toCol>>, its value  *)
(* a sequence of code points; a word has kind "Word" and a delimited        *)
(* identifier the kind "Quoted", its value beginning with the quote.        *)
EXTENDS Integers, Sequences, TLC

TAB == 9   LF == 10   CR == 13   SP == 32
QUOTE == 39   DQUOTE == 34   BTICK == 96
DASH == 45   SLASH == 47   STAR == 42   DOT == 46   COLON == 58
LT == 60   EQ == 61   GT == 62   BANG == 33
AT == 64   USCORE == 95   DOLLAR == 36   CAPN == 78

(* those that come with the package, and two of a user: letters and symbols *)
(* beyond ASCII in words, and identifiers in brackets too                   *)
Dialects == {"generic", "mysql", "postgres", "letters", "wide"}

IsWide(d) == d \in {"letters", "wide"}
Foreign(c) == c >= 192 /\ c \notin {8232, 65279, 65533}

IsLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
IsDigit(c)  == c >= 48 /\ c <= 57

IdentStart(d, c) ==
  \/ IsLetter(c)
  \/ d \in {"generic", "mysql"} /\ c = AT
  \/ d \notin {"generic", "mysql"} /\ c = USCORE
  \/ IsWide(d) /\ Foreign(c)

IdentPart(d, c) ==
  \/ IsLetter(c) \/ IsDigit(c) \/ c = USCORE
  \/ d \in {"generic", "mysql"} /\ c = AT
  \/ d \notin {"generic", "mysql"} /\ c = DOLLAR
  \/ IsWide(d) /\ Foreign(c)

LBRACKET == 91   RBRACKET == 93
Delimiter(d, c) == c = DQUOTE \/ (d # "generic" /\ c = BTICK) \/ (d = "wide" /\ c = LBRACKET)
Closing(q) == IF q = LBRACKET THEN RBRACKET ELSE q

(* punctuation that is a token on its own whatever follows *)
Single == 40 :> "LParen" @@ 41 :> "RParen" @@ 44 :> "Comma" @@ 43 :> "Plus"
       @@ 42 :> "Mult" @@ 37 :> "Mod" @@ 61 :> "Eq" @@ 46 :> "Period"
       @@ 59 :> "Semicolon" @@ 92 :> "Backslash" @@ 91 :> "LBracket"
       @@ 93 :> "RBracket" @@ 38 :> "Ampersand" @@ 123 :> "LBrace" @@ 125 :> "RBrace"

(* m: mode, b: value read so far, q: opening quote, fl/fc: start of the     *)
(* token, l/c: current position, cr: the last character was a CR of this    *)
(* token, n: characters consumed, a: index of the first character of the    *)
(* token, t: finished tokens, sp: their source ranges                       *)
Start0 == [m |-> "start", b |-> <<>>, q |-> 0, fl |-> 1, fc |-> 1, l |-> 1, c |-> 1,
           cr |-> FALSE, n |-> 0, a |-> 0, t |-> <<>>, sp |-> <<>>]

Failed(st) == st.m = "error"

Error(st) == [st EXCEPT !.m = "error", !.t = <<>>, !.sp = <<>>]

(* the token ends at the current position, before the character n+1 *)
Finish(st, kind) ==
  [st EXCEPT !.m = "start", !.b = <<>>, !.q = 0, !.cr = FALSE, !.fl = st.l, !.fc = st.c,
             !.a = st.n,
             !.t = Append(@, <<kind, st.b, st.fl, st.fc, st.l, st.c>>),
             !.sp = Append(@, <<st.a, st.n>>)]

(* consume one character that has no line structure *)
Take(st, mode, b, w) == [st EXCEPT !.m = mode, !.b = b, !.c = @ + w, !.n = @ + 1, !.cr = FALSE]

(* consume a character inside a quoted token or block comment: lines end at LF, CR and CRLF *)
TakeAny(st, mode, b, ch) ==
  CASE ch = LF /\ st.cr -> [st EXCEPT !.m = mode, !.b = b, !.n = @ + 1, !.cr = FALSE]
    [] ch = LF          -> [st EXCEPT !.m = mode, !.b = b, !.n = @ + 1, !.l = @ + 1, !.c = 1]
    [] ch = CR          -> [st EXCEPT !.m = mode, !.b = b, !.n = @ + 1, !.l = @ + 1, !.c = 1, !.cr = TRUE]
    [] OTHER            -> Take(st, mode, b, 1)

Begin(d, st, ch) ==
  CASE ch = SP  -> Finish(Take(st, "ws", <<SP>>, 1), "Whitespace")
    [] ch = TAB -> Finish(Take(st, "ws", <<TAB>>, 4), "Whitespace")
    [] ch = LF  -> Finish(TakeAny(st, "ws", <<LF>>, ch), "Whitespace")
    [] ch = CR  -> TakeAny(st, "cr", <<LF>>, ch)
    [] ch = CAPN -> Take(st, "N", <<ch>>, 1)
    [] IdentStart(d, ch) -> Take(st, "word", <<ch>>, 1)
    [] ch = QUOTE -> Take(st, "str", <<>>, 1)
    [] Delimiter(d, ch) -> [Take(st, "quoted", <<ch>>, 1) EXCEPT !.q = ch]
    [] IsDigit(ch) -> Take(st, "num", <<ch>>, 1)
    [] ch \in {DASH, SLASH, BANG, LT, GT, COLON} -> Take(st, "op", <<ch>>, 1)
    [] ch \in DOMAIN Single -> Finish(Take(st, "op", <<ch>>, 1), Single[ch])
    [] OTHER -> Finish(Take(st, "op", <<ch>>, 1), "Char")

(* one character operators that may have been the start of a longer one *)
OpKind(b) ==
  CASE b = <<DASH>> -> "Minus" [] b = <<SLASH>> -> "Div" [] b = <<LT>> -> "Lt"
    [] b = <<GT>> -> "Gt" [] b = <<COLON>> -> "Colon" [] OTHER -> "ILLEGAL"

Op2Kind(x, y) ==
  CASE x = BANG /\ y = EQ -> "Neq" [] x = LT /\ y = GT -> "Neq"
    [] x = LT /\ y = EQ -> "LtEq" [] x = GT /\ y = EQ -> "GtEq"
    [] x = COLON /\ y = COLON -> "DoubleColon" [] OTHER -> "none"

StrKind(m) == IF m \in {"str", "str'"} THEN "SingleQuotedString" ELSE "NationalStringLiteral"

Step(d, st, ch) ==
  CASE st.m = "error" -> st
    [] st.m = "start" -> Begin(d, st, ch)
    [] st.m = "cr" -> IF ch = LF THEN Finish(TakeAny(st, "ws", st.b, ch), "Whitespace")
                      ELSE Begin(d, Finish(st, "Whitespace"), ch)
    [] st.m = "N" /\ ch = QUOTE -> Take(st, "nstr", <<>>, 1)
    [] st.m \in {"N", "word"} -> IF IdentPart(d, ch) THEN Take(st, "word", Append(st.b, ch), 1)
                                 ELSE Begin(d, Finish(st, "Word"), ch)
    [] st.m = "num" -> IF IsDigit(ch) \/ ch = DOT THEN Take(st, "num", Append(st.b, ch), 1)
                       ELSE Begin(d, Finish(st, "Number"), ch)
    [] st.m \in {"str", "nstr"} ->
         IF ch = QUOTE THEN Take(st, IF st.m = "str" THEN "str'" ELSE "nstr'", st.b, 1)
         ELSE TakeAny(st, st.m, Append(st.b, ch), ch)
    [] st.m \in {"str'", "nstr'"} ->
         IF ch = QUOTE THEN Take(st, IF st.m = "str'" THEN "str" ELSE "nstr", Append(st.b, ch), 1)
         ELSE Begin(d, Finish(st, StrKind(st.m)), ch)
    [] st.m = "quoted" -> IF ch = Closing(st.q) THEN Finish(Take(st, "quoted", st.b, 1), "Quoted")
                          ELSE TakeAny(st, "quoted", Append(st.b, ch), ch)
    [] st.m = "op" ->
         CASE st.b = <<DASH>> /\ ch = DASH -> Take(st, "line", <<>>, 1)
           [] st.b = <<SLASH>> /\ ch = STAR -> Take(st, "block", <<>>, 1)
           [] Op2Kind(st.b[1], ch) # "none" ->
                Finish(Take(st, "op", Append(st.b, ch), 1), Op2Kind(st.b[1], ch))
           [] st.b = <<BANG>> -> Error(st)
           [] OTHER -> Begin(d, Finish(st, OpKind(st.b)), ch)
    [] st.m = "line" -> IF ch \in {LF, CR} THEN Begin(d, Finish(st, "LineComment"), ch)
                        ELSE Take(st, "line", Append(st.b, ch), 1)
    [] st.m = "block" -> IF ch = STAR THEN Take(st, "block*", st.b, 1)
                         ELSE TakeAny(st, "block", Append(st.b, ch), ch)
    [] st.m = "block*" -> CASE ch = SLASH -> Finish(Take(st, "block", st.b, 1), "BlockComment")
                            [] ch = STAR -> Take(st, "block*", Append(st.b, STAR), 1)
                            [] OTHER -> TakeAny(st, "block", Append(Append(st.b, STAR), ch), ch)

Flush(st) ==
  CASE st.m \in {"error", "start"} -> st
    [] st.m = "cr" -> Finish(st, "Whitespace")
    [] st.m \in {"N", "word"} -> Finish(st, "Word")
    [] st.m = "num" -> Finish(st, "Number")
    [] st.m \in {"str'", "nstr'"} -> Finish(st, StrKind(st.m))
    [] st.m = "line" -> Finish(st, "LineComment")
    [] st.m = "op" -> IF st.b = <<BANG>> THEN Error(st) ELSE Finish(st, OpKind(st.b))
    [] OTHER -> Error(st)            \* unterminated string, delimited identifier or block comment

RECURSIVE LexFrom(_, _, _, _)
LexFrom(d, s, i, st) == IF i > Len(s) THEN Flush(st) ELSE LexFrom(d, s, i + 1, Step(d, st, s[i]))

Lex(d, s) == LexFrom(d, s, 1, Start0)

-----------------------------------------------------------------------------
(* What the tokens must satisfy, stated without the transition system.      *)

(* C01: the tokens tile the source *)
Tiles(s, st) ==
  /\ \A i \in 1..Len(st.sp) : st.sp[i][1] < st.sp[i][2]
  /\ \A i \in 1..Len(st.sp) : st.sp[i][1] = IF i = 1 THEN 0 ELSE st.sp[i-1][2]
  /\ Len(st.sp) > 0 => st.sp[Len(st.sp)][2] <= Len(s)

(* the source of a token, written back from its kind and value *)
RECURSIVE Double(_)
Double(v) == IF v = <<>> THEN <<>>
             ELSE (IF Head(v) = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<Head(v)>>) \o Double(Tail(v))
Source(tok) ==
  CASE tok[1] = "SingleQuotedString" -> <<QUOTE>> \o Double(tok[2]) \o <<QUOTE>>
    [] tok[1] = "NationalStringLiteral" -> <<CAPN, QUOTE>> \o Double(tok[2]) \o <<QUOTE>>
    [] tok[1] = "Quoted" -> Append(tok[2], Closing(tok[2][1]))
    [] tok[1] = "LineComment" -> <<DASH, DASH>> \o tok[2]
    [] tok[1] = "BlockComment" -> <<SLASH, STAR>> \o tok[2] \o <<STAR, SLASH>>
    [] OTHER -> tok[2]

(* it is the source text of the token; only line terminators between tokens are normalised *)
Lossless(s, st) ==
  \A i \in 1..Len(st.t) :
    LET raw == SubSeq(s, st.sp[i][1] + 1, st.sp[i][2]) IN
    IF st.t[i][1] = "Whitespace" /\ st.t[i][2] = <<LF>>
    THEN raw \in {<<LF>>, <<CR>>, <<CR, LF>>}
    ELSE Source(st.t[i]) = raw

(* C03: the line of an index is the number of line ends before it, the column the  *)
(* number of characters since, a tab token counting four.                          *)
LineEnd(s, i) == s[i] = LF \/ (s[i] = CR /\ ~(i < Len(s) /\ s[i+1] = LF))
Line(s, k) == 1 + Len(SelectSeq([i \in 1..k |-> IF LineEnd(s, i) THEN 1 ELSE 0], LAMBDA x : x = 1))
TabAt(st, i) == \E j \in 1..Len(st.sp) : st.t[j][1] = "Whitespace" /\ st.t[j][2] = <<TAB>> /\ st.sp[j][2] = i
RECURSIVE Col(_, _, _)
Col(s, st, k) == IF k = 0 \/ LineEnd(s, k) THEN 1
                 ELSE Col(s, st, k - 1) + (IF TabAt(st, k) THEN 4 ELSE 1)
TruePositions(s, st) ==
  \A i \in 1..Len(st.t) :
    /\ st.t[i][3] = Line(s, st.sp[i][1]) /\ st.t[i][4] = Col(s, st, st.sp[i][1])
    /\ st.t[i][5] = Line(s, st.sp[i][2]) /\ st.t[i][6] = Col(s, st, st.sp[i][2])

(* C02: no word, number or operator can be extended by the character after it *)
MaximalMunch(d, s, st) ==
  \A i \in 1..Len(st.t) :
    LET k == st.t[i][1]  e == st.sp[i][2]  v == st.t[i][2] IN
    e < Len(s) =>
      /\ k = "Word" => ~IdentPart(d, s[e+1])
      /\ k = "Number" => ~(IsDigit(s[e+1]) \/ s[e+1] = DOT)
      /\ k \in {"Lt", "Gt", "Colon"} => Op2Kind(v[1], s[e+1]) = "none"
      /\ k = "Minus" => s[e+1] # DASH
      /\ k = "Div" => s[e+1] # STAR
      /\ k = "LineComment" => s[e+1] \in {LF, CR}
=============================================================================
