------------------------------- MODULE Source ------------------------------
(* Reading a source: a reader delivers the units of a text in portions of any size, empty ones included; the end of   *)
(* the text comes with the last portion or by itself; or the reader fails, with a last portion or without. The         *)
(* consumer takes what is delivered and finally returns a result for the whole text, or an error. After a failure the   *)
(* source may fail again, or claim to be at its end: the harness plays both.                                          *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Units,      \* the text
          MaxReads
VARIABLES reads,      \* the portions so far, with what came with them: "more", "eof", "fail"
          sent, taken, state
Text == [k \in 1..Units |-> k]
Init == reads = <<>> /\ sent = 0 /\ taken = <<>> /\ state = "reading"

Deliver(n, s) ==
  /\ state = "reading" /\ Len(reads) < MaxReads
  /\ sent + n <= Units /\ (s = "eof" => sent + n = Units)
  /\ (n = 0 /\ s = "more") => IF reads = <<>> THEN TRUE ELSE reads[Len(reads)].n > 0   \* no two empty portions in a row
  /\ reads' = Append(reads, [n |-> n, s |-> s])
  /\ sent' = sent + n
  /\ taken' = taken \o SubSeq(Text, sent + 1, sent + n)
  /\ state' = CASE s = "more" -> "reading" [] s = "eof" -> "result" [] s = "fail" -> "error"
Next == \E n \in 0..Units, s \in {"more", "eof", "fail"} : Deliver(n, s)

(* nothing is lost, added or reordered; a result is one for the whole text; a failure is no result *)
InvPrefix == taken = SubSeq(Text, 1, sent)
InvWhole == state = "result" => taken = Text
InvFails == (state = "error") <=> (\E k \in 1..Len(reads) : reads[k].s = "fail")
InvSame == state = "result" => \A k \in 1..Len(reads) : reads[k].s # "fail"
Emit == state # "reading" => PrintT(ToJson([reads |-> reads, ok |-> state = "result"]))
=============================================================================
