---------------------------- MODULE WriterTrace ----------------------------
(* Are recorded printings behaviours of Writer? A trace: len, the length of the SQL string; ev, the writes          *)
(* << length offered, accepted, failed, the offered bytes continue the SQL string >>; n and err, what was returned  *)
(* (err: 0 nil, 1 the error of the writer, 2 another one).                                                           *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS TraceFile
VARIABLES num, at, acc, failed, bad
Traces == ndJsonDeserialize(TraceFile)
T == Traces[num]
Init == num \in 1..Len(Traces) /\ at = 1 /\ acc = 0 /\ failed = FALSE /\ bad = ""
Running == bad = "" /\ at <= Len(T.ev)
Next == /\ Running
        /\ LET e == T.ev[at] IN
           bad' = (IF failed THEN "written after the failure" ELSE IF e[4] = 0 THEN "other bytes than those of the SQL string"
                   ELSE IF e[3] = 0 /\ e[2] # e[1] THEN "tool: a write that neither accepts all nor fails" ELSE "")
           /\ acc' = acc + e[2] /\ failed' = (e[3] = 1) /\ at' = at + 1
        /\ UNCHANGED num
Verdict == IF bad # "" THEN bad
           ELSE IF T.n # acc THEN "the count returned is not that of the bytes accepted"
           ELSE IF failed /\ T.err # 1 THEN "the error of the writer is not returned"
           ELSE IF ~failed /\ T.err # 0 THEN "an error is returned but the writer did not fail"
           ELSE IF ~failed /\ acc # T.len THEN "not all of the SQL string has been written"
           ELSE "ok"
Emit == ~Running => PrintT(ToJson([n |-> num, at |-> at, verdict |-> Verdict]))
=============================================================================
