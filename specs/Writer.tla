------------------------------- MODULE Writer ------------------------------
(* Printers: a printer writes pieces of text and calls other printers, adding up what they report; after the first  *)
(* error it writes nothing more. Every printer tree up to a size is run against every writer that fails at some     *)
(* byte in some manner.                                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxDepth, MaxParts, MaxPiece
VARIABLES prog, lim, mode, frames, acc, failed, calls, late

(* a printer: a sequence of pieces (their lengths) and printers, enclosed by Open and Shut *)
Open == 0
Shut == -1
RECURSIVE Programs(_)
Programs(d) ==
  LET item == {<<n>> : n \in 1..MaxPiece} \cup (IF d = 0 THEN {} ELSE {<<Open>> \o p \o <<Shut>> : p \in Programs(d - 1)})
      RECURSIVE Cat(_)
      Cat(k) == IF k = 0 THEN {<<>>} ELSE LET c == Cat(k - 1) IN c \cup {x \o y : x \in c, y \in item}
  IN Cat(MaxParts)
IsPiece(x) == x > 0
RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE (IF IsPiece(p[1]) THEN p[1] ELSE 0) + Total(Tail(p))

(* the writer accepts lim bytes; the write that goes beyond fails: having taken what fits, nothing, or (mode "all") *)
(* the write that reaches the limit succeeds in taking its bytes but reports an error                                *)
Accepts(n) == CASE mode = "part" -> IF acc + n <= lim THEN n ELSE lim - acc
                [] mode = "none" -> IF acc + n <= lim THEN n ELSE 0
                [] mode = "all" -> n
Fails(n) == IF mode = "all" THEN acc + n >= lim ELSE acc + n > lim

Init == /\ prog \in Programs(MaxDepth) /\ lim \in 0..Total(prog) + 1 /\ mode \in {"part", "none", "all"}
        /\ frames = <<[n |-> 0, err |-> FALSE]>> /\ acc = 0 /\ failed = FALSE /\ calls = 0 /\ late = 0
Top == frames[Len(frames)]
(* skip what an error makes a printer leave out *)
RECURSIVE Skip(_, _)
Skip(p, d) == IF p[1] = Open THEN Skip(Tail(p), d + 1) ELSE IF p[1] = Shut /\ d = 0 THEN Tail(p)
              ELSE IF p[1] = Shut THEN Skip(Tail(p), d - 1) ELSE Skip(Tail(p), d)
Piece == /\ prog # <<>> /\ IsPiece(prog[1])
         /\ prog' = Tail(prog)
         /\ IF Top.err THEN UNCHANGED <<frames, acc, failed, calls, late>>
            ELSE /\ acc' = acc + Accepts(prog[1]) /\ calls' = calls + 1
                 /\ late' = late + (IF failed THEN 1 ELSE 0)
                 /\ failed' = (failed \/ Fails(prog[1]))
                 /\ frames' = [frames EXCEPT ![Len(frames)] = [n |-> @.n + Accepts(prog[1]), err |-> Fails(prog[1])]]
         /\ UNCHANGED <<lim, mode>>
Call == /\ prog # <<>> /\ prog[1] = Open
        /\ IF Top.err THEN prog' = Skip(Tail(prog), 0) /\ UNCHANGED frames
           ELSE prog' = Tail(prog) /\ frames' = Append(frames, [n |-> 0, err |-> FALSE])
        /\ UNCHANGED <<lim, mode, acc, failed, calls, late>>
Return == /\ prog # <<>> /\ prog[1] = Shut
          /\ prog' = Tail(prog)
          /\ LET k == Len(frames) - 1 IN
             frames' = [SubSeq(frames, 1, k) EXCEPT ![k] = [n |-> @.n + Top.n, err |-> Top.err]]
          /\ UNCHANGED <<lim, mode, acc, failed, calls, late>>
Next == Piece \/ Call \/ Return

(* the count is that of the bytes accepted, at every moment *)
RECURSIVE Sum(_)
Sum(fs) == IF fs = <<>> THEN 0 ELSE fs[1].n + Sum(Tail(fs))
InvCount == Sum(frames) = acc
InvLatched == late = 0
InvReported == prog = <<>> => frames[1].err = failed
=============================================================================
