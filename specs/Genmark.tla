------------------------------ MODULE Genmark ------------------------------
(* The generator of marker types: it takes the name of an interface, the interfaces this embeds, a package (by a flag *)
(* or from the environment) and possibly the name of its output; it writes one file, or fails and writes nothing. A    *)
(* directory sees several runs, one after the other.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Words,      \* the words that names are made of: << as a word of a name, in lower case >>
          LastWords,  \* and those that can only be the last
          MaxWords,
          BadNames, Embeds, BadEmbeds, Outputs, Packages, Runs
VARIABLES old,    \* whether there is something older in the directory
          dir,    \* what is in it, by the name of the file
          inv, pc, log

RECURSIVE Upper(_), Snake(_), Seqs(_)
Upper(n) == IF n = <<>> THEN "" ELSE Head(n)[1] \o Upper(Tail(n))
Snake(n) == IF Len(n) = 1 THEN n[1][2] ELSE n[1][2] \o "_" \o Snake(Tail(n))
Private(n) == n[1][2] \o Upper(Tail(n))
Seqs(k) == IF k = 0 THEN {<<>>} ELSE {Append(s, w) : s \in Seqs(k - 1), w \in Words}
Names == UNION {Seqs(k) : k \in 1..MaxWords} \cup {Append(s, w) : s \in UNION {Seqs(k) : k \in 1..MaxWords - 1}, w \in LastWords}

(* "" is what is not given; a bad name stands for itself *)
Bad == {<< <<b, "">> >> : b \in BadNames}
Good(n) == n \notin Bad
Target(i) == (IF i.o # "" THEN i.o ELSE Snake(i.t)) \o "_gen.go"
Package(i) == CASE i.p = "both" -> "p" [] i.p = "flag" -> "p" [] i.p = "env" -> "p" [] OTHER -> ""
(* interfaces of the package: two that are always there, and what the runs have made *)
Made == {dir[f].type : f \in {g \in DOMAIN dir : dir[g].type # ""}}
Resolved(e) == \A k \in 1..Len(e) : e[k] \in {"Node", "Stmt"} \cup Made

Old == [type |-> "", marker |-> "", embeds |-> <<>>, pkg |-> ""]
Init == /\ old \in BOOLEAN /\ dir = (IF old THEN [f \in {"out_gen.go", "foo_gen.go"} |-> Old] ELSE <<>>)
        /\ inv = <<>> /\ pc = "idle" /\ log = <<>>
Invocations == [t : Names \cup Bad, e : Embeds \cup BadEmbeds, o : Outputs, p : Packages]
Start == /\ pc = "idle" /\ Len(log) < Runs
         /\ \E i \in Invocations : inv' = i
         /\ pc' = "flags" /\ UNCHANGED <<dir, log>>
Fail == pc' = "idle" /\ log' = Append(log, [inv |-> inv, ok |-> FALSE, file |-> ""]) /\ UNCHANGED <<dir, inv>>
Flags == pc = "flags" /\ (IF Good(inv.t) THEN pc' = "source" /\ UNCHANGED <<dir, inv, log>> ELSE Fail)
(* what is made has to be Go *)
Source == pc = "source" /\ (IF inv.e \in BadEmbeds \/ Package(inv) = "" THEN Fail ELSE pc' = "write" /\ UNCHANGED <<dir, inv, log>>)
Entry == [type |-> Upper(inv.t), marker |-> Private(inv.t), embeds |-> inv.e, pkg |-> Package(inv)]
Write == pc = "write" /\ (IF inv.o \in {"taken", "missing/out"} THEN Fail
                          ELSE /\ dir' = (Target(inv) :> Entry) @@ dir
                               /\ log' = Append(log, [inv |-> inv, ok |-> TRUE, file |-> Target(inv)])
                               /\ pc' = "idle" /\ UNCHANGED inv)
Next == (Start \/ Flags \/ Source \/ Write) /\ UNCHANGED old

(* names stay apart: of the types, of their markers, of their files *)
ASSUME \A a, b \in Names : a # b => Upper(a) # Upper(b) /\ Private(a) # Private(b) /\ Snake(a) # Snake(b)
ASSUME \A a \in Names : Private(a) # Upper(a)
(* only what was written last is there, and a failing run leaves everything as it is *)
InvLast == \A f \in DOMAIN dir : dir[f].type # "" =>
             \E k \in 1..Len(log) : /\ log[k].ok /\ log[k].file = f /\ Upper(log[k].inv.t) = dir[f].type
                                    /\ \A j \in k + 1..Len(log) : log[j].file # f
InvOnly == \A f \in DOMAIN dir : dir[f].type = "" \/ f \in {log[k].file : k \in 1..Len(log)}
(* types of the package that are declared once, and whose interfaces all exist: those make a package *)
Once == \A f, g \in DOMAIN dir : dir[f].type # "" /\ f # g => dir[f].type # dir[g].type
RECURSIVE Rank(_, _)
Rank(k, S) == IF k = 0 THEN S ELSE Rank(k - 1, S \cup {dir[f].type : f \in {g \in DOMAIN dir : dir[g].type # "" /\ \A j \in 1..Len(dir[g].embeds) : dir[g].embeds[j] \in S}})
Package_ == Once /\ Made \subseteq Rank(Cardinality(DOMAIN dir), {"Node", "Stmt"})
Over == pc = "idle" /\ Len(log) = Runs
Emit == Over => PrintT(ToJson([runs |-> [k \in 1..Len(log) |-> [t |-> Upper(log[k].inv.t), e |-> log[k].inv.e, o |-> log[k].inv.o, p |-> log[k].inv.p,
                                                                ok |-> log[k].ok, file |-> log[k].file]],
                               old |-> old,
                               files |-> {[file |-> f, type |-> dir[f].type, marker |-> dir[f].marker, embeds |-> dir[f].embeds, pkg |-> dir[f].pkg] : f \in DOMAIN dir},
                               package |-> Package_]))
=============================================================================
