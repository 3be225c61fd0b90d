-------------------------------- MODULE Cli --------------------------------
(* The command line printer: it opens its source, reads it to the end, tokenizes, parses the first statement, and      *)
(* prints the AST and the SQL of that; whatever fails ends it with a message and a failure status. The source is        *)
(* standard input or a file, delivered in some manner; its text is of some kind; the environment may lack the file.     *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Inputs,     \* where the text comes from
          Deliveries, \* how it comes
          Kinds       \* what it is
VARIABLES input, delivery, kind, pc, out, err, status
vars == <<input, delivery, kind, pc, out, err, status>>

Readable == {"stdin", "stdin named", "file", "file relative", "file after two dashes"}
Missing == {"missing file", "directory", "empty name", "missing directory"}
Piped == {"stdin", "stdin named"}
(* texts that start with a statement, and have no lexical error anywhere *)
Statements == {"statement", "statement and semicolon", "several statements", "long statement", "statement and comments"}
(* these are for the parser to decide: the command follows it *)
Undecided == {"statement and rubbish", "semicolon and statement"}
NoTokens == {"lexical error", "statement and lexical error"}
NoStatement == {"syntax error", "truncated", "nothing", "blanks", "comments", "other statement"}

Sensible == /\ input \in Missing => delivery = "whole" /\ kind = "statement"
            /\ input \notin Piped => delivery = "whole"
Init == /\ input \in Inputs /\ delivery \in Deliveries /\ kind \in Kinds /\ Sensible
        /\ pc = "open" /\ out = <<>> /\ err = <<>> /\ status = -1
Fail(m) == pc' = "end" /\ err' = Append(err, m) /\ status' = 1 /\ UNCHANGED out
Go(next) == pc' = next /\ UNCHANGED <<out, err, status>>
Show(what, next) == pc' = next /\ out' = Append(out, what) /\ UNCHANGED <<err, status>>

Open == pc = "open" /\ (IF input \in {"missing file", "empty name", "missing directory"} THEN Fail("open") ELSE Go("read"))
Read == pc = "read" /\ (IF input = "directory" THEN Fail("read") ELSE Go("tokenize"))
Tokenize == pc = "tokenize" /\ (IF kind \in NoTokens THEN Fail("tokenize") ELSE Go("parse"))
Parse == pc = "parse" /\ (\/ kind \in NoStatement \cup Undecided /\ Fail("parse")
                          \/ kind \in Statements \cup Undecided /\ Go("ast"))
PrintAST == pc = "ast" /\ Show("ast", "sql")
PrintSQL == pc = "sql" /\ Show("sql", "exit")
Exit == pc = "exit" /\ pc' = "end" /\ status' = 0 /\ UNCHANGED <<out, err>>
Next == (Open \/ Read \/ Tokenize \/ Parse \/ PrintAST \/ PrintSQL \/ Exit) /\ UNCHANGED <<input, delivery, kind>>

Ended == pc = "end"
InvStatus == Ended /\ kind \notin Undecided => (status = 0 <=> (input \in Readable /\ kind \in Statements))
InvPrinted == Ended => (IF status = 0 THEN out = <<"ast", "sql">> /\ err = <<>> ELSE out = <<>> /\ Len(err) = 1)
InvOnce == Len(out) <= 2 /\ Len(err) <= 1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Progress == <>Ended
Emit == Ended => PrintT(ToJson([input |-> input, delivery |-> delivery, kind |-> kind, status |-> status]))
=============================================================================
