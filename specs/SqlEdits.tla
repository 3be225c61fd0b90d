------------------------------ MODULE SqlEdits -----------------------------
(* Random edits of a text, with the recogniser's verdict on each. *)
EXTENDS Sql, Rng
Alphabet == <<"id", "id", "id", "int", "dbl", "str", "nstr", ",", ",", "(", ")", "(", ")", "=", "<>", "<", ">", "<=", ">=", "+", "-", "*", "/", "%",
  ".", "::", "[", "]", ";", "WITH", "SELECT", "WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "UNION", "EXCEPT", "INTERSECT", "FROM", "ON",
  "JOIN", "INNER", "CROSS", "FULL", "LEFT", "RIGHT", "NATURAL", "USING", "DISTINCT", "ALL", "BY", "AS", "ASC", "DESC", "OFFSET", "OUTER",
  "LATERAL", "CASE", "WHEN", "THEN", "ELSE", "END", "CAST", "EXISTS", "NOT", "AND", "OR", "IN", "BETWEEN", "LIKE", "IS", "NULL", "TRUE",
  "FALSE", "OVER", "PARTITION", "ROWS", "RANGE", "UNBOUNDED", "PRECEDING", "FOLLOWING", "CURRENT", "ROW", "INSERT", "INTO", "VALUES",
  "DUPLICATE", "KEY", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "IF", "VIEW", "MATERIALIZED", "INDEX", "UNIQUE", "PRIMARY", "FOREIGN",
  "REFERENCES", "CHECK", "CONSTRAINT", "DEFAULT", "AUTO_INCREMENT", "ENGINE", "CHARSET", "ALTER", "ADD", "COLUMN", "DROP", "CASCADE",
  "TYPE", "EXPLAIN", "INT", "DOUBLE", "PRECISION", "VARCHAR", "CHARACTER", "VARYING", "TIMESTAMP", "TIME", "ZONE", "WITHOUT", "TEXT",
  "NUMERIC", "UNSIGNED">>
AnyTok(r) == Alphabet[1 + RngVal(r, Len(Alphabet))]
Cut(ts, a, b) == SubSeq(ts, 1, a - 1) \o SubSeq(ts, b + 1, Len(ts))
Put(ts, p, xs) == SubSeq(ts, 1, p - 1) \o xs \o SubSeq(ts, p, Len(ts))
Edit(ts, r1, r2, r3) ==
  LET n == Len(ts)
      p == 1 + RngVal(r2, n)
      q == p + RngVal(r3, 3)
  IN CASE RngVal(r1, 9) = 0 -> Cut(ts, p, p)
       [] RngVal(r1, 9) = 1 -> Put(ts, p, <<ts[p]>>)
       [] RngVal(r1, 9) = 2 -> IF p < n THEN [ts EXCEPT ![p] = ts[p + 1], ![p + 1] = ts[p]] ELSE Cut(ts, p, p)
       [] RngVal(r1, 9) = 3 -> [ts EXCEPT ![p] = AnyTok(r3)]
       [] RngVal(r1, 9) = 4 -> Put(ts, p, <<AnyTok(r3)>>)
       [] RngVal(r1, 9) = 5 -> IF p > 1 THEN SubSeq(ts, 1, p - 1) ELSE ts \o <<AnyTok(r3)>>
       [] RngVal(r1, 9) = 6 -> Cut(ts, p, IF q > n THEN n ELSE q)
       [] RngVal(r1, 9) = 7 -> ts \o <<AnyTok(r3)>>
       [] OTHER -> Put(ts, p, SubSeq(ts, p, IF q > n THEN n ELSE q))

RECURSIVE MutLoop(_, _, _, _)
MutLoop(ts, r, k, acc) ==
  IF k = 0 THEN [m |-> acc, r |-> r]
  ELSE LET r1 == RngNext(r) r2 == RngNext(r1) r3 == RngNext(r2)
           e == Edit(ts, r1, r2, r3)
           e2 == IF RngVal(r3, 4) = 0 /\ e # <<>> THEN Edit(e, r2, r3, r1) ELSE e
           v == Recognise(e2)
       IN MutLoop(ts, r3, k - 1, Append(acc, [t |-> e2, ok |-> v.ok, kw |-> v.kw, v |-> IF v.ok THEN v.vals[1] ELSE <<"nil">>]))
=============================================================================
