import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=[]):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state])))
TOK='sqltoken/tokenizer.go'; PAR='parser.go'
p('C01','Tokens tile the source text: nothing lost, duplicated or reordered',
 'For every input that tokenizes, each token starts exactly where the previous one ended, the first at line 1 column 1, and writing the tokens back in order (with the quotes and comment markers their kind implies) reproduces the input, line terminators outside comments, strings and quoted identifiers being normalised. Asking the tokenizer to drop whitespace and comments yields the same sequence with exactly those tokens removed. Iterating token by token and tokenizing at once give the same result.',
 ['inputs','configurations'],'every text over the supported character repertoire, each dialect, both whitespace/comment options',
 'Tests compare about twenty hand-written token lists; losslessness is a claim about every text and every adjacency of lexemes.',
 [TOK],[('one-token scanner and its token positions',TOK+': next, Scan, Tokenize')],[('Line, Col','scanner position',TOK)])
p('C02','Lexical classification and maximal munch follow the dialect',
 'Every maximal lexeme is classified by the documented rules: whitespace, line and block comments, single-quoted and national strings with doubled quotes, numbers, operators (two-character ones before one-character ones), and words made of the characters the chosen dialect allows. A word is a keyword exactly when it is unquoted and its upper-case form is in the keyword table; a quoted identifier keeps its text and quote style and is delimited only by the quotes the dialect recognises. Unterminated strings, quoted identifiers and block comments, and a lone "!", are reported as errors.',
 ['inputs','configurations'],'every character sequence, in the generic, MySQL and PostgreSQL dialects',
 'Lexing depends on each pair/triple of adjacent characters and on the dialect; tests sample a few texts, mostly in one dialect.',
 [TOK,'sqltoken/kind.go','dialect/dialect.go','dialect/mysql.go','dialect/postgres.go','dialect/keywords.go'],
 [('character dispatch',TOK+': next'),('keyword lookup',TOK+': MakeKeyword'),('dialect character classes','dialect/*.go')])
p('C03','Token positions are the true source positions',
 'The start and end of every token are the line and column at which it starts and ends in the source: lines are advanced by LF, CR and CRLF wherever they occur, including inside comments, strings and quoted identifiers; columns count characters, a tab between tokens counting four. This holds for escaped quotes and for non-ASCII text.',
 ['inputs'],'every text, including multi-line strings and comments, escaped quotes, tabs, CR/CRLF, non-ASCII text',
 'Position tests use short single-line ASCII texts; an error accumulates only after particular lexemes.',
 [TOK],[('column/line bookkeeping per lexeme',TOK+': next, tokenizeWord, tokenizeSingleQuotedString, tokenizeMultilineComment')],[('Line, Col','current position',TOK)])
p('C04','No input makes the library panic, hang or exhaust memory',
 'Tokenizing and parsing any text, valid or not, terminates with a value or an error and never panics, in every dialect, with or without comment collection, through every parsing entry point. For every successfully parsed result, printing it, walking it, asking any node for its position, and building its comment map also terminate without panicking.',
 ['inputs','configurations'],'every text (up to 64 KiB, nesting up to a few thousand), every dialect and option, every public entry point',
 'Tests feed well-formed statements; malformed and truncated inputs are an unbounded space in which any single token position can hit an unchecked assumption.',
 [PAR,TOK,'sqlast/walk.go','sqlast/commentmap.go','sqlast/ast.go','sqlast/stmt.go'],[('error returns and assertion helpers',PAR+': expectKeyword, expectToken, nextToken'),('position accessors','sqlast/*.go: Pos, End')])
p('C05','Every supported statement parses to the AST the grammar prescribes',
 'Any text derivable from the supported grammar (queries with CTEs, set operations, joins, derived tables, grouping, ordering and limits; expressions; INSERT, UPDATE, DELETE; CREATE TABLE, VIEW and INDEX; ALTER TABLE; DROP; EXPLAIN; all data types, column and table constraints and table options) is accepted. The resulting AST has exactly the nodes, in the order and with the attributes, that the derivation prescribes: no clause, element, constraint, join or flag is lost, duplicated, swapped or attached elsewhere.',
 ['inputs','programs'],'all statements of the supported grammar, all combinations of optional clauses and list lengths',
 'About 80 example statements are compared; the grammar has thousands of clause combinations and interactions (e.g. several joins, several constraints) that samples miss.',
 [PAR],[('recursive-descent statement and clause parsers',PAR)],[('index','token cursor',PAR)])
p('C06','Operator precedence and associativity',
 'Every unparenthesised expression is grouped as the precedence table says: OR, AND, NOT, IS [NOT] NULL, comparison/[NOT] LIKE/[NOT] IN/[NOT] BETWEEN, additive, multiplicative, :: cast, loosest to tightest, binary operators being left-associative; a prefix operator takes the operand its own precedence allows. Negated operators bind like the plain ones, the bounds of BETWEEN are complete additive-level expressions, and parentheses override grouping and are kept. Set operations group left to right with INTERSECT tighter than UNION and EXCEPT.',
 ['inputs'],'every sequence of prefix, infix and postfix operators',
 'A handful of operator pairs are tested; precedence errors show up only for particular ordered pairs or triples of operators.',
 [PAR],[('Pratt loop and precedence table',PAR+': parseSubexpr, parseInfix, getPrecedence, parseBetween'),('set-operation loop',PAR+': parseQueryBody')])
p('C07','Printing and reparsing an AST is the identity',
 'For every statement the parser accepts, the SQL text printed from its AST is accepted again and yields the same AST apart from positions. Printing the reparsed AST gives the same text (printing is a fixpoint), and a whole script printed from its file node reparses to the same list of statements.',
 ['inputs','programs'],'all accepted statements and scripts, including escaped strings, quoted identifiers, all literal forms and all optional clauses',
 'Tests print about 100 hand-made nodes; fidelity must hold for each clause combination and each literal content.',
 ['sqlast/ast.go','sqlast/query.go','sqlast/stmt.go','sqlast/type.go','sqlast/value.go','sqlast/operator.go','sqlast/table_option.go',PAR],[('per-node printers','sqlast/*.go: WriteTo'),('parser',PAR)])
p('C08','Layout, comments and letter case of keywords do not change meaning',
 'The AST, positions aside, is the same however the tokens are separated (spaces, tabs, LF, CR, CRLF, line or block comments, or nothing where tokens stay distinct) and however keywords are capitalised. Collecting comments, ignoring them, or handing the parser tokens produced without whitespace and comments all give the same statements or the same failure.',
 ['inputs','configurations'],'all statements, all layouts, all comment placements, keyword case, comment option, token source',
 'Layout variations multiply every statement; tests use one layout each and rarely put comments inside a clause, where backtracking of the parser meets skipped tokens.',
 [PAR,TOK],[('whitespace/comment skipping and backtracking',PAR+': nextToken, prevToken, peekToken, parseKeywords'),('keyword matching',PAR+': parseKeyword')],[('index','cursor over all tokens including skipped ones',PAR)])
p('C09','Quoted identifiers are never keywords; identifier text is kept verbatim',
 'A quoted identifier is accepted wherever an identifier is and never acts as a keyword, whatever its content. Every identifier in the AST is spelled exactly as in the source, including letter case and quotes, in every syntactic position.',
 ['inputs'],'every identifier position of every statement, every keyword as quoted content, every dialect quote',
 'The set of (position, keyword) pairs is several tens of thousands; tests use a few plain names.',
 [PAR,TOK],[('keyword recognition',PAR+': parseKeyword and keyword switches'),('identifier text',TOK+': SQLWord')])
p('C10','A script is split into all its statements, in order',
 'Parsing a script returns one AST per statement, in source order, each equal to the AST of that statement parsed alone; nothing in the script is skipped. Empty statements, comments and blank lines between statements, and a missing final semicolon are accepted. Semicolons inside strings, comments and quoted identifiers do not split.',
 ['inputs','histories'],'all sequences of statements, separators, trivia; whole-script and statement-by-statement parsing',
 'Tests parse at most two statements in one layout.',
 [PAR],[('statement loop',PAR+': ParseSQL, ParseFile, ParseStatement')],[('index','cursor between statements',PAR)])
p('C11','Malformed scripts are rejected, not misread',
 'A script that is not derivable from the supported grammar is reported as an error by whole-script parsing: in particular a truncated statement, a missing or doubled operand, separator, keyword or parenthesis, and trailing tokens after a complete statement. Parsing never returns statements together with an error, and never returns an AST that leaves out part of the text.',
 ['inputs'],'all token-level deletions, duplications, insertions, replacements, swaps and truncations of valid scripts',
 'Only a few error cases are tested; each statement of n tokens has thousands of one-edit neighbours.',
 [PAR],[('expected-token checks',PAR+': expectToken, expectKeyword, parse*'),('end-of-statement check',PAR+': ParseSQL')])
p('C12','Every comment is collected exactly once, in order and correctly grouped',
 'With comment collection on, parsing a file returns every comment of the source exactly once, with its exact text and position, in source order, wherever it occurs. Comments not separated by code belong to the same group, except that a comment trailing code on its line ends a group at the end of that line. The parser\'s lookahead and backtracking never lose, repeat or regroup comments.',
 ['inputs','histories'],'all placements of line and block comments between the tokens of all statements',
 'Tests place comments at a few spots; each grammar rule backtracks differently and so revisits comments differently.',
 [PAR,'sqlast/comment.go'],[('comment collection during token fetch',PAR+': nextTokenWithParseComment'),('file assembly',PAR+': ParseFile')],[('comments','groups by start position',PAR)])
p('C13','The comment map attaches each comment group to exactly one node, by proximity',
 'Building a comment map never fails and attaches every comment group of the file exactly once, to one node of that file, keeping source order per node. A group goes to what it follows on its line, or stands directly below of when a blank line separates it from what comes next: the outermost statement, column definition or table constraint that has ended there, else the node last begun; otherwise it goes to the first node after it, otherwise to the last node.',
 ['inputs'],'all files with comments anywhere: before, inside, after and between statements and table elements, comment-only files',
 'Three files are tested; association depends on the relative lines of groups and nodes.',
 ['sqlast/commentmap.go','sqlast/walk.go'],[('association sweep','sqlast/commentmap.go: NewCommentMap')],[('stack, previous node, pending group','sweep state','sqlast/commentmap.go')])
p('C14','Walk and Inspect visit every node exactly once, properly nested',
 'Walking an AST visits every node reachable from the root exactly once, a parent before and around its children, ends each visited node with one closing nil visit, visits a node\'s children with the visitor that its visit returned, and never visits an absent (nil) child. When a visit declines, exactly that node\'s subtree is skipped and nothing else.',
 ['inputs','programs'],'all AST shapes the parser or a user can build from node types, all pruning decisions',
 'No test checks traversal completeness; omissions hide in node kinds a test never walks.',
 ['sqlast/walk.go'],[('per-node-kind child enumeration','sqlast/walk.go: Walk')])
p('C15','Apply traverses like Walk and its cursor tells the truth',
 'Apply without edits calls pre and post on the same nodes in the same order as Walk, leaves the tree unchanged and returns the root. At every call the cursor\'s parent, field name and index lead to exactly the cursor\'s node. A false pre skips exactly that node\'s children and post; a false post ends the whole traversal at once, returning the root.',
 ['inputs','programs'],'all AST shapes, all pre/post decisions',
 'Tests use Apply for three renamings; cursor facts for each field of each node kind are untested.',
 ['sqlastutil/rewrite.go'],[('traversal and cursor','sqlastutil/rewrite.go: Apply, Cursor, application')],[('cursor, iterator','traversal position','sqlastutil/rewrite.go')])
p('C16','Apply edits act as list and field edits at the cursor',
 'Replace puts the new node exactly where the old one was (any field, list element or the root); Delete, InsertBefore and InsertAfter change exactly the containing list as their names say, for any sequence of edits during one traversal. Replaced, deleted and following original elements are each visited once as documented, inserted elements are not visited, all other parts of the tree are untouched, and the printed SQL reflects the edits.',
 ['histories','programs'],'all lists up to several elements and all sequences of edits on each element, for every list and field of the AST',
 'Three single-edit tests; combinations of edits (delete first, insert around deleted neighbours) exercise the cursor arithmetic.',
 ['sqlastutil/rewrite.go'],[('cursor edits','sqlastutil/rewrite.go: Replace, Delete, InsertBefore, InsertAfter'),('list iteration','sqlastutil/rewrite.go: applyList')],[('index, step','position while list changes','sqlastutil/rewrite.go')])
p('C17','Writing SQL to a failing writer is accounted exactly',
 'Writing any node to a writer produces exactly the bytes of its SQL string, whatever kind of writer it is, and returns their number. If the writer fails, the same error is returned, the bytes already accepted are a prefix of the SQL string, the returned count equals the number of bytes the writer accepted, and nothing more is written after the failure.',
 ['inputs','fault_sequences'],'all ASTs, a write failure (full or partial) at every write call and every byte offset, writers with and without string support',
 'Tests print only to in-memory buffers that never fail.',
 ['sqlast/writer.go','sqlast/ast.go','sqlast/query.go','sqlast/stmt.go','sqlast/type.go','sqlast/value.go','sqlast/table_option.go'],[('error-latching writer','sqlast/writer.go'),('per-node printers','sqlast/*.go: WriteTo')],[('n, err','bytes accepted, first error','sqlast/writer.go')])
p('C18','Identifiers and literals in the AST carry their exact source extent',
 'Every identifier and every literal value in a parsed AST reports as its start and end exactly the start and end of the token it was read from, in whatever statement, clause and layout it occurs.',
 ['inputs'],'all statements, all identifier and literal positions, all layouts incl. multi-line',
 'Tests pin positions of one-line examples; many construction sites copy positions separately.',
 [PAR],[('position copying at node construction',PAR)])
p('C19','Literal values are read and printed faithfully',
 'Integer, decimal, string, national string, boolean and NULL literals have in the AST exactly the value written in the source, and print as a literal with the same value and kind. A number that cannot be represented is rejected rather than altered.',
 ['inputs'],'all literal spellings: leading zeros, huge numbers, trailing and leading fraction zeros, embedded quotes, non-ASCII and multi-line strings',
 'A few small literals are tested; overflow, escaping and integral decimals are not.',
 [PAR,'sqlast/value.go',TOK],[('literal conversion',PAR+': parseValue, parseLiteralInt'),('literal printing','sqlast/value.go')])
p('C20','Parsers and tokenizers are independent of one another',
 'The result of tokenizing or parsing an input depends only on that input, dialect and options: it is the same whatever other tokenizers, parsers, walks or prints ran before or run interleaved or concurrently, and repeating it gives an equal result. Using an AST (printing, walking, comment mapping) never changes it, nor any other result. Editing an AST in place changes no other AST.',
 ['schedules','histories'],'all interleavings of several tokenizers/parsers, sequential reuse, concurrent goroutines',
 'Tests run one parser at a time, each once.',
 [TOK,PAR,'dialect/keywords.go','sqlast'],[('per-instance state; shared read-only keyword tables',TOK+': keywordCache'),('instance fields',PAR+': Parser')],[('keyword cache','shared words',TOK)])
p('C21','How the source is delivered does not matter; a failing source is reported',
 'Tokens and ASTs are the same however the source reader splits its data, down to single bytes, empty reads, and data delivered together with end of file. If the source reader fails, tokenizing and parsing report an error instead of returning the tokens or statements of the part read so far.',
 ['inputs','fault_sequences'],'all chunkings and a read error at every offset',
 'All tests read from complete in-memory buffers.',
 [TOK,PAR],[('character source',TOK+': NewTokenizer, next')])
p('C22','The astprinter command reflects the parser',
 'The command-line printer, given SQL on standard input or in a file, prints the AST and the SQL of its first statement and exits successfully exactly when that statement parses. For anything else (syntax error, lexical error, missing file) it reports the error, exits with a failure status and does not crash.',
 ['inputs','configurations'],'all inputs, valid or not, via standard input and file',
 'The command has no tests.',
 ['cmd/astprinter/main.go'],[('main','cmd/astprinter/main.go')])
p('C23','Every node of a parsed file has an extent in the source, and extents nest',
 'Asking any node of a parsed file for its position and end never fails; except for an empty window specification, the node begins where a token of the source begins, ends behind a token that is not before it (ends the AST does not record, like that of IS NULL, are estimated for single blanks), lies within the extent of its parent and overlaps no sibling, and an identifier or literal node is one token. A node extends exactly over the tokens it is derived from; only the keywords WITH of a query, VALUES, LIMIT and CONSTRAINT of a column, the closing parenthesis of a common table expression and of CREATE TABLE, and the parentheses of a window are left out. No identifier or literal of the source lies outside of such nodes. The file encloses all its comments.',
 ['inputs'],'all supported statements, any layout, with comments',
 'Positions are pinned for a few dozen nodes; comment maps, error messages and editors rely on every node type in every combination of optional parts.',
 ['sqlast',PAR],[('Pos and End of every node type','sqlast/ast.go, query.go, stmt.go, type.go, value.go'),('positions taken from tokens',PAR)],[('From, To and keyword positions','source extents','sqlast')])
p('C24','genmark writes a marker type that does what it is for, or nothing',
 'Given the exported name T of an interface (camel case words), genmark writes one file, named by -o or else the snake case of T, followed by _gen.go: formatted Go that compiles in the package of -pkg or else GOPACKAGE, and declares just the interface T, embedding the interfaces of -e and a marker method that is not exported, and a struct type of the private form of T (SQL at the beginning becomes sql) without fields that has this method, so that a struct is a T if it embeds that type and implements the embedded interfaces, and never without it. A file of that name is replaced; all other files stay. If the name is missing, not exported or no name, if the package is missing, if the embedded interfaces are no names, or if the file cannot be written, it fails with a message and leaves all files as they were. The directives of the repository reproduce the declarations of its generated files.',
 ['inputs','configurations','histories'],'all names, embedded interfaces, outputs and packages, valid or not, and sequences of runs in one directory',
 'The only test converts five names.',
 ['tools/genmark/main.go','sqlast'],[('run','tools/genmark/main.go'),('generated markers','sqlast/*_gen.go')])
p('C25','Comparing ASTs without markers finds every difference and nothing else',
 'CompareWithoutMarker of two ASTs is empty exactly if they are equal in all exported fields at every depth: types of nodes, lists, names, values, flags, comments and positions. Two parses of one text compare equal; changing any one field in one of them makes them differ, either way around, until it is changed back or changed in the other as well. The comparison does not panic.',
 ['inputs','histories'],'all ASTs and all sequences of changes to two copies of one',
 'All the tests of the parser rely on it, but only one way: a comparison that ignores something passes them all.',
 ['testhelper.go'],[('IgnoreMarker, CompareWithoutMarker','testhelper.go')])
p('C26','A parser used piece by piece consumes exactly what it returns',
 'ParseStatement, ParseExpr, ParseDataType, ParseSQL and ParseFile may be called one after another on one parser: each call that succeeds returns what the tokens from where the parser stands begin with, and leaves the parser directly behind the last token of it, so that the next call goes on there; ParseSQL and ParseFile return all statements that are left, skipping semicolons. A call fails where no such thing begins, at the end of the text (where ParseSQL and ParseFile return nothing, without an error) and at a semicolon. Collecting comments, ignoring them, or giving the tokens with SetTokens makes no difference.',
 ['histories','inputs'],'all texts made of statements, expressions, data types, semicolons and stray tokens and all sequences of calls up to the first that fails',
 'Tests make one call per parser and do not look at what is left behind the parsed construct.',
 ['parser.go'],[('entry points','parser.go: ParseStatement, ParseExpr, ParseDataType, ParseSQL, ParseFile'),('look-ahead and backing up','parser.go: nextToken, peekToken, prevToken')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P), max(len(x['title']) for x in P))
