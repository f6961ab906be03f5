#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
Y="src/parser/bison_parser.y"; L="src/parser/flex_lexer.l"; P="src/SQLParser.cpp"; R="src/SQLParserResult.cpp"
E="src/sql/Expr.cpp"; S="src/sql/statements.cpp"; C="src/sql/CreateStatement.cpp"; H="src/util/sqlhelper.cpp"
props=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=3,(id,statement.count('. '))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Any byte sequence is parsed without memory errors or undefined behaviour",
 "For every byte string - valid SQL, malformed, truncated at any point, or random bytes - parsing it, tokenizing it, reading every part of the result, printing accepted statements (of moderate nesting and chain length) and destroying the result performs no out-of-bounds access, use-after-free, double free, null dereference, integer/enum/bool undefined behaviour or crash. This includes inputs that fail late (after large parts of the tree have been built) and long operator, join and index chains.",
 ["inputs"],"all byte strings, all failure points inside a statement, and all entry points (parse, tokenize, read, print, destroy)",
 "The suite parses a few hundred hand-written, mostly valid queries; error paths run cleanup code for partially built trees at every possible token, and only a handful of those are ever exercised (and only leak-checked under valgrind for the same queries).",
 [Y,L,P,R,E,S,C,H],[("%destructor rules discard half-built semantic values on error",Y),("actions hand sval/vectors over to exactly one owner",Y),("destructors of AST nodes",S)],
 observe=["ASan/UBSan reports","process exit status"])

p("C02","Every allocation made while parsing is released exactly once",
 "Whatever the input and however parsing ends - success, a syntax error at any token, or a semantic error such as a bad date, unknown file type, conflicting nullability or repeated COPY option - once the result is destroyed or reset (and released statements are deleted by the caller) the number of live heap blocks is what it was before (a reset result may keep empty lists for reuse), and none was freed twice. Tokenizing leaves nothing allocated besides the caller's token vector. Nothing piles up either: however many different texts are parsed, tokenized or printed, and however many threads do so and end, no growing amount of memory stays behind.",
 ["inputs","histories"],"all inputs (every point of failure) and all ways of disposing of a result",
 "Leak checking in the suite (valgrind over the unit tests) covers only the error paths those tests contain; each grammar action and each discarded symbol type is a separate ownership hand-over.",
 [Y,L,P,R,E,S,C],[("%destructor per semantic type",Y),("ownership comments and destructors",S),("reset()/releaseStatements()",R)],
 state=[("live heap blocks","malloc/new minus free/delete, counted by the harness","process allocator")],observe=["allocator interposer in the harness"])

p("C03","Results are deterministic and every public field is initialised",
 "The outcome of parsing a text - validity, error message, line and column, every field of every node, statement lengths and parameters - is a function of the text alone: it never depends on what heap or stack memory contained before. Every public data member that a caller can reach from a result has a defined value, also for default-constructed results and for nested statements.",
 ["inputs","histories"],"all inputs times all prior contents of memory",
 "Tests look at the fields they expect to be set, on fresh memory that is usually zero; a forgotten initialiser is invisible until memory is recycled.",
 [Y,P,R,E,S,C,"src/sql/SQLStatement.cpp"],[("zero-initialising constructors required by docs/dev-docs.md",S),("location initialisation in %initial-action",Y)],
 observe=["dump of every public field under several heap/stack fill patterns","valgrind memcheck"])

p("C04","Exactly the texts of the dialect are accepted, and always in full",
 "A parse reports success if and only if the entire text, from first to last byte, is one or more statements of the supported dialect separated by single semicolons (one optional at the end); a text is never accepted by silently ignoring part of it, such as an unknown character, an unterminated string or quoted identifier, an embedded NUL or anything after it. A statement list that is well-formed is never rejected, except that constructs nested more than 40 levels deep may be refused by the parser's fixed-size stack, and texts of more than 2147483645 bytes for their length.",
 ["inputs"],"all texts: every sentence of the dialect and every non-sentence, in particular those one token or one character away from a sentence",
 "The suite has about 150 good and 25 bad queries; acceptance is a property of an infinite language and of its complement, where over- and under-acceptance hide one edit away from valid statements.",
 [Y,L,P],[("LALR grammar with %expect 0",Y),("token rules and catch-all rule",L),("the text is handed to the scanner with its length",P)],
 observe=["isValid() against an independent recogniser"])

p("C05","SELECT statements are represented faithfully and completely",
 "The tree of an accepted SELECT contains exactly what the text says and nothing else: select list with aliases and DISTINCT, sources (names, schemas, aliases with column lists, subqueries, every join type with its ON/USING and nesting, comma lists), WHERE, GROUP BY/HAVING, set operations with ALL and grouping, ORDER BY with direction and NULLS placement, LIMIT/OFFSET/TOP, WITH, row locking, hints. Every clause sits at the node the language attaches it to and list elements keep their order; absent clauses are represented as absent.",
 ["inputs"],"all accepted SELECT texts, all combinations and nestings of clauses, list lengths and join/set-operation chains",
 "Unit tests assert a few fields of a few dozen SELECTs; feature interactions (TOP with LIMIT, ORDER BY on set operations inside subqueries, alias column lists on joins, locking with set operations) multiply beyond enumeration by hand.",
 [Y,"src/sql/SelectStatement.h","src/sql/Table.h",S],[("grammar actions building SelectStatement/TableRef/SetOperation",Y)],
 observe=["full-field dump compared with an independent reference parser"])

p("C06","DML, transaction, prepare, COPY, SHOW statements are represented faithfully",
 "The tree of an accepted INSERT, UPDATE, DELETE, TRUNCATE, BEGIN/COMMIT/ROLLBACK, PREPARE, EXECUTE, DEALLOCATE, IMPORT, COPY (both directions), SHOW or DESCRIBE statement carries every name, schema, column, value, assignment, condition, file path, file type, encoding, CSV option, hint and embedded query of the text in its proper field and order, and nothing that is not in the text. A bare DELETE and TRUNCATE yield the same tree.",
 ["inputs"],"all accepted texts of these statement kinds",
 "The suite checks one or two instances per statement kind and only some fields.",
 [Y,"src/sql/InsertStatement.h","src/sql/UpdateStatement.h","src/sql/ImportStatement.h","src/sql/ExportStatement.h",S],[("grammar actions of the respective statements",Y)],
 observe=["full-field dump compared with an independent reference parser"])

p("C07","DDL statements are represented faithfully",
 "The tree of an accepted CREATE TABLE / VIEW / INDEX, DROP or ALTER statement carries every schema and object name, IF [NOT] EXISTS flag, column with its exact type, length, precision and scale, every column and table constraint with its columns and referenced table and columns (in order), file path and defining query of the text. A column is marked non-nullable exactly when it is declared NOT NULL or PRIMARY KEY.",
 ["inputs"],"all accepted DDL texts, all column counts, type parameters and constraint combinations and orders",
 "Unit tests cover a few CREATE TABLE texts; the product of types, parameters, constraint sequences and name qualification is far larger.",
 [Y,"src/sql/CreateStatement.h",C,S],[("grammar actions for create/drop/alter and column_type",Y),("setColumnDefsAndConstraints, trySetNullableExplicit",C)],
 observe=["full-field dump compared with an independent reference parser"])

p("C08","Operators group by their precedence and associativity",
 "For every expression, in every context, the tree groups operators as the dialect defines: from tightest, array index; ||; ^; * / %; + - (binary left-associative, unary minus at the same level); IS [NOT] NULL / ISNULL; < > <= >=; = == <> != [NOT] LIKE, ILIKE (both comparison levels non-associative, chaining is an error); NOT; AND; OR, with parentheses overriding. IN, BETWEEN and EXISTS predicates take operands that bind tighter than AND, and prefix NOT applies to the whole comparison, LIKE, IN or BETWEEN predicate that follows it.",
 ["inputs"],"all operator sequences in all expression positions (select list, WHERE, HAVING, ON, ORDER BY, LIMIT, CASE, CAST, function arguments, IN lists, UPDATE values)",
 "Tests contain about ten expressions; a wrong precedence or associativity for one operator pair silently changes query results and shows only for that pair.",
 [Y],[("%left/%right/%nonassoc table",Y),("operand/expr split",Y)],
 observe=["expression trees compared with an independent operator-precedence parser, exhaustively for short operator sequences"])

p("C09","Literals and identifiers keep their exact value",
 "Every integer literal yields exactly the 64-bit value of its decimal digits (leading zeros are insignificant; values that do not fit are rejected, -9223372036854775808 is representable), every decimal literal the nearest double whatever the process locale, and every string, quoted identifier, plain identifier, date and interval exactly the characters (with '' read as one quote) or value and unit written. TRUE, FALSE and NULL are distinguishable from 1, 0 and strings.",
 ["inputs","configurations"],"all literal spellings of any length and magnitude, in every position where a literal or name may appear, under every process locale",
 "Tests use a few small literals in the C locale; boundary values, long strings, doubled quotes at the edges, leading zeros and locale-dependent decimal points are not settled by samples.",
 [L,Y,E],[("strtoll/atof conversions, substr, strbuf accumulation",L),("makeLiteral/makeDateLiteral/makeIntervalLiteral",E)],
 observe=["values re-derived by an independent lexer"])

p("C10","Layout, comments and keyword case do not change the meaning",
 "Replacing whitespace between tokens by any other whitespace, newlines or -- comments (anywhere between two tokens, with any comment text; CURRENT ROW and CHARACTER VARYING are single tokens that take only blanks inside), changing the letter case of keywords, writing != as <> or a comparison's = as ==, and removing whitespace where tokens stay separate never changes whether a text is accepted or any part of the resulting tree other than positions and lengths. A comment ends exactly at its line end: nothing before or after that line is affected.",
 ["inputs"],"all texts times all layouts, comment placements and keyword spellings",
 "Tests use one layout per query; a comment rule that swallows one line too many or a keyword matched in only one case needs a specific layout to show.",
 [L],[("whitespace and comment rules, case-insensitive option",L)],
 observe=["tree equality between two renderings of the same token sequence"])

p("C11","A script of statements parses like its statements, with exact extents",
 "Parsing statements joined by semicolons yields exactly the trees of parsing each alone, in order and in number, apart from parameter numbering. The reported statement lengths partition the text: taking consecutive slices of those lengths gives pieces that contain exactly their own statement and its terminating semicolon (a slice never begins with the previous statement's semicolon, and at most layout follows the last one), and each slice parses alone to the same single statement.",
 ["inputs"],"all sequences of statements of any kinds and lengths with any layout between them, with or without trailing semicolon",
 "One unit test checks three lengths of one script; whether the look-ahead token has been read when a length is taken depends on the statement kind, so each kind and ending behaves separately.",
 [Y,"src/sql/SQLStatement.h"],[("string_length accounting per statement",Y)],
 observe=["stringLength slices re-parsed and compared"])

p("C12","Parameters are exactly the placeholders, numbered in text order",
 "After a successful parse, the parameter list contains exactly the nodes of the ? placeholders in the tree, each once, in the order in which they appear in the text over all statements, and their ids are 0,1,2,... in that order. Placeholders are rejected where only constants are allowed (INSERT values, EXECUTE arguments, hints), and an unsuccessful parse exposes no parameter. Parameters added by hand to a result are kept in the order of their ids.",
 ["inputs"],"all accepted texts with any number of placeholders at any positions, across statements and subqueries",
 "Tests use at most three placeholders in simple positions; tree order, reduction order and text order differ in clauses such as LIMIT, ORDER BY, CASE, WITH or subqueries.",
 [Y,R],[("param_list in the location, renumbering in the input rule",Y),("addParameter keeps the list sorted",R)],
 observe=["parameters() against a walk of the tree and the reference token order"])

p("C13","Failures are reported completely and at the right place",
 "When a text (of at most 2147483645 bytes) is not accepted, parse still returns true, the result is not valid, holds no statements and no parameters, and has a non-empty error message; when it is accepted there is no error message. For a syntax error, the reported zero-based line and byte column are those of the first byte of the first token that cannot continue any valid text (somewhere within that token if it is quoted or invalid; if the text ends too early: between the start of its last token, blank run or comment and its end); for a semantic error they lie inside the offending construct (if an unexpected token follows that construct directly, either may be reported).",
 ["inputs"],"all rejected texts, every failure kind and position including failures after valid statements and on later lines",
 "Tests check validity for some bad queries but hardly any position or message; positions depend on location bookkeeping through comments, newlines and multi-piece tokens.",
 [Y,L,R,P],[("yyerror and YYERROR actions",Y),("YY_USER_ACTION location tracking",Y),("setErrorDetails",R)],
 observe=["errorMsg/errorLine/errorColumn against the reference parser's first non-viable token"])

p("C14","A result object behaves as a simple owner through any history of operations",
 "For any sequence of constructing, parsing into fresh or reset results, resetting, move-constructing, move-assigning (onto empty or occupied results), releasing statements and destroying, each result always shows exactly the statements, validity, error details and parameters of the contents last put into it, and moving transfers all of them, leaving the source empty, invalid and reusable. Releasing takes the statements and parameters out of a result and leaves its validity and error details as they were. Resetting or overwriting disposes of the old contents completely, released statements stay usable until the caller deletes them, and no result ever refers to memory it no longer owns.",
 ["histories"],"all finite sequences of these operations over several results and parse outcomes",
 "One unit test moves one result once; aliasing and staleness bugs need particular operation sequences (parse with parameters, reset, parse again; assign over an occupied result).",
 [R,"src/SQLParserResult.h"],[("move operations, reset, releaseStatements, addParameter, destructor",R)],
 state=[("statements_/isValid_/errorMsg_/errorLine_/errorColumn_/parameters_","contents of a result","src/SQLParserResult.h")],observe=["public accessors against a sequential model; ASan; live-block count"])

p("C15","Concurrent parsing in separate threads is race-free and isolated",
 "Any number of threads may parse and tokenize different or identical texts into their own results at the same time, and hand results to other threads for reading, printing and destruction, and several threads may read and print one result at the same time; every thread obtains exactly what a single-threaded parse of its text gives, and no data race occurs. This covers failing parses, string literals and every statement kind.",
 ["schedules","inputs"],"all interleavings of parses in any number of threads over all inputs",
 "The suite is single-threaded.",
 [L,Y,P,R],[("reentrant scanner and pure parser",L),("thread_local string buffer",L)],
 observe=["ThreadSanitizer; per-thread results against single-threaded results"])

p("C16","Earlier calls, entry point and process settings do not influence a parse",
 "Parsing a text gives the same result whatever was parsed or tokenized before in the process (including failed parses, unterminated strings and comments), whether through parse or the deprecated parseSQLString overloads, into a new or a reset result, and whatever the process locale or errno. Parsing changes neither the input, nor earlier results, nor errno-independent process settings, and writes nothing to standard output.",
 ["histories","configurations","inputs"],"all sequences of calls before a parse, all entry points, all locales",
 "Tests run each query once or in a fixed order; state leaking from a failed parse (scanner state, string buffer, locale-dependent conversion) needs a particular predecessor.",
 [L,P,R],[("fresh scanner per call, strbuf cleared when a string starts",L),("parseSQLString delegates to parse",P)],
 observe=["full dumps of the same text after different histories and through different entry points"])

p("C17","Tokenize yields exactly the token sequence of the text",
 "For every text of at most 2147483645 bytes, tokenize returns true and appends the codes of the tokens of the text (up to the first invalid character or unterminated quote, if any), in order and exactly once, where whitespace and comments yield none, keywords are recognised case-insensitively as whole words, the longest token wins and quoted text is never split. Texts that tokenize to the same codes are accepted or rejected alike by the parser unless they differ in the value of a literal or name.",
 ["inputs"],"all texts",
 "Three unit tests tokenize three short statements.",
 [P,L],[("tokenize loop",P),("token rules",L)],
 observe=["token codes against an independent lexer"])

p("C18","Printing is total, read-only and shows the content of a SELECT",
 "Every statement the parser produces, of moderate nesting and chain length, can be printed: printing terminates without error at a cost in proportion to the statement and its output, leaves the statement and the state of the output stream unchanged, and repeated printing gives identical text. For SELECT every column name, table name, alias, function name, string and integer of the select list, FROM (with USING columns and join conditions), WHERE, GROUP BY, HAVING, ORDER BY, LIMIT and OFFSET appears in the printed text, also those inside subqueries, set operations, CASE, IN, BETWEEN and EXISTS.",
 ["inputs"],"all accepted statements",
 "Tests never look at printed output.",
 [H],[("recursive printing functions",H)],observe=["captured standard output, before/after dumps"])

p("C19","Parsing cost stays proportional to input size, and long inputs do not crash",
 "Work and memory for parsing, reading and destroying grow no faster than n log n in the length of the text for repetitive inputs of any kind - long lists, long operator, join and comma chains, many statements, many parameters, long strings, comments and whitespace, accepted or rejected. Flat inputs of any length are processed with bounded stack, and nested inputs beyond the nesting limit fail with an error instead of crashing.",
 ["inputs"],"all input families with growing length or nesting",
 "Tests use small inputs; quadratic behaviour and stack exhaustion appear only with size.",
 [Y,L,P,R,E,S],[("left-recursive list rules",Y),("fixed parser stack",Y),("parameter list handling",R)],
 observe=["executed-edge counts and allocated bytes at doubling sizes; runs under a limited stack"])

p("C20","PREPARE carries its query text verbatim",
 "The query stored by PREPARE ... FROM '<text>' is exactly the quoted text with doubled quotes undoubled, so that parsing it gives the same result (statements, parameters, validity) as parsing that text directly, at any depth of nesting of PREPARE within PREPARE. EXECUTE carries its constant arguments in order with their exact values, signs, casts and intervals.",
 ["inputs"],"all inner texts (multi-statement, with quotes, newlines, comments, placeholders), all argument lists",
 "One unit test prepares two simple queries.",
 [L,Y,"src/sql/PrepareStatement.h"],[("string rule accumulating into strbuf",L),("prepare_statement, execute_statement",Y)],observe=["stored query text, parses of inner texts"])

p("C21","Constraint, option and literal-format rules are enforced, no more and no less",
 "A column declared NULL together with NOT NULL or PRIMARY KEY, a malformed DATE (anything but 1-4, 1-2 and 1-2 digits separated by -), a malformed or unknown INTERVAL, an unknown file type or CSV option, a repeated FORMAT, ENCODING or CSV option, a CSV option with a non-CSV format in either order, and a NULLS clause other than FIRST or LAST are rejected wherever they occur and whatever surrounds them. The same constructs without the offence are accepted.",
 ["inputs"],"all option and constraint sequences and orders, all literal spellings, at all positions in statements and scripts",
 "Tests try single offences in isolation; orders and combinations, several columns, and offences followed by further text are open.",
 [Y,C],[("checks in column_def, import_export_options, csv_option, date_literal, interval_literal, opt_null_ordering",Y)],
 observe=["isValid() and message against an independent rule model"])

p("C22","Accepted trees are well-formed",
 "In every accepted result each node is owned by exactly one parent (no sharing, no cycles), statement type tags match the dynamic type, enumeration fields hold declared values, and the children each node kind requires are present: operators have exactly the operands of their arity, lists that the language requires to be non-empty are non-empty, and names are non-empty zero-terminated strings. Fields that do not belong to a node's kind are empty.",
 ["inputs"],"all accepted inputs",
 "Tests check fields one by one for chosen queries; consumers such as the printer or a translator rely on the shape for every query.",
 [Y,E,S,"src/sql/Expr.h"],[("factory functions in Expr",E),("grammar actions",Y)],observe=["structural walker over the public AST"])

p("C23","Convenience accessors and type comparison agree with the data",
 "For every node reachable in an accepted tree or made directly, isType/is, isLiteral, hasAlias, hasTable, hasSchema and getName return what the node's fields say (the alias if there is one, otherwise the name), and result accessors (size, getStatement, getMutableStatement, getStatements) agree with each other. Column types compare equal exactly if kind, length, precision and scale are all equal, inequality is its negation, and printing a type, constraint, operator or interval unit names that value and no other; a streamed type or constraint is exactly its SQL spelling.",
 ["inputs"],"all nodes of all accepted trees, all pairs of column types",
 "Tests call an accessor on one or two nodes each.",
 [E,S,C,R,H,"src/sql/ColumnType.h"],[("accessor implementations",E),("operator== and operator<<",S)],observe=["accessor results against fields at every visited node"])

p("C24","Printing tells statements apart and keeps the order of their parts",
 "Two accepted statements whose printed content differs in one place - an operator or its negation, the grouping or order of operands, a name, alias, literal, sort direction, frame, set operation, lock, transaction command, or which clause an expression stands in - print differently, and where exactly one line differs that line shows the new content. Texts that parse to the same tree print identically, and operands of one node are printed in the order in which they are written.",
 ["inputs"],"all printable statements and all one-place changes of them (by token exchange, insertion, removal, operand swap and regrouping)",
 "Printing is not compared with anything in the suite; an operator shown under the wrong name, swapped bounds or a lost negation only shows on the construct concerned.",
 [H],[("operator names and recursive printing",H)],observe=["std::cout of printStatementInfo for pairs of texts"])

p("C25","A parser that cannot be set up says so, and otherwise every call reports back",
 "If the memory for the scanner cannot be obtained, parse, parseSQLString and tokenize return false, the result is not valid and holds no statement, the token vector is unchanged, nothing is leaked, and the same result object and later calls work normally once memory is available again. For texts of at most 2147483645 bytes, parse, parseSQLString and tokenize return true in every other case, whatever the text and whether or not it is valid SQL, and the verdict on the text is in the result alone.",
 ["fault_sequences","inputs"],"all texts, entry points and earlier uses of the result, with the set-up allocation failing or not",
 "No test makes an allocation fail; the return value of a failing set-up has never been observed.",
 [P,L],[("hsql_lex_init is checked before the scanner is used",P)],observe=["return values and results while the first C allocation of a call is refused by the interposed allocator"])

p("C26","Trees built by hand behave like parsed ones",
 "Every public constructor and factory (Expr::make..., the statement, table, alias, join, order, limit, window, frame, group, set operation, lock, column, constraint and option classes) stores exactly the arguments it is given and sets every other pointer to null, every flag to false and every enumeration to a declared value, whatever the memory held before. A statement rebuilt through them node by node equals the parsed one field by field and prints the same; destroying it, or a result it was added to, in any way releases every owned field once, also fields the parser never fills together.",
 ["inputs","histories"],"all node kinds, argument combinations and statements, all prior contents of memory, and all combinations of filled owned fields",
 "Tests build trees only by parsing, so constructors that leave a field open, factories that mix up arguments and destructors that forget a rarely set field go unnoticed.",
 [E,S,C,"src/sql/Expr.h","src/sql/SelectStatement.h","src/SQLParserResult.cpp"],[("constructors and destructors of AST nodes",S),("factory functions",E)],
 observe=["fields of freshly made objects over patterned memory","malloc balance","dump and printed form against those of the parsed statement"])

p("C27","A phrase means the same wherever it stands",
 "Wherever the language takes an expression in parentheses, an operand, a select in parentheses or after AS, a table with alias, a column type, a literal or a name, it takes every other phrase of that kind (up to the parser's depth limit), and the tree is that of the surroundings with the phrase's own tree in that place: the phrase is read as it is read alone, and nothing around it changes (a select in parentheses that is directly followed by a set operation, ORDER BY or LIMIT is extended by that). In particular names, however spelled or quoted, and the size and kind of neighbouring phrases never influence how the rest is read.",
 ["inputs"],"all accepted texts, all places in them and all phrases that can stand there",
 "The suite parses each construct in one or two surroundings; that the grammar is compositional, with no state leaking from one phrase to its neighbours, is a statement about all pairs.",
 [Y,L,E],[("every rule that embeds expr, select_with_paren, table_ref_atomic, column_type, literal or IDENTIFIER",Y),("token values handed from scanner to parser",L)],
 observe=["dumps of the surroundings with a marker, of the phrase alone, and of both together"])

p("C28","What follows a syntax error cannot change the report",
 "If a text is rejected with a syntax error at some token, every text with the same beginning up to and including that token (and the same token boundaries) is rejected with the same message, line and column, whatever follows: nothing, other tokens, an open quote, invalid characters, further statements or very long text.",
 ["inputs"],"all rejected texts with a syntax error and all continuations",
 "Tests give one ending per error; that the parser stops at the first impossible token and reports from what it has read so far concerns all endings.",
 [Y,L,R,P],[("yyerror",Y),("bison error handling without recovery rules",Y),("setErrorDetails",R)],
 observe=["isValid, errorMsg, errorLine, errorColumn of texts with a common beginning"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(props),"properties")
