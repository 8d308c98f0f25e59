#!/usr/bin/env python3
"""Source of properties.jsonl: run to regenerate it."""
import json
TOK="sqltoken/tokenizer.go"; P="parser.go"; W="sqlast/walk.go"; R="sqlastutil/rewrite.go"
AST=["sqlast/ast.go","sqlast/query.go","sqlast/stmt.go","sqlast/type.go","sqlast/value.go","sqlast/operator.go","sqlast/table_option.go"]
DIA=["dialect/dialect.go","dialect/mysql.go","dialect/postgres.go"]
props=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("T01","Tokenizing any text terminates with tokens or an error, never a panic",
  "For every input text and each of the three dialects, tokenizing the text ends after a number of steps bounded by its length and yields either the complete token list or an error; it never panics, hangs or grows without bound. A quoted string, quoted identifier or block comment that is still open at the end of the input is reported as an error.",
  ["inputs","configurations"],"every byte sequence, every dialect, comments kept or dropped",
  "The tests tokenize a few dozen well-formed strings; no test contains text that ends inside an open construct, and non-termination cannot be sampled.",
  [TOK]+DIA,[("token dispatch and its end-of-input cases","sqltoken/tokenizer.go next"),("string / comment scanners","sqltoken/tokenizer.go tokenizeSingleQuotedString, tokenizeMultilineComment")],
  [("scanner position","how much input was consumed","Tokenizer.Scanner")],["Tokenizer.Tokenize","Tokenizer.NextToken"])
p("T02","The token list reproduces the source text, nothing lost or changed",
  "When tokenizing succeeds, writing every token back in its source form (quotes and doubled quotes restored, comment delimiters restored) in order gives exactly the input text, with CR and CRLF line ends written as LF and a byte order mark at the very start left out (texts that are not valid UTF-8 or hold NUL characters are outside, as are quoted identifiers holding the quote character). No character of the input is dropped, duplicated, reordered or attributed to two tokens, and dropping comments and whitespace removes exactly the comment and whitespace tokens.",
  ["inputs","configurations"],"every byte sequence the tokenizer accepts, every dialect, comments kept or dropped",
  "Tests compare a handful of token lists; corruption such as a lost character after a star in a block comment needs specific adjacent characters.",
  [TOK]+DIA,[("per-token scanners","sqltoken/tokenizer.go next, tokenizeWord, tokenizeSingleQuotedString, tokenizeMultilineComment"),("comment filter","sqltoken/tokenizer.go Scan")],None,["Tokenizer.Tokenize"])
p("T03","Token positions tile the source with the right lines and columns",
  "Every token starts where the previous token ended, the first at line 1 column 1, and each token's end is the position reached by reading its source characters: a line end (LF, CR or CRLF) moves to column 1 of the next line, a tab advances four columns and every other character one. This holds inside quoted strings, quoted identifiers and comments as well, whether or not comments are kept (texts that are valid UTF-8 without NUL characters and byte order marks inside).",
  ["inputs","configurations"],"every text the tokenizer accepts, every dialect",
  "Positions are tested on single-line ASCII samples; line ends or multi-byte characters inside literals are untested and shift every later position.",
  [TOK],[("line/column accounting","sqltoken/tokenizer.go next and helpers"),("From/To assignment","sqltoken/tokenizer.go Scan")],[("Line, Col","current source position","Tokenizer")],["Token.From","Token.To"])
p("T04","Token boundaries and kinds follow the dialect's lexical rules",
  "Each token is the longest one the lexical grammar of the chosen dialect allows at its position and has the kind that grammar gives it: words, quoted identifiers, numbers, strings, national strings, line and block comments, one- and two-character operators, punctuation. Which characters start or continue a word, and which quote an identifier, depends only on the dialect.",
  ["inputs","configurations"],"every text, every dialect",
  "A differential over all character adjacencies and dialects is out of reach of example tests, which use the generic dialect almost exclusively.",
  [TOK]+DIA,[("character dispatch","sqltoken/tokenizer.go next"),("dialect character classes","dialect/*.go")],None,["Token.Kind","Token.Value"])
p("T05","Words are keywords exactly when the keyword list has them, in any case",
  "An unquoted word is recognised as a keyword exactly if its upper-case form is in the dialect keyword list, whatever mix of upper and lower case it is written in, and keeps its original spelling as its value. A quoted word keeps its exact text and quote style.",
  ["inputs"],"every word over the identifier alphabet, every keyword, every case pattern",
  "Case patterns are exponential in keyword length; tests use all-upper or all-lower spellings, which take a separate cached path.",
  [TOK,"dialect/keywords.go"],[("keyword lookup with cache","sqltoken/tokenizer.go MakeKeyword"),("keyword tables","dialect/keywords.go")],[("keyword cache","precomputed words","sqltoken.keywordCache")],["SQLWord.Keyword","SQLWord.Value"])
p("T06","Comparing source positions is a total order by line, then column",
  "Comparing two source positions returns a negative, zero or positive result according to whether the first lies before, at or after the second in reading order (line first, then column), for all integer values. The comparison is antisymmetric, transitive, and zero only for equal positions.",
  ["inputs"],"all pairs and triples of positions over the full integer range",
  "No test compares positions directly; comment association depends on it.",
  [TOK],[("comparison","sqltoken/tokenizer.go ComparePos")],None,["ComparePos"])
p("T07","A read error of the source is reported, never taken for end of input",
  "If reading the source fails with an error other than end of file, at any point, then tokenizing, creating a parser and parsing report an error. A statement cut short by a failing reader is never returned as if it were complete.",
  ["inputs","fault_sequences"],"every text and every position at which the reader fails, however the reader splits its data",
  "All tests read from in-memory buffers that never fail.",
  [TOK,P],[("source reading","sqltoken/tokenizer.go NewTokenizer, Scan")],None,["NewParser","Tokenizer.Tokenize"])

p("P01","Parsing any token sequence returns a tree or an error, never a panic",
  "For every sequence of tokens, well-formed or not and ending anywhere, each public parse operation (statement, statement list, file, expression, data type) terminates and returns either a usable result or a non-nil error. It never panics, never loops forever, never returns neither and never terminates the process.",
  ["inputs"],"all token sequences over the full vocabulary (keywords, identifiers, literals, operators, punctuation, whitespace, comments), all entry points",
  "Tests parse valid SQL; the malformed and truncated inputs that crash a recursive-descent parser are unbounded in number.",
  [P],[("token access helpers","parser.go nextToken, peekToken, prevToken, expectKeyword, expectToken"),("entry points","parser.go ParseStatement, ParseSQL, ParseFile, ParseExpr, ParseDataType")],[("index","next token","Parser.index")],["Parser.ParseStatement","Parser.ParseSQL"])
p("P02","Printing a parsed statement and parsing it again gives the same tree",
  "For every SQL text the parser accepts, the SQL printed from its tree is accepted again and parses to the same tree up to source positions, and printing that tree gives the same text. Printed SQL is therefore a faithful, stable rendering of what was parsed. Quoted identifiers holding the quote character itself are outside.",
  ["inputs"],"all accepted statements within the documented statement families, all literal contents",
  "Round-trip tests cover some sixty files; combinations of clauses and operators, literal contents with quotes and unusual data types are not covered.",
  [P]+AST,[("printers","WriteTo/ToSQLString of every node in sqlast"),("writer","sqlast/writer.go"),("parser","parser.go")],None,["ToSQLString","ParseStatement"])
p("P03","Nothing in an accepted statement is silently dropped or invented",
  "Every name, literal, operator and clause in the text of an accepted statement appears in the SQL printed from its tree, in the same order and number, and nothing else does, apart from a fixed list of spelling variants: AS before an alias is added, :: is printed as CAST, <> as !=, INTEGER as INT, VARCHAR and CHAR VARYING as CHARACTER VARYING, CHARACTER as CHAR, UNIQUE KEY as UNIQUE, WITHOUT TIME ZONE is left out, table options are separated by commas, and the parts of a column are printed default first, then decorations, then constraints. Parsing never ignores part of a statement it accepts.",
  ["inputs"],"all accepted token sequences within the documented statement families",
  "A tree that misses a join, a table option or a constraint still passes every test that does not contain exactly that combination.",
  [P]+AST,[("clause parsers","parser.go parseSelect, parseFromClause, parseCreateTable, parseAlterTable, parseInsert, ...")],None,["ToSQLString"])
p("P04","Expressions group by operator precedence and to the left",
  "In every expression, operators bind by precedence, tightest first: the :: cast, then * / %, then + -, then comparisons together with BETWEEN, IN and LIKE, then IS, then prefix NOT, then AND, then OR (prefix + and - bind like the binary ones, NOT EXISTS is one operand); operators of equal precedence group to the left and parentheses override. Which operand belongs to which operator is the same wherever the expression occurs in a statement.",
  ["inputs"],"all sequences of operators and operands, prefix operators and parentheses up to the stated length",
  "The number of operator combinations grows exponentially; tests have a few two-operator samples.",
  [P],[("precedence table and climbing loop","parser.go parseSubexpr, getPrecedence, parseInfix, parsePrefix")],None,["ParseExpr","ParseStatement"])
p("P05","Whitespace and comments between tokens never change the tree",
  "Inserting or removing whitespace, line ends and comments between tokens, anywhere in a statement, changes neither whether the statement is accepted nor its tree apart from source positions. This holds with comment tokens kept or dropped and for file parsing.",
  ["inputs","configurations"],"all statements, all sets of gaps filled with any whitespace or comment tokens, comments kept or dropped",
  "Every gap between tokens is a separate case and tests put comments at a few of them; a parser that peeks at raw tokens fails only at one gap.",
  [P,TOK],[("whitespace-skipping token access","parser.go nextToken, peekToken, prevToken")],None,["ParseStatement","ParseFile"])
p("P06","Keywords parse the same in any letter case",
  "Changing the letter case of keywords in a statement changes neither whether it is accepted nor the structure of its tree. Printed SQL differs at most in the spelling of user-written names.",
  ["inputs"],"all statements, every keyword occurrence, every case",
  "Tests write keywords in upper case nearly everywhere; a comparison with the raw spelling goes unnoticed.",
  [P,TOK],[("keyword comparison","parser.go parseKeyword, expectKeyword, switches on Keyword")],None,["ParseStatement"])
p("P07","A quoted identifier is always a name, never a keyword",
  "An identifier written in the dialect's identifier quotes is treated as a plain name wherever a name is allowed, even if its text equals a keyword, and never starts, ends or alters a clause. Replacing a plain name by a quoted one with arbitrary text therefore changes only that name in the tree.",
  ["inputs","configurations"],"all statements, all name positions, all quoted texts including every keyword, all dialects",
  "Tests quote only ordinary names.",
  [P,TOK],[("keyword tests on words","parser.go parseKeyword, parsePrefix, parseOptionalAlias, getPrecedence"),("word construction","sqltoken/tokenizer.go MakeKeyword")],None,["ParseStatement"])
p("P08","Literal values are kept exactly or rejected",
  "Every literal in an accepted statement (string, national string, number, boolean, NULL) is represented by a value equal to what was written (a number with a decimal point by the nearest 64-bit float), and prints as a literal of the same kind and value whatever characters it contains. A number that cannot be represented is reported as an error, not replaced by another value.",
  ["inputs"],"all string contents, all digit strings, all literal positions",
  "Tests use short ordinary literals; quotes inside strings, integers beyond the machine range and floating-point values with integral value are not tested.",
  [P,"sqlast/value.go"],[("literal parsing","parser.go parseValue"),("literal printing","sqlast/value.go")],None,["ParseExpr","ToSQLString"])
p("P09","Parsing a script gives exactly its statements, one by one, in order",
  "Parsing a text with several statements separated by semicolons returns exactly the trees obtained by parsing each statement alone, in order, and fails if any of them fails; a semicolon after the last statement is optional, an empty statement between two semicolons is rejected. No statement is dropped, merged with a neighbour or parsed twice.",
  ["inputs","histories"],"all sequences of statements up to the stated length, with and without a final semicolon",
  "Only fixed two-statement inputs are tested.",
  [P],[("statement loop","parser.go ParseSQL, ParseFile")],None,["ParseSQL","ParseFile"])
p("P10","Every query clause is accepted and recorded in its own place",
  "Queries built from the supported clauses (WITH, DISTINCT, select items with and without alias, joins of every kind, derived tables, WHERE, GROUP BY, HAVING, ORDER BY with direction, LIMIT and OFFSET, set operations with ALL, subqueries, window functions and frames) are accepted in every combination, and each clause is recorded in the place meant for it with its operands in source order. An absent clause is recorded as absent.",
  ["inputs"],"all combinations of the optional clauses and list lengths within the stated bounds",
  "The combinations of optional clauses are exponential; tests hold a few dozen of them.",
  [P,"sqlast/query.go"],[("query parsers","parser.go parseQuery, parseQueryBody, parseSelect, parseFromClause, parseWindow*")],None,["ParseStatement"])
p("P11","Every INSERT, UPDATE, DELETE and EXPLAIN form is recorded exactly",
  "INSERT (with or without columns, with value rows or a query, with assignments on duplicate keys), UPDATE with assignments and condition, DELETE with condition, and EXPLAIN of a statement are accepted in every combination of their optional parts, and each table, column, value and condition is recorded in its own place in source order. An absent part is recorded as absent.",
  ["inputs"],"all combinations of optional parts, row and assignment counts within the stated bounds",
  "Tests hold one or two samples per statement kind.",
  [P,"sqlast/stmt.go"],[("statement parsers","parser.go parseInsert, parseUpdate, parseDelete, parseExplain")],None,["ParseStatement"])
p("P12","Every schema statement form is recorded exactly",
  "CREATE TABLE (columns with data type, default and constraints in any order, table constraints, table options), CREATE and DROP INDEX, CREATE VIEW (materialized or not), DROP TABLE and ALTER TABLE (every action) are accepted in every combination of their optional parts, and each column, type, constraint, option and name is recorded in its own place in source order. An absent part is recorded as absent.",
  ["inputs"],"all combinations of optional parts and list lengths within the stated bounds",
  "Column definitions alone have dozens of optional-part orders; tests hold a few.",
  [P,"sqlast/stmt.go","sqlast/table_option.go"],[("schema parsers","parser.go parseCreate*, parseAlterTable, parseColumnDefinition, parseTableConstraints, parseTableOptions, parseDrop")],None,["ParseStatement"])
p("P13","Every supported data type parses to that type with its parameters",
  "Each supported data type name, in every spelling the grammar allows, with or without its optional length, precision, scale, time-zone, unsigned or array suffix, parses to the corresponding type with exactly those parameters, and prints as a spelling that parses to the same type, in casts, column definitions and on its own. Unknown type names become user-defined types with that name.",
  ["inputs"],"all type names and spellings, all parameter values in range, all suffix combinations",
  "Tests touch about half of the types, each with one parameter pattern.",
  [P,"sqlast/type.go"],[("data type parser","parser.go ParseDataType, parseOptionalPrecision"),("data type printers","sqlast/type.go")],None,["ParseDataType"])

p("A01","Walking a tree visits every node once, parents first, in order",
  "Walking a tree calls the visitor on every node reachable from the root exactly once, each parent before its children and children in source order (a column's default, decorations and constraints in that order; comments are not visited), and after a node's children calls it once with no node. When the visitor declines a node, exactly that node's descendants are skipped, and absent parts are never visited.",
  ["inputs"],"all tree shapes over all node types, every combination of absent and present parts, every set of declined nodes",
  "Tests walk a few parsed statements; a child missing for one node type or an absent optional part is only noticed with that shape.",
  [W]+AST,[("traversal by node type","sqlast/walk.go Walk"),("inspector","sqlast/walk.go Inspect")],None,["sqlast.Walk","sqlast.Inspect"])
p("A02","Rewriting visits every node with its true parent, field and index",
  "A rewrite traversal calls the pre and post functions on every node reachable from the root exactly once each, properly nested and in source order (the conditions of a CASE before its results, a column's default before its constraints), with a cursor that names the node's true parent, field and list index. Without edits it leaves the tree unchanged and returns the root, declining a node skips its descendants and its post call, and a post function that returns false stops the traversal there.",
  ["inputs"],"all tree shapes over all node types, every set of declined nodes, every stopping point",
  "Tests rewrite two statements; missing fields, wrong field names and absent parts show only for specific node types.",
  [R]+AST,[("application traversal","sqlastutil/rewrite.go apply, applyList"),("cursor","sqlastutil/rewrite.go Cursor")],None,["sqlastutil.Apply","Cursor.Parent/Name/Index"])
p("A03","Cursor edits change exactly the addressed place",
  "Replacing, deleting and inserting before or after through a rewrite cursor change the addressed field or list exactly as described and nothing else: the remaining elements keep their order, inserted nodes are not visited, a deleted element does not make its neighbours be skipped or visited twice, and a node replaced before its children are visited still has its own children visited rather than those of its replacement. The result of the rewrite is the tree with exactly those edits.",
  ["inputs","histories"],"all list lengths, element positions and sequences of edits up to the stated bounds, all fields of all node types",
  "Tests replace one node; the interplay of several insertions and deletions in one list with the iteration index is untested.",
  [R],[("edit operations and list iterator","sqlastutil/rewrite.go Cursor.Replace, Delete, InsertBefore, InsertAfter, applyList")],[("iterator","current index and step in a list","application.iter")],["Apply","Cursor"])
p("A04","Writing a tree reports the exact byte count and the writer's error",
  "Writing any tree to a writer produces exactly the text of its SQL rendering and returns the number of bytes written. If the writer fails, that first error is returned together with the number of bytes accepted until then, and nothing more is written.",
  ["inputs","fault_sequences"],"all node types and shapes, every byte offset at which the writer can fail",
  "Tests write to memory buffers that never fail and ignore the count.",
  ["sqlast/writer.go"]+AST,[("error-latching writer","sqlast/writer.go sqlWriter")],[("count and first error","progress of the write","sqlWriter")],["Node.WriteTo"])
p("A05","Node positions delimit exactly the node's source text",
  "For every node of a parsed tree, the start and end positions are those of the first and last token of the text it was parsed from, so children lie inside their parents and siblings do not overlap. Nodes without text of their own (an implicit join type, an empty window) are excepted. Asking any node of a parsed tree for its positions never fails.",
  ["inputs"],"all accepted statements within the documented families, all nodes of their trees",
  "Positions are stripped before comparison in nearly all parser tests.",
  [P]+AST,[("position assignment","parser.go"),("Pos/End","sqlast/*.go")],None,["Node.Pos","Node.End"])
p("A06","Every comment is associated with exactly one node, deterministically",
  "Building the comment map of a parsed file succeeds for every accepted file and associates every comment group with exactly one node of the file, the nearest enclosing or neighbouring one by the rules of go/ast's comment maps (a comment behind a statement, column or constraint on its last line, or on the next line and followed by a blank line, goes with what precedes it, every other one with what follows), losing and duplicating none. The result depends only on the source text.",
  ["inputs"],"all accepted files within the stated bounds, with comments at every gap",
  "Tests check five fixed files.",
  ["sqlast/commentmap.go","sqlast/comment.go",P],[("association","sqlast/commentmap.go NewCommentMap"),("comment collection","parser.go ParseFile")],None,["sqlast.NewCommentMap"])
p("A07","File parsing records every comment once, in order, with its text",
  "Parsing a file with comments kept records every comment of the source exactly once, in order, with its exact text and position, grouping those with no token in between (the end of a line on which a token ends separates groups as well), and gives the same statements as parsing without comments. Without comment parsing no comment is recorded.",
  ["inputs","configurations"],"all files within the stated bounds, comments in every gap, before the first and after the last statement",
  "Tests place comments in a few gaps only.",
  [P,"sqlast/comment.go"],[("comment collection","parser.go ParseFile, NewParser")],None,["ParseFile","File.Comments"])
p("A08","Well-formed hand-built trees print to SQL that parses back to them",
  "For every tree assembled from the exported node types in a way the grammar can produce, every part set in the tree appears in the printed SQL in its place, and parsing the printed SQL gives the same tree. Printing never fails, never changes the tree and treats absent optional parts as absent.",
  ["inputs"],"all node types, every combination of present and absent optional parts and list lengths within the stated bounds",
  "Printer tests cover one or two shapes of each node type.",
  AST+[P],[("printers","ToSQLString/WriteTo in sqlast")],None,["ToSQLString"])
p("S01","Results depend only on the input; no state is shared between uses",
  "Tokenizing, parsing, printing, walking, rewriting and comment mapping give the same result for the same input however often, in whatever order or how concurrently they run in a process on separate inputs. They change no state outside the objects passed to them, and results for one input share no changeable part with results for another.",
  ["schedules","histories","inputs"],"all interleavings and orders of operations on separate inputs",
  "Tests run one parse after another; a shared cache that is written, a map iteration order or an aliased tree node shows up only under specific histories or schedules.",
  [P,TOK,W,R,"sqlast/commentmap.go"],[("package-level state","sqltoken.keywordCache, dialect.Keywords and other package variables")],[("keyword cache","shared words","sqltoken.keywordCache")],["NewParser","ParseStatement","ToSQLString"])
p("Z01","Generated marker methods cover every node type of their family",
  "The code generator for marker interfaces produces, for a type list, one marker method per listed type, so that exactly the listed types satisfy the marker interface. Regenerating the checked-in files changes nothing.",
  ["inputs"],"all type lists",
  "The generator has no tests.",
  ["tools/genmark"],[("generator","tools/genmark")])
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in props: f.write(json.dumps(x)+"\n")
print(len(props))
