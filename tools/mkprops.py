#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in one readable place; run by hand, not by the checks).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

JM="jsonmatcher/"
p("C01","AND, OR, NOT and parentheses combine clause results exactly",
 "For every query built from clauses with AND, OR, NOT (or !) and parentheses and every JSON document, the query matches exactly when the Boolean formula it spells out is true of the results its clauses give on that document when each is run as a query of its own. NOT binds tightest, then AND, then OR, and parentheses override; a clause on a missing field is false, so its negation is true.",
 ["inputs","programs"],"all Boolean query trees (any nesting, any mix of operators and clause kinds) and all JSON documents",
 "The tests try a dozen fixed two- or three-clause queries against one fixed document; they cannot range over formula shapes or truth assignments.",
 ["internal/grammar/aql.peg","internal/grammar/parser_gen.go",JM+"nodes.go",JM+"build_matcher.go"],
 [("clause grammar (precedence)","internal/grammar/aql.peg OrClause/AndClause/NotClause"),("boolean nodes","jsonmatcher/nodes.go result")],["NewMatcher(q).Match(doc)"])
p("C02","Paths reach exactly the values they name, through arrays",
 "A dotted path resolves to exactly the values obtained by following its keys from the document root, where an array met on the way (or at the root) stands for the objects it directly contains; a comparison on the path is true when some resolved scalar, or some scalar directly inside a resolved array, satisfies it. Key names are compared exactly, whatever characters they contain. Values under other keys, at other depths, or inside arrays nested directly in arrays never contribute.",
 ["inputs"],"all documents (any nesting of objects and arrays, any keys, without duplicate keys in one object) and all paths",
 "One fixed document with two array-of-object fields is tested; nesting depth, key alphabets and array shapes are unbounded.",
 [JM+"json_values.go",JM+"nodes.go"],
 [("recursive lookup","jsonmatcher/json_values.go getValues"),("scalar extraction","jsonmatcher/json_values.go scalarValues")],["Match"])
p("C03","Numeric comparisons agree with real arithmetic on the values",
 "For a numeric term, equality, <, <=, >, >= and >< (between, both ends included) are true of a field value exactly when the value is a JSON number, or a string that spells a number, and the stated relation holds between the two as double-precision values. Booleans, null, objects and non-numeric strings never satisfy a numeric comparison, and integer and decimal spellings of one number are interchangeable on either side.",
 ["inputs"],"all numeric terms the query language accepts, all six operators, and all JSON field values",
 "Tests fix the field value to 1 or 1.1 and use a handful of bounds; off-by-one at either bound, sign, magnitude and int/float mixes are not reached.",
 [JM+"expr_float.go",JM+"expr_numeric.go",JM+"expr_between.go",JM+"expr_eq.go",JM+"json_values.go"],
 [("float comparison","jsonmatcher/expr_float.go matches"),("number extraction","jsonmatcher/json_values.go getNumberVal")],["Match"])
p("C04","Timestamp comparisons follow the order of instants",
 "A timestamp term is compared with a field value (a string in a recognised date format, or a number read as such) as instants in time: <, <=, >, >= and >< (both ends included) follow chronological order, equality with a full date-time holds only for the same instant whatever its UTC offset, and equality with a bare date holds exactly for instants within that UTC day. This is so for every year the query language can write (0000 to 9999); values that are not dates never satisfy a timestamp comparison.",
 ["inputs"],"all timestamp terms (years 0000-9999, any offset, any fraction), all six operators, and all field values",
 "Tests use about fifteen dates around 1970-1980; day edges, offsets, nanoseconds and far-away years are never reached.",
 [JM+"expr_datetime.go",JM+"expr_eq.go",JM+"expr_between.go",JM+"expr_numeric.go",JM+"json_values.go","parser/ast/ast.go"],
 [("datetime comparison","jsonmatcher/expr_datetime.go matches"),("term parsing","parser/ast/ast.go NewTimeVal")],["Match"])
p("C05","String terms match whole words, case-insensitively, with wildcards",
 "A string term matches a string value (or the plain decimal form of a number) exactly when the term occurs somewhere in it ignoring case, where ? stands for exactly one character, * for any run of characters (neither crosses a newline), \\? and \\* for the literal characters, and every other character for itself. If the term is entirely ASCII the occurrence must begin at a word boundary when the term begins with a letter, digit, underscore or wildcard, and likewise end at one; a term containing other characters may occur anywhere and, if it has no wildcards, accents are ignored as well. In particular every term without wildcards matches a field whose value is exactly that term.",
 ["inputs"],"all string terms and all string or number field values",
 "Nine fixed term/value pairs are tested; metacharacters, escapes, boundary placement and non-ASCII terms are an infinite space.",
 [JM+"str_matchers.go",JM+"expr_regexp.go",JM+"json_values.go"],
 [("wildcard translation","jsonmatcher/str_matchers.go stringSearchRegexp"),("non-ASCII matcher","jsonmatcher/str_matchers.go unicodeMatcher")],["Match"])
p("C06","A regular expression term means exactly the expression written",
 "A term written /re/ matches a string value (or the plain decimal form of a number) exactly when Go's regular expression re, taken verbatim between the delimiting slashes with \\/ standing for a slash, finds a match in it. Leading, trailing and repeated slashes, backslashes and any other characters of the pattern keep their meaning, and booleans, null and objects never match.",
 ["inputs"],"all regular expressions the query language can write, and all field values",
 "Nine fixed patterns are tested, only one of which contains an escaped slash, and none at an end of the pattern.",
 ["internal/grammar/aql.peg","internal/grammar/parser_gen.go","parser/ast/ast.go",JM+"expr_regexp.go"],
 [("regexp token","internal/grammar/aql.peg RegexValue"),("compilation","parser/ast/ast.go NewRegexpVal"),("match","jsonmatcher/expr_regexp.go")],["Match"])
p("C07","Network terms match by address containment and block overlap",
 "An IPv4 address or CIDR term matches a string value exactly when the text contains a well-formed IPv4 address that lies in the term's block (an address alone being a /32), or a well-formed CIDR block that overlaps it; this must hold for every prefix length 0 to 32 and for blocks written with host bits set. Malformed addresses and blocks in the text never match, nor do non-string values.",
 ["inputs"],"all address and block terms, and all texts with zero or more embedded addresses and blocks",
 "Eleven fixed pairs are tested; prefix arithmetic, multiple addresses in one text and surrounding text are not varied.",
 [JM+"expr_net.go","parser/ast/ast.go"],
 [("extraction and overlap","jsonmatcher/expr_net.go matches"),("term parsing","parser/ast/ast.go NewNetVal")],["Match"])
p("C08","An equality set is the disjunction of its members",
 "field:(v1, v2, ...) matches a document exactly when field:v1 OR field:v2 OR ... does, whatever the number, order and mixture of types of the members. The deprecated form field:~v matches exactly what field:v matches for the string, regular-expression and boolean terms it accepts.",
 ["inputs","programs"],"all equality sets of any length and type mixture, all orders, and all documents",
 "Four lists are tested; set size, order and type mixtures are unbounded.",
 [JM+"expr_eq.go",JM+"nodes.go",JM+"build_matcher.go"],
 [("one matcher per member","jsonmatcher/expr_eq.go exprEQ"),("any-of loop","jsonmatcher/nodes.go exprNode.result")],["Match"])
p("C09","exists, null and boolean terms are strict about presence and type",
 "field:exists is true exactly when the path resolves to at least one value of any kind, including null and empty containers; field:null exactly when it resolves to at least one value and every resolved value is null itself (an array containing null is not null). field:true and field:false are true exactly when some resolved scalar, or scalar directly in a resolved array, is that JSON boolean; strings, numbers and null are neither.",
 ["inputs"],"all documents and all paths",
 "A handful of fields of one document are tested; combinations of several resolutions through arrays are not.",
 [JM+"expr_exists.go",JM+"expr_null.go",JM+"expr_equal_bool.go",JM+"json_values.go"],
 [("presence","jsonmatcher/expr_exists.go"),("null","jsonmatcher/expr_null.go"),("bool","jsonmatcher/expr_equal_bool.go")],["Match"])
p("C10","Matching depends on the JSON value, not on how it is spelled",
 "Rewriting a document without changing the JSON value it denotes never changes whether a query matches it: insignificant whitespace, the order of object keys, the escaping of characters in keys and strings, and the spelling of numbers (1, 1.0, 10e-1) are all irrelevant. This holds for every operator and term type.",
 ["inputs"],"all queries, all documents without duplicate keys, and all value-preserving rewritings of them",
 "All tests use one document spelled one way.",
 [JM+"json_values.go"],
 [("string decoding","jsonmatcher/json_values.go getStringVal"),("number decoding","jsonmatcher/json_values.go getNumberVal"),("lookup by decoded key","jsonmatcher/json_values.go getValues")],["Match"])
p("C11","A match is a pure function of query and document",
 "The answer for a query and a document never depends on what was matched or parsed before, by this matcher or any other, nor on how often it is asked; documents passed in are never modified, and the caller may reuse or overwrite the buffer once the call returns. Two matchers built from one query string always answer alike.",
 ["histories"],"all interleavings of building matchers and matching valid or invalid documents, with buffers reused between calls",
 "Each test builds one matcher and matches once; no history is exercised.",
 [JM+"jsonmatcher.go",JM+"nodes.go",JM+"json_values.go","parser/parser.go"],
 [("per-call evaluation","jsonmatcher/jsonmatcher.go Match")],["Match","NewMatcher"])
p("C12","Any query text and any document bytes are handled without a crash",
 "For every byte string offered as a query, building a matcher returns either a usable matcher or a parse error, and never panics; for every matcher and every byte string offered as a document, matching returns an error exactly when the bytes are not valid JSON, and otherwise an answer, and never panics. A matcher that reported an error for one document keeps working for the next.",
 ["inputs","histories"],"all byte strings as queries and as documents",
 "Tests use only well-formed documents and a dozen malformed queries.",
 [JM+"jsonmatcher.go",JM+"json_values.go","parser/parser.go","internal/grammar/parser_gen.go","internal/grammar/aql.peg"],
 [("validity gate","jsonmatcher/jsonmatcher.go Match"),("error conversion","internal/grammar/aql.peg GetParseError")],["NewMatcher","Match"])
p("C13","Parsing a query yields exactly the tree its text denotes",
 "For every well-formed query, however it is spaced, parenthesised or quoted, the parser returns the tree the text denotes: the same operators, fields (piece by piece, with unquoted * pieces dropped), comparison operators and terms, each term with the type and exact value its literal spells, AND and OR grouping to the right. The tree's printed prefix form shows exactly that tree, and reading the query from a stream gives the same result as from a string.",
 ["inputs","programs"],"all well-formed queries in every concrete spelling",
 "Fifty fixed queries are compared with fixed printed trees.",
 ["internal/grammar/aql.peg","internal/grammar/parser_gen.go","parser/parser.go","parser/ast/ast.go"],
 [("grammar actions","internal/grammar/aql.peg"),("value constructors","parser/ast/ast.go New*Val")],["parser.ParseQuery","ast nodes","Node.String()"])
p("C14","Text outside the query language is rejected, never half-read",
 "A text is accepted as a query only if all of it is a well-formed query; anything else (missing or extra parentheses, unknown or malformed terms, unterminated strings and expressions, misspelt or unspaced keywords, trailing text, invalid dates, addresses, numbers, escapes or encoding) yields an error and no tree. Conversely every well-formed query that obeys the operator rules is accepted.",
 ["inputs"],"all texts, in particular all small edits of well-formed queries",
 "About twenty malformed queries are tested; the complement of the language is infinite.",
 ["internal/grammar/aql.peg","internal/grammar/parser_gen.go","parser/parser.go","parser/ast/ast.go"],
 [("grammar and error productions","internal/grammar/aql.peg"),("value constructors","parser/ast/ast.go")],["parser.ParseQuery"])
p("C15","Operator rules on number, type and order of terms are enforced",
 "Wherever it appears in a query, an ordering comparison (<, <=, >, >=) is accepted only with one number or timestamp, >< only with two numbers or two timestamps of which the second is strictly greater, ~ only with strings, regular expressions or booleans, and no set may list a value twice or, for plain equality, list both true and false. A query that breaks a rule anywhere is rejected with an error naming the operation or term at fault, and a query that breaks none is not rejected.",
 ["inputs","programs"],"all operator/term-list combinations at all positions of all queries",
 "Ten single-clause examples are tested; type pairs, list positions and nesting are not.",
 ["parser/validators.go","parser/visitors.go","parser/parser.go"],
 [("checks","parser/validators.go opValidator"),("walk over all clauses","parser/visitors.go walk")],["parser.ParseQuery"])
p("C16","Reported positions point at the text they are about",
 "The position of every clause and term of a parsed query, of every parser message and of every parse error lies in the query text: its offset is the byte offset of the token, its line and column the 1-based line and character of that offset, and its length the number of characters of the token, so that the text it delimits is the clause or literal itself. An error about one term is positioned at that term, and a syntax error inside the text or just past its end.",
 ["inputs"],"all queries, valid and invalid, over several lines and with multi-byte characters",
 "Tests compare a dozen error positions on single-line ASCII queries.",
 ["internal/grammar/aql.peg","internal/grammar/parser_gen.go","parser/ast/ast.go","parser/validators.go","parser/message.go"],
 [("token positions","internal/grammar/aql.peg getpos"),("error positions","internal/grammar/aql.peg GetParseError")],["ExprNode.Pos, Val.Pos, ParseError.Pos, ParserMessage.Pos"])
p("C17","Visitors see every node once, depth first, and can stop the parse",
 "A visitor passed to the parser is called once for each node of the tree, parent before children and left before right; returning the skip signal omits that node's descendants only, and the skip-all signal ends the walk without error. Any other error it returns makes the parse fail with that error (position kept if it is a parse error), and if it records one or more error messages the parse fails with the first of them, while hints and warnings are all kept, in order, and do not fail the parse.",
 ["inputs","histories"],"all query trees, all visitor behaviours (which node, which signal, which messages), any number of visitors",
 "No test passes a visitor at all.",
 ["parser/visitors.go","parser/parser.go","parser/message.go"],
 [("walk","parser/visitors.go walkr"),("message tape","parser/visitors.go addMsg")],["parser.ParseQuery with Visitors"])
p("C18","Advice given about a query is complete, placed and harmless",
 "A matcher's messages are exactly those its query calls for, in query order: a warning for each string or regular expression compared with ~ and for each full date-time compared by equality, a warning for a case-insensitive expression with non-ASCII characters, and hints for redundant .* at either end, a needless outer group, and plain alternations. Each is positioned at the term concerned, the set is the same every time the query is parsed, and messages never keep a valid query from being used.",
 ["inputs"],"all queries over all operators and term types",
 "No test looks at messages.",
 [JM+"query_messages.go","parser/visitors.go"],
 [("message rules","jsonmatcher/query_messages.go messageVisitor")],["Matcher.Messages()"])
p("C19","Match statistics count every evaluation of every part of the query",
 "After any sequence of matches, the statistics tree mirrors the query: one node per operator and clause, named for it, children in query order. The root's checked count is the number of valid documents matched and its matched count the number that matched; each inner count is the number of times that part was evaluated (the right side of AND only when the left held, of OR only when it did not) and the number of those that were true.",
 ["histories"],"all queries and all sequences of valid and invalid documents, with statistics read at any point",
 "No test reads statistics.",
 [JM+"nodes.go",JM+"node_stats.go",JM+"jsonmatcher.go",JM+"build_matcher.go"],
 [("counters","jsonmatcher/node_stats.go mark"),("tree","jsonmatcher/node_stats.go toStatsNode")],["Matcher.Stats()"],[("timesChecked/timesMatched","per-node counters","jsonmatcher/node_stats.go")])
p("C20","Matchers may be shared between goroutines",
 "Any number of goroutines may match documents with one matcher, build and use other matchers, and read statistics at the same time: every answer equals the sequential one, no count is lost, and there is no data race.",
 ["schedules","histories"],"all interleavings of concurrent matches, builds and statistics reads",
 "No test uses more than one goroutine.",
 [JM+"nodes.go",JM+"node_stats.go",JM+"jsonmatcher.go",JM+"str_matchers.go"],
 [("atomic counters","jsonmatcher/node_stats.go"),("no shared mutable state","jsonmatcher/nodes.go")],["Match and Stats from many goroutines, race detector"])
p("C21","The sampler reports exactly the key paths it has seen, and how often",
 "After any sequence of samples and resets, the sampler lists exactly the paths that lead, through at most the configured number of keys (no limit if negative), to a scalar in some successfully sampled document since the last reset, arrays being entered transparently but arrays directly inside arrays skipped. The keys at a threshold of p percent are exactly those that occur in at least p percent of the documents, and the scanned count is the number of documents sampled successfully. A document that is rejected changes nothing, a well-formed object or array is never rejected, and no input makes the sampler panic.",
 ["histories","inputs"],"all sequences of Sample (valid, malformed, empty), Reset and queries, at every depth limit and threshold",
 "Two fixed scenarios and a few fixed documents are tested, never a sample after an error, a reset, a negative depth or a root array of scalars.",
 ["sampler/sampler.go"],
 [("recursive scan","sampler/sampler.go sample"),("frequency map","sampler/sampler.go keys/totalDocs")],["Sample, Keys, KeysAtThreshold, Reset, Scanned"],[("keys","documents in which each path was seen","sampler/sampler.go"),("totalDocs","documents sampled","sampler/sampler.go")])
p("C22","Sampled key paths can be used as query fields",
 "Every key path the sampler reports for a document, used verbatim as the field of an exists query, is a well-formed field and matches that document, whatever characters the keys contain; different key sequences are never reported as the same path.",
 ["inputs"],"all documents with arbitrary keys",
 "Only keys of letters, digits and one with a space are tested, and never against the query engine.",
 ["sampler/sampler.go","internal/grammar/aql.peg",JM+"json_values.go"],
 [("path quoting","sampler/sampler.go sample"),("field grammar","internal/grammar/aql.peg Field")],["Sampler.Keys() then NewMatcher(path+':exists')"])
p("C23","Formatted messages show the query and mark the right characters",
 "Printing any positioned message about a query, at any width limit and with any template over the documented parts, succeeds; without truncation the query is shown whole, and with a limit smaller than the query an excerpt of exactly that many of its characters is shown that contains the start of the marked token (all of it if it fits), with an ellipsis on each side where text was cut. The text before, inside and after the highlight concatenate to the text shown, the highlight is the part of the token that is shown, the terminal marker line has one caret under each of its characters (one just past the end for a message there), and the label is that of the message's kind.",
 ["inputs","configurations"],"all single-line queries (multi-byte included), all positions in them, all width limits",
 "The package has no tests.",
 ["parser/fmtmsg/formatter.go","parser/fmtmsg/truncate.go","parser/fmtmsg/functions.go"],
 [("window","parser/fmtmsg/truncate.go findCenterSubstring"),("parts","parser/fmtmsg/formatter.go printData")],["Printer.Sprint"])
p("C24","A query graph has the shape and labels of the query",
 "For every well-formed query the graph rendered for it contains exactly one node per operator and clause plus the start node, connected as the query tree is, first child edge before second; operators are labelled AND, OR, NOT and each clause's label shows its field, operator and every term with its type, whatever characters they contain. Rendering succeeds without warnings, and an ill-formed query yields an error and no graph.",
 ["inputs","programs"],"all well-formed queries with printable characters",
 "The package has no tests.",
 ["aqlgraph/graph.go","aqlgraph/node_html.go","cmd/aqlgraph/main.go"],
 [("tree to graph","aqlgraph/graph.go visitNodes"),("label template","aqlgraph/node_html.go")],["Graph.OutputDOT, Graph.OutputSVG"])
p("C25","The browser parser answers as the native one and stays alive",
 "For any sequence of texts passed to the WebAssembly parse function it keeps answering: for a text the native parser accepts it returns a tree and only hints and warnings, and for one it rejects, no tree and exactly one error with the native message (syntax errors reported as an incomplete query). Every highlight range it returns lies within the text and, for messages about a term, delimits exactly that term in the browser's string indexing. The advice about a query is that about each of its comparisons alone, in order.",
 ["histories","inputs"],"all sequences of query texts whose nesting fits the call stack of the JavaScript engine",
 "Nothing tests the WebAssembly program.",
 ["wasm/aqlparse/main.go","wasm/aqlparse/warnings.go"],
 [("wrapper","wasm/aqlparse/main.go pWrap"),("advice","wasm/aqlparse/warnings.go")],["parseAQL(text) in a JavaScript engine"])
p("C26","The command-line tools report what the library computes",
 "The match tool, given a query (or a file ending in .aql holding it) and a document file, prints true or false exactly as the library answers, followed by the statistics of that single match as JSON, and exits zero; with a bad query, a bad document or a missing file it prints an error and no answer and exits non-zero. The graph tool writes the requested file for a good query and fails, with an error and non-zero exit, for a bad query or unknown format. Advice about the query and errors in it go to standard error as the terminal formatter shows them.",
 ["inputs","configurations"],"all queries, documents and argument forms",
 "The commands have no tests.",
 ["cmd/aqltest/main.go","cmd/aqlgraph/main.go"],
 [("match command","cmd/aqltest/main.go"),("graph command","cmd/aqlgraph/main.go")],["stdout, stderr and exit status of the built commands"])
p("C27","The work of parsing grows modestly with the length of the query",
 "Parsing any query, valid or not, does work that grows no faster than roughly linearly with its length: nesting of parentheses, chains of AND, OR and NOT, long lists, long strings and error paths alike. In particular no short query takes exponential time.",
 ["inputs"],"families of queries of growing size, for every grammar construct and combination of them",
 "Tests parse only short, shallow queries.",
 ["internal/grammar/aql.peg","internal/grammar/parser_gen.go","parser/parser.go","parser/validators.go"],
 [("PEG evaluation","internal/grammar/parser_gen.go parseExpr"),("parse options","parser/parser.go ParseQueryReader")],["allocations made by parser.ParseQuery"])
p("C28","The demo server serves only the files registered with it",
 "Whatever name is requested, the demo server's file system returns the contents of a file registered under exactly that base name, or an error; no request reaches any other file, and registering files in any order never changes what the others return.",
 ["inputs","histories"],"all sequences of registrations and requested names",
 "The server has no tests.",
 ["wasm/aqlparse/server/main.go"],
 [("registry","wasm/aqlparse/server/main.go DiskFS")],["DiskFS.AddFile, DiskFS.Open, http.FileServer over it"])
p("C29","Errors, messages and statistics read the same in text, JSON and fields",
 "The printed and JSON forms of every parse error and every message give its line, column and offset (none for a message without a position), its kind and its full text, equal to what its accessors return, and the JSON form of statistics gives every node's name, counts and children. An error recorded on a message tape is returned with the text and position recorded, and a matcher reports its query verbatim.",
 ["inputs","histories"],"all query texts, valid or not, all recorded messages and all match histories",
 "No test looks at the printed or JSON form of a message, an error or statistics.",
 ["parser/message.go","parser/visitors.go","internal/grammar/aql.peg","internal/grammar/parser_gen.go",JM+"node_stats.go",JM+"jsonmatcher.go","parser/ast/ast.go"],
 [("message text","parser/message.go String"),("error text","internal/grammar/aql.peg ParseError.Error"),("statistics","jsonmatcher/node_stats.go MatchStats")],["ParserMessage.String, ParseError.Error, json.Marshal of both and of Stats(), Matcher.Query"])
p("C30","The work of matching and sampling grows modestly with the document",
 "For a fixed query, matching does work that grows no faster than roughly linearly with the length of the document, whether it grows in array items, keys, nesting beside the path, text, digits or blanks, and so does sampling for documents of bounded depth.",
 ["inputs"],"families of documents of growing size, for every operator and term type and every place where a document can grow",
 "Tests match documents of a few hundred bytes only.",
 [JM+"json_values.go",JM+"expr_net.go",JM+"str_matchers.go","sampler/sampler.go"],
 [("recursive lookup","jsonmatcher/json_values.go getValues"),("scalar extraction","jsonmatcher/json_values.go scalarValues"),("sampling walk","sampler/sampler.go sample")],["executed blocks, allocations and time of Match and Sample"])
p("C31","Equivalent spellings of a query behave the same",
 "Queries that differ only in white space, redundant parentheses, ! or NOT, quoted, plain or starred field pieces, escapes in strings, zeros in numbers, spelling of an instant, or host bits and /32 of an address give the same answer on every document and the same statistics. Where their terms print alike, node names and advice (but for positions) are the same too.",
 ["inputs","programs"],"all pairs of spellings of all queries, and all documents",
 "Tests use one spelling of each construct and never compare two.",
 ["internal/grammar/aql.peg","internal/grammar/parser_gen.go","parser/ast/ast.go",JM+"build_matcher.go",JM+"expr_eq.go"],
 [("term values","parser/ast/ast.go New*Val"),("field pieces","internal/grammar/aql.peg Field")],["Match, Stats and Messages of matchers for both spellings"])
p("C32","A query read from a stream is read whole or reported as failed",
 "Reading a text from a stream, in whatever pieces it comes and however its end is signalled, gives the tree, positions or error that the text gives as a string. A stream that fails, after any number of bytes, gives an error that tells of the failure and never a tree.",
 ["inputs","faults"],"all texts, all ways to cut them into reads, and all points and kinds of failure",
 "Tests parse strings only.",
 ["parser/parser.go","internal/grammar/parser_gen.go"],
 [("reading","parser/parser.go ParseQueryReader")],["ParseQueryReader over readers that split and fail"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
