#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script only so that the text stays editable).
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=[obs]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="lib/src/"
p("P01","Any input is handled without memory errors, aborts or leaks",
 "Whatever bytes are given to the full parser or the quick parser, from a buffer or a stream and with any flags, parsing them, inspecting the outcome, rendering it and releasing it performs no invalid memory access and never aborts the process. Once the result, its segments and the configuration have been released, every allocation made on the way has been freed exactly once.",
 ["inputs"],"every byte string, entry point and flag combination",
 "Tests feed a few dozen mostly valid statements; memory errors hide in odd combinations of backtracking, error recovery, buffer growth at 512/1024-byte boundaries and nested blocks that nobody wrote down.",
 [S+"parser.c",S+"parser.leg",S+"quick_parser.c",S+"quick_parser.leg",S+"util.c",S+"vector.c",S+"string_buffer.c",S+"segment.c",S+"result.c"],
 [("block stack and AST node ownership",S+"parser.c"),("input buffer growth",S+"parser_leg.c (generated) via YY_INPUT"),("context line extraction",S+"util.c")],obs="sanitised build plus an allocation ledger around each call")
p("P02","Parsing always terminates and its work stays polynomial in nesting depth",
 "Parsing any input terminates, and nesting a construct inside itself or inside another construct d levels deep, or repeating a fragment d times, costs work bounded by a low-degree polynomial in d, whether the text is well formed, left unclosed or contains a syntax error. The only exceptions are the combinations of bracketing and prefix forms listed as known findings, where alternatives of the grammar re-parse a whole nested operand: for well-formed text these are a collection that starts with an IN expression, node patterns within collections and maps within parentheses.",
 ["inputs"],"every nesting of pairs of nestable constructs, closed, unclosed and erroneous, at every depth up to the bound",
 "A doubling of work per nesting level is invisible at the depth of two or three that hand-written tests use.",
 [S+"parser.leg",S+"quick_parser.leg"],[("ordered choice with backtracking and no memoisation",S+"parser.leg")],obs="count of executed basic-block edges of the library")
p("P03","The outcome does not depend on how the input is delivered",
 "Parsing the same bytes as a buffer or as a stream, with any partition of the stream's data into reads, and via the per-segment callback or the whole-result call, gives the same return value, segments, syntax trees, ranges, error positions and messages, end-of-input flags and last position. The same independence holds for the quick parser's segments.",
 ["inputs","schedules"],"every input and every partition of it into reads (1, 2, 3, ... bytes, and every single split point)",
 "Tests parse from strings, or from one file with one buffer size; the dependence shows only when a read boundary falls at particular bytes or the input crosses an internal buffer size.",
 [S+"parser.c",S+"quick_parser.c",S+"util.c"],[("buffer and stream input sources",S+"util.c"),("segment loop and buffer reuse",S+"parser.c")],obs="public parse entry points")
p("P04","Segments tile the input in order and end where they should",
 "The segments delivered for an input are contiguous: the first starts at the initial position, each later one starts where the previous one ended, and together they cover exactly the input consumed. A statement's segment ends just after its terminating semicolon and a client command's after its semicolon or line end, except within quotes, backticks and comments; only the final segment can report end of input, and each segment carries at most one statement or command, which is one of its root nodes.",
 ["inputs"],"every sequence of statements, commands, separators, quotes, comments and invalid text",
 "The interplay of separators with quotes, comments, line ends, recovery and end of input is combinatorial.",
 [S+"parser.leg",S+"parser.c",S+"segment.c"],[("per-segment loop",S+"parser.c"),("directive and command termination rules",S+"parser.leg")])
p("P05","Every reported position is the true line, column and offset in the input",
 "Each start or end position reported for a node, segment, error or the end of parsing has an offset within the input and the line and column which that offset has when lines are counted by line feeds, columns from 1. Each node's range covers exactly the text of the construct it denotes, excluding surrounding whitespace and comments unless the construct's own syntax runs up to a following token; a child's range lies within its parent's, and siblings are in input order (leaving aside comments enclosed in a sibling's own text and aliases that stand for the source text of their expression).",
 ["inputs"],"every input, including multi-line ones with LF and CRLF, quoted and commented line breaks and backtracking across them",
 "Line bookkeeping is adjusted during backtracking, so the error appears only for particular sequences of speculative matches over line breaks.",
 [S+"parser.c",S+"parser.leg",S+"segment.c"],[("line start stack with backtracking",S+"parser.c"),("block start, end, replace and merge",S+"parser.c")])
p("P06","Syntax trees are well formed and accessors agree with the child lists",
 "In every syntax tree, each accessor result that is a node is one of the accessor's node's own children (or absent), has a type the construct permits, and list accessors yield exactly the counted elements in input order and nothing beyond the count. Every node appears exactly once, the segment's node count equals the number of nodes below its roots, child lookups beyond the count yield nothing, and node numbers are consecutive in pre-order across the segments of a parse.",
 ["inputs"],"every parsed input that produces nodes, of every node type and list length",
 "Tests check a chosen accessor on a chosen tree; index arithmetic for optional and repeated parts depends on which of the optional parts are present.",
 [S+"ast.c",S+"astnode.h",S+"segment.c"]+[S+"ast_*.c"],[("child lists and child indexes",S+"ast.c, ast_*.c"),("ordinal assignment",S+"segment.c")])
p("P07","Each statement and clause form yields the tree that the language prescribes",
 "For every combination of the optional parts, modifiers and repetitions of statement options, schema commands, query clauses, patterns, comprehensions, predicates, collections, maps and client commands, parsing a valid text succeeds without error and yields a tree whose node types, flags, directions, order and operands are exactly those the text spells. No part of the text that is semantically significant is dropped, duplicated or attached to another construct.",
 ["inputs"],"every sentence of the language built from all alternatives with bounded nesting and repetition",
 "There are thousands of combinations of optional parts per clause; the tests exercise one or two each.",
 [S+"parser.leg",S+"parser.c"]+[S+"ast_*.c"],[("grammar rules and tree building actions",S+"parser.leg"),("sequence splitting in clause constructors",S+"parser.c")])
p("P08","Operator expressions are grouped by precedence and associativity",
 "Any expression made of unary, binary, comparison, postfix, property, subscript, slice, label and map-projection operators is grouped according to one fixed precedence order, with left association except for exponentiation, which associates to the right, and with chained order comparisons kept as one comparison of all operands. Parentheses override the grouping and leave no node of their own.",
 ["inputs"],"every operator sequence up to the bound with every placement of prefix operators and parentheses",
 "Pairs and triples of some 30 operators with prefix and postfix forms give thousands of combinations, each with its own grouping.",
 [S+"parser.leg",S+"operators.c",S+"parser.c"],[("precedence climbing predicates",S+"parser.leg"),("operator precedence table",S+"operators.c")])
p("P09","Literals, names and escapes are decoded to exactly the value written",
 "The value reported for a string, number, identifier, label, relationship type, property, function, procedure, index or parameter name, command argument, comment or unrecognised text is exactly the text written, with quotes and backticks removed, escape sequences decoded and the parts of dotted names joined with dots. An unnamed returned expression gets an alias holding its source text without surrounding whitespace.",
 ["inputs"],"every string over the alphabet of quotes, escapes, name characters, digits, dots, signs and line breaks, and every length around buffer growth",
 "Escape, quote and number forms interact with each other and with buffer growth at particular lengths.",
 [S+"parser.leg",S+"parser.c",S+"string_buffer.c"],[("string buffer appends",S+"string_buffer.c"),("string and number rules",S+"parser.leg")])
p("P10","Syntax errors are detected, located and explained exactly",
 "An input outside the language produces at least one error and an input inside it none; each error's position is the furthest point that any reading of the text could reach before failing, its message names the offending character (or the end of input) there, and it lists each thing that could have been accepted at that point exactly once. Within a segment errors are reported in input order, at most one per point of recovery. A configured colour scheme puts its codes around the parts of each message and changes nothing else.",
 ["inputs"],"every token sequence within a bounded number of edits of a valid text",
 "The furthest-failure position and expectation list depend on all speculative alternatives together; tests pin down a handful of messages.",
 [S+"errors.c",S+"parser.leg",S+"parser.c"],[("error tracking by furthest position and label set",S+"errors.c"),("error labels",S+"parser.leg")])
p("P11","The error context shows the offending line and points at the error",
 "The context given with an error is a fragment of the line on which the error occurs, at most a fixed length apart from ellipses marking cut ends, and the context offset, when within the fragment, designates the very character at the error's position. Lines longer than the limit, errors at line ends, at the end of input and after earlier segments or lines are covered too.",
 ["inputs"],"every line length around the limit, error column, number of preceding lines and segments, and line-end style",
 "The window is cut by an alternating scan in both directions, whose boundary cases arise only for particular pairs of line length and error column.",
 [S+"util.c",S+"parser.c"],[("context window extraction",S+"util.c"),("context attachment at segment end",S+"parser.c")])
p("P12","Recovery isolates an error and preserves the rest of the input",
 "After a syntax error parsing resumes at the next clause keyword following whitespace, or at the next separator, so that clauses and statements outside the skipped text are parsed exactly as they would be on their own. The skipped text is represented by an error node holding precisely those characters, and an error in one statement never changes the trees, errors or node numbering relative to the start of any other statement, unless it leaves a quote, backtick or comment open.",
 ["inputs"],"every placement of an invalid fragment in a sequence of clauses and statements",
 "Leftover parser state after a recovery shows only in the statements that follow, in combinations tests do not contain.",
 [S+"parser.leg",S+"parser.c",S+"errors.c"],[("skip and resynchronisation rules",S+"parser.leg"),("error state reset between segments",S+"errors.c")])
p("P13","Callback results and segment references control the parse as documented",
 "The callback is invoked once per segment, in order, with its user data; a positive return stops parsing successfully, a negative one stops it with that value, and no callback follows either. A segment that is retained stays fully valid and unchanged after its callback, after the parse and after other segments are released, until its last release, in whatever order retains and releases occur.",
 ["histories","inputs"],"every sequence of callback returns and of retain, release and inspect operations up to the bound",
 "Use-after-free and double release depend on the order of operations across several segments.",
 [S+"parser.c",S+"segment.c",S+"quick_parser.c"],[("segment reference count",S+"segment.c"),("callback protocol",S+"parser.c")])
p("P14","Running out of memory fails cleanly",
 "If any single allocation, or every allocation from some point on, fails during parsing, building, cloning, annotating or rendering trees, the call reports failure (or, where the allocation is not essential, succeeds with a correct outcome). It neither crashes, nor leaks, nor frees anything twice, and the process can parse correctly afterwards.",
 ["fault_sequences"],"every index of a failing allocation, single and persistent, in every operation of the driver",
 "Tests never make an allocation fail; each operation has hundreds of failure points with their own clean-up state.",
 [S+"parser.c",S+"ast.c",S+"vector.c",S+"string_buffer.c",S+"errors.c",S+"result.c",S+"segment.c",S+"annotation.c"]+[S+"ast_*.c"],[("abort of a parse by long jump",S+"parser.c"),("constructor and clone error paths",S+"ast_*.c")])
p("P15","Stream read and write failures are reported",
 "If reading the input stream fails at any byte, parsing reports failure with the stream's error instead of treating what was read as complete, and segments completed before the failure were delivered correctly. If writing fails at any byte while rendering trees, the rendering call reports failure.",
 ["fault_sequences"],"every byte position at which a read or a write fails",
 "Tests read from memory and write to memory, where nothing fails.",
 [S+"util.c",S+"parser.c",S+"quick_parser.c",S+"ast.c"],[("stream source",S+"util.c"),("tree printing",S+"ast.c")])
p("P16","A cloned tree equals its original and is independent of it",
 "Cloning any tree gives a tree with the same node types, ranges, values, flags, operands and order at every node, in which every operand refers into the clone and none into the original. Releasing either one leaves the other intact.",
 ["inputs","histories"],"every node type with every combination of optional parts, and both release orders",
 "Each of about 100 node types re-links its operands by index in its own code; tests clone at most a few of them.",
 [S+"ast.c"]+[S+"ast_*.c"],[("per-type clone functions",S+"ast_*.c"),("recursive clone",S+"ast.c")])
p("P17","Node construction and the type hierarchy are consistent",
 "Every declared node type has a name or is abstract, is an instance of itself and of exactly its documented supertypes, and every node obtained from parsing or from a public constructor has a concrete type. Nodes built through the public constructors from given children, with every combination of absent optional operands, report exactly those operands, flags, values and range.",
 ["inputs"],"every node type, every pair of types, and every combination of optional operands of every constructor",
 "There are over 100 types and 10,000 type pairs, and tests look at a few of them.",
 [S+"ast.c",S+"cypher-parser.h.in"]+[S+"ast_*.c"],[("type table",S+"ast.c"),("constructors",S+"ast_*.c")])
p("P18","Annotations behave as a map from nodes to values with release on removal",
 "For each annotation context, reading a node's annotation gives the value last attached to it and not since removed, independently of other nodes and other contexts. A value that is replaced or removed is handed back to the caller, not released. The release handler is called exactly once for each value still attached when its node or its context is released, with that node and value, and never otherwise.",
 ["histories"],"every sequence of attach, remove, read, node release and context release operations up to the bound",
 "Replacement, removal and release in different orders over several contexts and nodes need operation sequences.",
 [S+"annotation.c",S+"ast.c"],[("annotation lists",S+"annotation.c")])
p("P19","Rendering a tree prints every node, completely and in order",
 "Rendering prints one entry per node in pre-order with its number, range, nesting depth, type name and a detail that identifies the node's value and the numbers of its operands, whatever the width, and with colours only adding escape codes. Long details are wrapped or padded but never truncated, and rendering a result, a segment or a node agree on the entries they share.",
 ["inputs","configurations"],"every node type, detail length around the internal buffer sizes, width, colour setting, and tree depth",
 "Details come from per-type format code with fixed-size buffers and wrap arithmetic, which tests exercise with short values at one width.",
 [S+"ast.c",S+"result.c",S+"segment.c"]+[S+"ast_*.c"],[("tree printing and wrapping",S+"ast.c"),("detail strings",S+"ast_*.c")])
p("P20","A non-default initial position or number shifts the outcome and nothing else",
 "Configuring an initial position makes every reported position equal to the default one shifted accordingly: lines and offsets everywhere, columns on the first line only; configuring an initial node number shifts all node numbers by it. Trees, values, messages, contexts and segmentation are unchanged, and each segment of a multi-segment input is positioned as if parsing had started there.",
 ["inputs","configurations"],"every input of the corpus with every initial position and number of a grid",
 "Offsets enter ranges, error tracking and contexts at different places; only non-zero starts combined with several lines, segments or errors show a mix-up.",
 [S+"parser.c",S+"parser_config.c",S+"errors.c"],[("initial position applied to segments",S+"parser.c")])
p("P21","Parses do not share mutable state, so they can interleave and run in parallel",
 "Parses running in different threads, or nested in each other's callbacks, or following one another in any order, each give the outcome they give alone, as do queries, rendering and clones of unrelated results. There are no data races between operations on distinct objects.",
 ["schedules"],"every interleaving of two or three parses at read and callback boundaries, and every nesting of a parse within another's callback",
 "Shared state appears only when two parses overlap at particular points.",
 [S+"parser.c",S+"quick_parser.c",S+"ast.c",S+"errors.c"],[("parser context held on the stack",S+"parser.c"),("static tables",S+"ast.c")])
p("P22","Layout, comments and keyword case do not change the meaning",
 "Replacing the whitespace between any two tokens by any other non-empty mix of spaces, tabs, line breaks and comments, or changing the letter case of keywords, leaves the tree (apart from comment nodes, positions and aliases that repeat the source text of an unnamed projection) and all values unchanged. Every comment appears in the tree once, with its text, as a comment node at its place in the input.",
 ["inputs"],"every gap between tokens of the corpus crossed with every layout variant, and every keyword in several casings",
 "The grammar spells the optional whitespace separately in some 500 places, each of which can be wrong on its own.",
 [S+"parser.leg"],[("whitespace and comment rules after each token",S+"parser.leg")])
p("P23","The quick parser splits input like the full parser and preserves text",
 "For input that the full parser accepts and whose statement option values (which run to the next blank) hold no quote, separator or comment mark, the quick parser delivers the same statements and commands in the same order, each with its exact source text, range, kind and end-of-input flag, without surrounding whitespace and comments, and reports the position where the next one begins. For any input at all it terminates, delivers only substrings of the input, in order and without overlap, and never splits within quotes, backticks or comments.",
 ["inputs"],"every sequence of statements, commands, separators, quotes, comments and arbitrary characters up to the bound",
 "Two independently written grammars have to agree on all inputs.",
 [S+"quick_parser.leg",S+"quick_parser.c"],[("quick grammar",S+"quick_parser.leg"),("segment callback",S+"quick_parser.c")])
p("P24","The lint tool reports what the library reports, with a truthful exit status",
 "The command line tool exits with success if and only if all the named files (or standard input) could be read and contained no syntax error. It reports each error, of every file up to the first that cannot be opened or read, with the file, line and column and the context with a pointer below the offending character. Its tree output, statement-only and single-statement options, streaming and buffered modes behave as the library calls they stand for. Colours are used where asked for and otherwise only on a stream that is a terminal.",
 ["inputs","configurations"],"every combination of options, input kinds and number of files of the grid",
 "The tool has no tests of its own at all.",
 ["linter/src/cypher-lint.c"],[("option handling and processing loop","linter/src/cypher-lint.c")])
p("P25","Parse flags select exactly what is parsed",
 "With the single-segment flag exactly the first segment of the input is parsed and delivered, identical to what it would be without the flag, and the last position is where the next parse would resume. With the statements-only flag a leading colon is no longer a command, only semicolons separate segments, and inputs without commands give the same outcome as without the flag.",
 ["inputs","configurations"],"every input of the corpus with every flag combination, for both parsers",
 "The flags interact with errors, recovery, comments, empty segments and end of input.",
 [S+"parser.c",S+"parser.leg",S+"quick_parser.c"],[("entry rule selection and single flag",S+"parser.c, "+S+"quick_parser.c")])
p("P26","A whole-input result is the concatenation of its segments",
 "The result of parsing a whole input holds exactly the root nodes, statements and commands, and errors of all its segments in order, and the sum of their node counts, and looks up nothing beyond its counts. Its end-of-input indication is true exactly when a statement or error in the last non-empty segment was ended by the end of input rather than a separator, and its contents remain valid until it is freed, independently of the segments.",
 ["inputs"],"every sequence of segments up to the bound, with and without errors and trailing blanks",
 "The result is grown by merging segment after segment; mistakes show only with particular numbers and mixes of segments.",
 [S+"result.c",S+"parser.c"],[("merging of segments into a result",S+"result.c")])
out="\n".join(json.dumps(x,ensure_ascii=False) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(out)
