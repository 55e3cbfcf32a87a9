#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
EP = "crates/event-parse/src/lib.rs"; RS = "crates/event-parse/src/rowan_sink.rs"
ALG = "crates/pattern-match/src/alg.rs"; MTX = "crates/pattern-match/src/matrix.rs"; TYP = "crates/pattern-match/src/types.rs"
PATHS = "crates/paths/src/lib.rs"; TPOS = "crates/text-pos/src/lib.rs"; APC = "crates/apply-changes/src/lib.rs"
CM = "crates/chain-map/src/lib.rs"; TS = "crates/topo-sort/src/lib.rs"; TG = "crates/topo-sort/src/graph.rs"
FH = "crates/fast-hash/src/lib.rs"; CN = "crates/char-name/src/lib.rs"; SG = "crates/syntax-gen/src/"
IC = "crates/identifier-case/src/lib.rs"; SP = "crates/str-process/src/lib.rs"; SU = "crates/str-util/src/lib.rs"
UQ = "crates/uniq/src/lib.rs"; IX = "crates/idx/src/lib.rs"; TSU = "crates/text-size-util/src/lib.rs"
AL = "crates/always/src/lib.rs"; AC = "crates/always/src/convert.rs"; H2 = "crates/code-h2-md-map/src/lib.rs"
DG = "crates/diagnostic/src/lib.rs"; FU = "crates/fmt-util/src/lib.rs"; EL = "crates/elapsed/src/lib.rs"; WR = "crates/write-rs-tokens/src/lib.rs"

p("C01", "The sink receives a gapless, in-order, duplicate-free prefix of the input tokens",
  "Finishing a parse hands the sink input tokens in input order, starting at the first one, each exactly once and unaltered, trivia included, with no token skipped between two delivered ones. Every token the grammar consumed is among those delivered.",
  ["inputs", "programs"], "every token slice, every grammar driving the parser, every sink",
  "event-parse has no test at all (lib.test = false); losslessness quantifies over all token sequences and all grammars.",
  [EP], [("finish, eat_trivia, token: cursor advances exactly with each delivery", EP)],
  [("tok_idx", "cursor into the token slice", EP)], ["calls of Sink::token"])
p("C02", "Nodes reaching the sink are balanced, and only for exited, non-empty constructs",
  "The enter and exit calls a sink receives are properly nested and balanced when finishing returns. Each exited construct yields at most one node, opened before and closed after what was consumed inside it, and a construct that consumed nothing, or was abandoned, yields none (a parse that delivered no token yields one empty node of the first construct's kind). Preceding a finished construct makes the new construct its parent.",
  ["inputs", "programs", "histories"], "every token slice and every sequence of enter/exit/abandon/precede/bump calls that closes its markers in order",
  "No test builds a tree; nesting depends on the whole history of enter/exit/precede/abandon.",
  [EP], [("enter/exit/abandon/precede record events; finish pairs levels, pending enters and sink calls", EP)],
  [("events", "recorded parse events", EP)], ["calls of Sink::enter and Sink::exit"])
p("C03", "Every recorded, not undone parse error is reported exactly once, in order",
  "Each error recorded during a parse and not undone by backtracking reaches the sink exactly once, in the order recorded. The tree-building sink returns every error it received exactly once and in that order, including those after the last token.",
  ["inputs", "programs"], "every grammar, token slice and interleaving of errors and tokens",
  "No test records an error; loss shows only for particular interleavings (error after last token, error before trivia).",
  [EP, RS], [("finish forwards Error events; RowanSink queues then ranges errors, flushing at finish", RS)], (), ["Sink::error", "RowanSink::finish"])
p("C04", "Lookahead returns the nth non-trivia token and consumes nothing",
  "Looking ahead by any distance returns the token that many non-trivia tokens ahead, or nothing when there is none, and never returns trivia. It records no event and never moves the position past a non-trivia token, so later consumption and lookahead see the same tokens.",
  ["inputs", "histories"], "every token slice, position and distance",
  "No test; depends on where trivia lies relative to the position and the end of input.",
  [EP], [("peek skips only trivia; peek_n restores the cursor", EP)])
p("C05", "Consuming takes exactly the current token; a mismatch records one error",
  "Consuming a token returns exactly the token lookahead shows, records exactly one consumption and advances past exactly that token. Conditional consumption consumes only when the current kind is the requested one; otherwise it records exactly one error for the requested kind, returns nothing and consumes nothing.",
  ["inputs", "histories"], "every token slice, position and requested kind",
  "No test; quantifies over positions and kinds.", [EP], [("bump, at, at_n, eat", EP)])
p("C06", "Backtracking restores the parser exactly when an error occurred since the save",
  "Asking whether parsing went well since a save answers no exactly when an error was recorded after that save. On no, position and recorded events are exactly those at the save; on yes, nothing changes.",
  ["histories", "inputs"], "every history of parser calls between save and the question",
  "No test saves or restores; the guarantee is about arbitrary histories in between.",
  [EP], [("save captures, ok_since scans and restores all mutable state", EP)], [("Save", "snapshot", EP)])
p("C07", "Parse markers cannot be forgotten, duplicated or forged",
  "A marker for an open construct, or for a position in a processed string, can only be obtained from the operation that opens it, cannot be copied, and is armed so that dropping it without handing it back panics. Handing it back to any operation that consumes it never panics for being unconsumed.",
  ["programs", "histories"], "every program using the parser or string-processing API",
  "Tests cannot quantify over client programs; this is a property of the API's types and of every path through the consuming operations.",
  [EP, SP], [("Entered/Marker wrap drop bombs; constructed in enter/mark, defused in consumers", EP)])
p("C08", "A finished construct reports empty exactly when no token was consumed in it",
  "A finished construct reports being empty exactly when no token was consumed between its start and its end. Skipping trivia while looking ahead does not count, and consumption inside a preceded (now child) construct does.",
  ["histories", "inputs"], "every history of enter/precede/peek/bump/exit",
  "No test reads the emptiness flag.", [EP], [("exit computes is_empty from the marker's start", EP)])
p("C09", "The tree sink keeps all text and ranges errors at the next significant token",
  "The tree sink adds each token it receives to the tree once, with its own kind and text, and mirrors each enter and exit. Each token's range starts where the previous token's ended and spans its text; an error gets range and kind of the first non-trivia token delivered after it, or of the last token if there is none.",
  ["inputs"], "every sequence of sink calls",
  "No test uses the tree sink.", [RS], [("RowanSink::token/enter/exit/error/extend_errors", RS)], [("cur", "range and kind of the last token", RS)])
p("C10", "Errors from the language hooks always abort and surface from a pattern check",
  "If any language hook called while checking a match fails, the whole check fails with that error. Malformed patterns (a wildcard with arguments, or more arguments than the constructor has types for) make the check fail when examined; a failure is never swallowed into a success.",
  ["inputs", "fault_sequences"], "every pattern list, type and language implementation, with any hook failing at any call",
  "pattern-match has no test; error paths need a failing hook at each call site.", [ALG], [("? on every Lang call in useful/specialize; CheckError returns", ALG)])
p("C11", "A pattern is reported unreachable unless some value was found to reach it",
  "Every index attached to a given pattern or any of its sub-patterns (constructor arguments and or-alternatives) is reported unreachable unless that pattern was found useful against the patterns before it, and is not reported if it was. No other index is ever reported.",
  ["inputs"], "every pattern list and language", "pattern-match has no test.",
  [ALG], [("get_pat_indices collects; useful removes iff witnesses are non-empty", ALG)])
p("C12", "Usefulness is decided row by row in match order over the full matrix",
  "Each pattern is tested only against all patterns before it, in order, and each or-alternative also against the alternatives before it; missing patterns are those a wildcard matches that no given pattern does. Testing a constructor considers every row compatible with it, with its own arguments padded by wildcards, and no other row; or-patterns in rows stand for all their alternatives.",
  ["inputs"], "every pattern list and language", "pattern-match has no test; errors show only for particular matrices.",
  [ALG, MTX], [("check/useful/specialize and Matrix::push/expand_or (Maranget's algorithm)", ALG)])
p("C13", "Missing-pattern witnesses are complete, or-free patterns with all arguments",
  "Each reported missing pattern is a single constructor pattern, never an or-pattern at any depth, and each of its constructors carries one argument per argument type, in order. A check reports missing patterns for every constructor split that is not fully covered.",
  ["inputs"], "every pattern list and language", "pattern-match has no test.", [ALG], [("witness construction in useful; con_", ALG)])
p("C14", "Clean paths are always absolute and free of . and .. components",
  "Every clean path value obtainable from the public API is absolute and has no . or .. component; making one from a relative path gives nothing. Pushing or joining keeps that: a relative path extends, an absolute one replaces, and each .. removes at most one component and never the root.",
  ["inputs", "histories"], "every path and every sequence of operations on clean paths",
  "Three sample paths are tested; the invariant quantifies over all paths and API sequences.", [PATHS],
  [("CleanPathBuf::new_unchecked normalises; only cleaned values are wrapped; fields private", PATHS)])
p("C15", "Path ids: one per distinct path, dense, stable, and mapping back to the path",
  "Asking for the id of a path returns the same id for equal paths, whichever way it is asked, and distinct ids for different paths; an id maps back to exactly the path it was given for, and existing ids never change. Combining stores reports, for each path of the other store, its id there and its id here, in one call each.",
  ["histories", "inputs"], "every sequence of lookups and combinations",
  "The id store has no test.", [PATHS, IX], [("Store::get_id/get_id_owned/get_path/combine keep vector and map in step", PATHS)])
p("C16", "Borrowed lookup keys compare, order and hash like the owned keys",
  "Types that can be looked up through a borrowed form (names by text, clean paths by path) have equality, ordering and hashing identical to that of the borrowed form. Id types equal, order and hash by their whole number, and feed a no-op hasher exactly one integer.",
  ["inputs", "programs"], "every pair of keys and every map keyed by them",
  "Tests look up at most one key; disagreement loses entries only for particular keys.", [PATHS, SU, IX],
  [("derived Eq/Ord/Hash over the one field Borrow exposes", SU)])
p("C17", "File-system access only reads, reports every failure, and both kinds agree",
  "The file systems never create, change or remove anything. Every I/O failure, including one for a single directory entry, is returned as an error, and the current directory is a clean path or an error. In the in-memory file system a path is a file exactly when reading it (as text or as bytes) succeeds with the stored contents; absent paths are not-found errors, and listing a directory gives the stored paths strictly under it.",
  ["inputs", "fault_sequences"], "every path, stored map and I/O fault", "No test calls a file-system method.", [PATHS],
  [("RealFileSystem and MemoryFileSystem impls", PATHS)])
p("C18", "Position and range conversions agree, line for line and end for end",
  "Converting a range, in either direction, gives exactly the conversions of its two end points in the same order, or nothing if either has none. Lines stay lines and columns stay columns, and both directions use the same UTF-16 column encoding; the end position is that of the text's length.",
  ["inputs"], "every text, offset, position and range",
  "Tests check only the private byte-column conversion of ASCII offsets; no UTF-16 or range conversion is run.", [TPOS],
  [("range_* apply position_* to start and end", TPOS)])
p("C19", "Only positions inside the text convert to offsets; others give nothing",
  "A line/column position or range converts to a byte offset or range only if it denotes a place in the text on a character boundary. Anything else (past the end of its line or of the text, inside a character, an inverted range) converts to nothing and never panics or overflows.",
  ["inputs"], "every text and every position or range, including hostile ones from a client",
  "No test converts a position back to an offset.", [TPOS], [("text_size_utf8/text_range_utf8 validate", TPOS)])
p("C20", "Text changes apply in order, each resolved against the text as it then is",
  "Applying changes gives the text obtained by applying them one after the other, where the last whole-text replacement, if any, makes all earlier changes irrelevant and is followed by every later change. Each range is resolved against the text left by the changes before it; a range not in the text is skipped without affecting the others, and no change sequence panics.",
  ["inputs", "histories"], "every text and every sequence of changes",
  "apply-changes has no test.", [APC, TPOS], [("last full change located; line index rebuilt unless the edit lies before the last edited line", APC)],
  [("index_valid", "first line whose index may be stale", APC)])
p("C21", "Changing a chain map never affects its clones",
  "A change to a chain map is never visible through another chain map, whether cloned before or after, appended from, or sharing storage in any way. Reading operations change nothing.",
  ["histories"], "every history of cloning, inserting, extending, removing, mutating, draining and consolidating",
  "The one smoke test never clones.", [CM], [("layers are immutable behind a reference count; mutation goes through unique ownership or copy", CM)])
p("C22", "In a chain map the newest value of a key wins in every operation",
  "Lookup, iteration, mutable access, removal, draining, consuming and consolidation all see, for each key, exactly the most recently added value, and each key once; appended maps count as newer. Inserting reports whether the key was absent before, and a map is empty exactly when no key is found.",
  ["histories"], "every history of operations",
  "The one smoke test has one key.", [CM], [("search newest layer first, merge oldest layer first", CM)])
p("C23", "Topological sort processes each element once and emits it after its dependencies",
  "Each element is processed at most once and finished exactly once if processed, after everything it asked to have processed is finished or skipped, with the count of unfinished ancestors. Elements skipped by the visitor are never processed; the finished ones are exactly the set returned, and a graph's order lists every node and neighbour once, dependencies first.",
  ["inputs", "histories"], "every graph and visitor",
  "Seven sample graphs are tested.", [TS, TG], [("Work::run action stack: done check, enter, End pushed before process", TS)])
p("C24", "A cycle is reported exactly when there is one, with an element on it",
  "Sorting reports a cycle exactly when some element is reached again while still unfinished, and the reported element is the first such element. A graph with a cycle gives an error carrying that element, and an acyclic one never does.",
  ["inputs"], "every graph", "Two sample cycles are tested, and the witness is never looked at.", [TS, TG], [("cur set insertion failure records cycle", TS)])
p("C25", "Debug and release builds behave alike except for assertions",
  "Every operation does the same work in debug and release builds: what is only compiled into one of them is checking, never an effect the other lacks. The soft assertion evaluates its condition exactly once and returns it in both; when it fails it panics in debug and logs in release.",
  ["configurations", "inputs"], "every build profile, every function of every crate",
  "Tests run in one profile only.", [AL, TS, PATHS], [("always! evaluates cond outside cfg!(debug_assertions)", AL)])
p("C26", "Literal map and set constructors keep every element and reject duplicates",
  "Making a map or set from a list of elements gives one containing exactly those elements, and panics, in every build profile, if a key or element occurs twice. The capacity constructors give empty collections and honour the capacity asked for.",
  ["inputs", "configurations"], "every element list", "fast-hash has no test.", [FH], [("assert on each insertion", FH)])
p("C27", "Punctuation names are unambiguous identifiers, alone and concatenated",
  "Different named characters have different names, every name is a capitalised ASCII identifier, and two different strings of named characters never concatenate to the same name. The panicking lookup agrees with the optional one on every character and panics exactly when that one gives nothing.",
  ["inputs"], "every character and every string of named characters (generated token kinds)",
  "char-name has no test; ambiguity is a property of the whole table and of all strings over it.", [CN, SG + "token.rs"], [("get_opt table; TokenDb::new concatenates names", CN)])
p("C28", "Generated code is a deterministic function of the options",
  "Generating code twice from the same grammar and options gives the same files, in any process and whatever hashing the maps use. No iteration order of a hash-based collection reaches the output.",
  ["inputs", "schedules"], "every grammar, option set and hasher", "syntax-gen has no test; one run cannot show nondeterminism.",
  [SG + "kind.rs", SG + "lib.rs", SG + "alt.rs", SG + "seq.rs", SG + "token.rs"], [("hash maps are sorted by a total key before use", SG + "kind.rs")])
p("C29", "Generated kind tables are complete and the raw-kind conversion is in bounds",
  "The generated kind enumeration lists every trivia, keyword, punctuation, special and node kind; each keyword and punctuation token of the grammar maps from its own text to its own kind, and has a description. Converting a raw number to a kind checks it against the last listed kind before the unchecked conversion, and the enumeration is a 16-bit one without explicit values.",
  ["inputs"], "every grammar", "syntax-gen has no test.", [SG + "kind.rs"], [("kind::get templates", SG + "kind.rs")])
p("C30", "Generated punctuation is tried longest first",
  "In the generated punctuation table a longer token never comes after a shorter one, so that a prefix of a token is never tried before it; tokens of one length are in a fixed order by text.",
  ["inputs"], "every grammar", "syntax-gen has no test.", [SG + "kind.rs"], [("sort by descending length, then text", SG + "kind.rs")])
p("C31", "Identifier case conversion keeps letters and their order for any text",
  "Converting to snake case outputs every input character in order, ASCII-lowercased, inserting one underscore before each ASCII capital but the first character and nothing else. Converting to pascal case outputs every character but underscores in order, ASCII-uppercased at the start and after underscores, ASCII-lowercased elsewhere. Both are total on all Unicode text.",
  ["inputs"], "every string", "Seven ASCII samples are tested.", [IC], [("character-wise loops", IC)])
p("C32", "String processing never moves back, and slices are exactly what was passed over",
  "The position only moves forward: by one on a bump, over exactly the longest run satisfying the condition on a conditional bump, over the whole prefix when it matches and not at all when it does not, and to the next character boundary on a character step. The slice since a marker is exactly the bytes between the marker and the current position, and having moved is reported exactly when the position passed the marker.",
  ["inputs", "histories"], "every string and every sequence of operations", "str-process has no test.", [SP], [("St methods", SP)])
p("C33", "A name is never empty and keeps its text",
  "A name can only be made from non-empty text: the fallible constructor gives nothing, and the other panics, exactly for empty text. Its text, display and borrowed forms are the text it was made from, and nothing can change it.",
  ["inputs", "programs"], "every text, every client program, every feature set", "str-util has no test.", [SU], [("Name::try_new; private field", SU)])
p("C34", "Unique ids from one maker never repeat",
  "Each id a maker returns differs from all it returned before (for fewer than 2^32 ids). Ids cannot be made otherwise, and a maker cannot be copied or rewound.",
  ["histories", "programs"], "every sequence of requests and every client program", "One pair of ids is tested.", [UQ], [("mk returns then increments; private fields", UQ)])
p("C35", "Numeric conversions never silently lose value",
  "No conversion between integer sizes silently truncates or wraps: index and text-size conversions give the same number or panic, and the soft conversions give the same number or the maximum. Converting an index to and from its number gives it back.",
  ["inputs", "configurations"], "every number, in every crate", "No test uses a large number.", [IX, TSU, AC], [("try_into().expect, saturating match; no narrowing casts", IX)])
p("C36", "The heading map keeps every line under its heading and rejects duplicates",
  "Every code heading of the input becomes one key, and its value is the caller's starting text for it followed by every later line up to the next code heading, each preceded by a newline, in order. Lines before the first heading belong to no key; two equal headings panic, never overwrite.",
  ["inputs"], "every text and starting-text function", "code-h2-md-map has no test.", [H2], [("get loop; code_h2", H2)])
p("C37", "Rendering shows every part once, in order, and never hides a formatter error",
  "Positions render one-based, line before column; ranges render start before end; diagnostics render range, severity and message; sequences render each item once, in order, separated but not led or trailed by the separator. A failing formatter's error is always returned. Warning orders below error, and a diagnostic code keeps its number through parsing, ordering and conversion.",
  ["inputs", "fault_sequences"], "every value and every formatter, including failing ones", "No test renders anything.", [TPOS, DG, FU, TYP, SU, UQ], [("Display impls, sep_seq", FU)])
p("C38", "Timing runs the function exactly once, within the measured interval",
  "Timing a function calls it exactly once, between the two clock readings, and returns its result unchanged with the later reading minus the earlier. The logging form returns the result and logs the message with that duration once.",
  ["inputs"], "every function and message", "elapsed has no test.", [EL], [("time, log", EL)])
p("C39", "Side effects, unsafe code and shared state stay where they belong",
  "Only the file-system reader, the generated-code writer, the timer and the logging assertions perform I/O, read the environment or the clock. No crate has global mutable state, spawns threads or exits the process, and the only unsafe operation is the clean-path view cast between a type and its transparent wrapper.",
  ["programs", "inputs"], "every function of every crate", "Tests cannot show the absence of effects.", [PATHS, WR, EL, AL], [("crate layout: pure crates vs effect owners", PATHS)])
p("C40", "Failures of called operations are never silently discarded",
  "Whenever an operation called by any crate reports failure through a result, the failure is returned to the caller, turned into a panic, or turned into a documented alternative result; it is never ignored. The generated-code writer in particular fails loudly if it cannot write its file.",
  ["inputs", "fault_sequences"], "every call of every crate that returns a result", "Tests inject no faults.", [WR, PATHS, FU, DG], [("? / expect / match on every Result", WR)])
p("C41", "Every loop makes progress",
  "No operation loops forever: every iteration of every loop consumes an element of a finite sequence, removes pending work or advances a bounded position. Recursion is only on parts of its argument or, in the usefulness check, on the value with its last pattern removed or replaced by its parts.",
  ["inputs"], "every loop of every crate, every input", "Tests run finite samples; non-termination hides on particular inputs.", [EP, SP, TS, CM, ALG], [("loops over iterators, stacks or bounded cursors", EP)])
p("C42", "The generated accessors pick the right child of the right kind",
  "For each part of a grammar rule the generated accessor returns, for the nth part of one kind, the nth child of that kind (all of them when repeated), of the declared type. Choices between nodes convert exactly the listed kinds, each to its own variant, and choices between tokens map each token's kind and text to its own variant.",
  ["inputs"], "every grammar", "syntax-gen has no test.", [SG + "seq.rs", SG + "alt.rs", SG + "ast.rs"], [("field, get_idx, get_nodes, get_tokens", SG + "seq.rs")])
p("C43", "The generated code lands only in the two output files",
  "Generating writes exactly the tree file and the kind file, each inside the build output directory under its own name, with the formatted form of the tokens it was given, and writes nothing if the tokens do not parse.",
  ["inputs"], "every grammar and output directory", "write-rs-tokens has no test.", [WR, SG + "lib.rs"], [("go", WR)])
p("C44", "Wrapping a value keeps its location",
  "Wrapping a value with a path id or with another value's range keeps that id or range and the value unchanged.",
  ["inputs"], "every value and location", "No test wraps.", [PATHS, TSU], [("PathId::wrap, WithRange::wrap", TSU)])
p("C50", "A match reported exhaustive is exhaustive, and one reported missing is missing",
  "For every lawful language, the check reports no missing pattern exactly when every value of the type is matched by some pattern, and each reported missing pattern matches some unmatched value.",
  ["inputs"], "every pattern list, type and lawful language", "pattern-match has no test; the statement is the algorithm's correctness theorem.", [ALG, MTX], [("Maranget's algorithm", ALG)])
p("C51", "Converting an offset to a position and back gives the offset",
  "For every text and every offset in it on a character boundary, the offset's UTF-16 position converts back to exactly that offset.",
  ["inputs"], "every text and offset", "Only forward conversions of ASCII offsets are tested.", [TPOS], [("line-index", TPOS)])
p("C52", "Cloning a consolidated chain map and adding to it is cheap",
  "Cloning a consolidated chain map and adding elements costs time independent of the number of elements already in it.",
  ["inputs"], "every map", "No benchmark.", [CM], [("reference-counted layers", CM)])
p("C53", "Snake and pascal case conversions invert each other on well-formed names",
  "Converting a well-formed pascal-case name to snake case and back gives the name, and likewise for lower snake-case names without doubled, leading or trailing underscores or digits after them.",
  ["inputs"], "every well-formed name", "Seven samples, one direction each.", [IC], [("snake_to_pascal, pascal_to_snake", IC)])
ids = [x["id"] for x in P]; assert len(ids) == len(set(ids))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
