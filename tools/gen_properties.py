#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, pathlib
D="ginko/src/dts/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

p("C01","No document can crash or hang the checker",
 "For every document text (well-formed or not, complete or truncated, ASCII or not), checking it, rendering its diagnostics and querying it at any position terminates normally: no panic, no abort, no endless loop, no unbounded memory. This also holds when a document nests nodes or parentheses very deeply, and when it includes itself, a missing file, a directory, a pipe, a device or an unreadable file.",
 ["inputs"],"every text over the device-tree token alphabet and over raw characters, every truncation, every cursor position",
 "The unit tests run about thirty fixed texts, nearly all well-formed; a panic or a loop without progress on some other text or cursor position is invisible to them.",
 [D+"parser.rs",D+"tokens/lexer.rs",D+"reader.rs",D+"analysis.rs",D+"project.rs",D+"diagnostics.rs",D+"visitor.rs",D+"data.rs"],
 [("every lexer/parser loop consumes a token or returns","parser.rs node_payload/property_value/file, lexer.rs consume"),("nesting limit","parser.rs node_payload")],
 ["Project::add_file_with_text","Project::get_diagnostics","Project::find_at_pos","DiagnosticPrinter Display"])

p("C02","Well-formed source is accepted without any complaint",
 "A document that follows the supported device-tree source grammar and breaks no lint rule gets no diagnostic at all, whatever combination of version header, plugin marker, memory reservations, includes, nodes, labels, properties, cell lists, strings, byte strings, references, expressions, bits prefixes, delete and omit directives it uses.",
 ["inputs","programs"],"every well-formed document up to the stated size over the construct alphabet",
 "The tests accept a handful of sample files; a false error on one combination of two constructs (say a label before a byte in the second value of a list) is only found by trying the combinations.",
 [D+"parser.rs",D+"tokens/lexer.rs",D+"analysis.rs"],
 [("recursive descent over the token stream","parser.rs primary/node_payload/property_values"),("context-dependent name lexing","lexer.rs LexerState")],
 ["diagnostics of the document"])

p("C03","Malformed source is never accepted silently",
 "A document that does not follow the device-tree source grammar always gets at least one error diagnostic: a missing, extra or wrong token, an unterminated string, comment, path reference, directive or parenthesis, or a dangling label or directive is never passed over in silence. This holds wherever in the document the mistake sits, including at its very end (of an arithmetic expression, only the balance of its parentheses is examined).",
 ["inputs","programs"],"every document up to the stated size, and every document one token edit or one truncation away from a well-formed one",
 "The tests contain about ten malformed samples; silence on a malformed document is the absence of an output nobody asked for.",
 [D+"parser.rs",D+"tokens/lexer.rs",D+"diagnostics.rs"],
 [("every unexpected token becomes a diagnostic","parser.rs"),("unterminated constructs become a token the parser rejects","lexer.rs")],
 ["diagnostics of the document"])

p("C04","The syntax tree mirrors the source",
 "For every well-formed document, the syntax tree contains exactly the constructs of the text, in source order and with the source nesting: each top-level element, node (label, name, unit address, omit marker), property (label, name, every value and every cell in order), deletion and include, and nothing else.",
 ["inputs","programs"],"every well-formed document up to the stated size",
 "Tests compare the tree of about fifteen documents; a dropped second value, a swapped unit address or a lost label in another combination is not seen.",
 [D+"parser.rs",D+"ast.rs",D+"tokens/lexer.rs"],
 [("tree construction","parser.rs"),("name/unit-address split","ast.rs NodeName::from")],
 ["Project::get_root","Parser::file"])

p("C05","Every reported source range is exact",
 "Every range the tool reports (for tree elements, names, labels, values, references and diagnostics) is the range of exactly that construct in the document, counted in zero-based lines and UTF-16 code units as the language server protocol defines, whatever whitespace, tabs, CRLF line ends, comments or non-ASCII text precede it. No range lies outside the document or ends before it starts.",
 ["inputs"],"every well-formed document up to the stated size with every choice of preceding layout, and every diagnostic on malformed ones",
 "Tests check positions for a few ASCII documents with spaces only; positions depend on everything that precedes them.",
 [D+"reader.rs",D+"tokens/lexer.rs",D+"data.rs",D+"ast.rs",D+"parser.rs"],
 [("position accounting","reader.rs ByteReader::consume"),("token spans","lexer.rs"),("derived spans","ast.rs HasSpan impls")],
 ["spans of tree elements","Diagnostic.span"])

p("C06","Layout and comments carry no meaning",
 "Changing the whitespace between two tokens, or inserting or removing line or block comments (whatever they contain) between them, changes neither the syntax tree nor which problems are reported; only positions move. The position reported for a missing token is the end of the token before the gap, not somewhere inside the whitespace or comments that follow it.",
 ["inputs"],"every document of the corpus, every gap, every separator of the separator alphabet",
 "Tests use one layout per document; comment handling interacts with every lexer state and lookahead.",
 [D+"tokens/lexer.rs",D+"parser.rs"],
 [("comment skipping below the parser","lexer.rs Iterator for Lexer"),("last_pos","lexer.rs")],
 ["diagnostics and tree of the document"])

p("C07","Literals are decoded exactly or rejected",
 "Every integer literal in a cell list (32 bit, or as a preceding bits directive says) or memory reservation (64 bit), in decimal, octal with leading 0 or hexadecimal with leading 0x, yields exactly its mathematical value, and a literal that is malformed or does not fit is reported as an error at that literal, as is a width other than 8, 16, 32 or 64. Byte strings yield exactly their bytes and are reported if a group has an odd number of digits or a non-hexadecimal digit; quoted strings yield exactly their characters with escaped quotes and backslashes unescaped.",
 ["inputs"],"every literal up to the stated length over the digit alphabet, all width boundaries, every string over the string alphabet",
 "Tests decode six integers, four byte strings and six strings; base selection and overflow are per-literal decisions.",
 [D+"parser.rs",D+"tokens/lexer.rs",D+"ast.rs"],
 [("number_u32, memreserve_number_u64, byte_string","parser.rs"),("string, number","lexer.rs")],
 ["tree values","Diagnostic kind int_error / odd_number_of_bytestring_elements"])

p("C08","A forgotten semicolon stays one local, well-placed error",
 "If exactly one semicolon that terminates a node, a valued property or a directive is left out of an otherwise clean document, exactly one problem is reported, it asks for ';' at the end of the token before the gap, and the rest of the document is still analysed: the tree, names, references and all other diagnostics are as if the semicolon were there. Leaving out several such semicolons reports each of them (unless the text that follows can also be read as a continuation of the unfinished construct, as a label after a value can).",
 ["inputs","programs"],"every clean document of the corpus, every subset of its recoverable semicolons",
 "One test covers three missing semicolons in one document; the recovery interacts with the lookahead token and the lexer state.",
 [D+"parser.rs",D+"tokens/lexer.rs"],
 [("expect_semicolon","parser.rs"),("insert_pseudo_kind, last_pos","lexer.rs")],
 ["diagnostics and tree of the document"])

p("C09","Name rules are enforced exactly",
 "A label, node name, unit address, property name or reference is reported (once: at its first illegal character, or at the reference for a path, else at the name) if and only if it breaks the device-tree rules: allowed characters for its kind, 1 to 31 characters, a label not starting with a digit and a node name starting with a letter. An over-long name is a warning, every other breach an error and reported in preference, and the rules apply the same wherever the name is declared, referenced or deleted.",
 ["inputs"],"every name up to the stated length over a character alphabet with one representative per class plus all lengths around the limit, in every name position",
 "Tests try five names; each rule has its own character class, limit and position.",
 [D+"parser.rs",D+"error_codes.rs",D+"ast.rs"],
 [("check_ident and its callers","parser.rs")],
 ["Diagnostic kind illegal_char / name_too_long / illegal_start / expected_name"])

p("C10","Directive and placement rules are enforced exactly",
 "For every syntactically valid document: a plain source file without version header is an error, a repeated header is a warning, a header after the first non-include element is an error, a property placed after a child node of the same parent is an error, an omit marker on a property is an error, a semicolon after an include is an error, an empty path reference is an error, and a non-string value in a compatible property is a warning. Each is reported exactly once per offending construct, at that construct, and never otherwise; include and overlay files are not required to have the header.",
 ["inputs","programs","configurations"],"every sequence of top-level elements and of node items up to the stated length, for every file type",
 "Tests cover one or two instances of three of the rules and no combination with file type or ordering.",
 [D+"analysis.rs",D+"parser.rs",D+"data.rs",D+"error_codes.rs"],
 [("header/placement state machine","analysis.rs analyze_file"),("node_discovered","parser.rs node_payload")],
 ["Diagnostic kinds non_dts_v1, duplicate_directive, misplaced_dts_header, property_after_node, incorrect_directive, parser_error, path_cannot_be_empty, non_string_in_compatible"])

p("C11","A reference is reported as unresolved iff nothing defines it",
 "In a plain source file, a label or path reference inside a property value is reported as unresolved exactly when no node or property of the file or of the files it includes carries that label or lies at that path; a reference that extends or deletes a node is judged against what is defined before it. Nodes contributed by re-opening or extending a node, by label or path, at any depth, count as defined at their true path and keep the labels given earlier; include, overlay and plugin files never report unresolved references.",
 ["programs","inputs"],"every sequence of definitions, extensions and uses over the element alphabet up to the stated length, for every file type, alone or split over an included file",
 "Tests resolve references in three fixed documents; resolution depends on order, depth, duplicates and on which of two lookup structures is consulted.",
 [D+"analysis.rs",D+"project.rs"],
 [("label and path tables","analysis.rs analyze_node/resolve_reference/resolve_references")],
 ["Diagnostic kind unresolved_reference"],
 state=[("labels","label to node or property","analysis.rs FileContext"),("flat_nodes","path to node","analysis.rs FileContext")])

p("C12","Includes are resolved in the right order and really contribute",
 "An include names the first existing match of its file name, looking first in the directory of the including file, then in the configured include paths in the given order, and finally relative to the working directory; absolute names are taken as they are. Every file reached through includes, directly or through other includes, is checked too and its labels and paths become visible to the includer from that point on; an include that names no readable file is reported exactly once as an error at the include, and invalid include paths are ignored.",
 ["configurations","inputs"],"every placement of a file over the search locations, every include path list up to the stated length, every acyclic include graph up to the stated size",
 "Tests cover absolute includes and one two-path configuration; shadowing, order, nesting and failure combinations are not sampled.",
 [D+"ast.rs",D+"project.rs",D+"analysis.rs"],
 [("Include::path","ast.rs"),("parse_file / parse_included_file","project.rs"),("analyze_include","analysis.rs")],
 ["Project::get_file, get_diagnostics, get_node_position"])

p("C13","Include cycles are detected exactly and never hang",
 "For every include graph, checking terminates; a cyclic-include error that names a real cycle of include directives is reported if the files reachable from the checked file include each other in a cycle (a file including itself counts), and no such error is reported if they do not, however often or through however many routes a file is included.",
 ["configurations","inputs"],"every include graph on up to the stated number of files, including self-includes, repeated includes and every order of include directives",
 "Tests cover one two-file cycle through the project and ten graphs on the dependency checker alone.",
 [D+"import_guard.rs",D+"analysis.rs",D+"project.rs"],
 [("ImportGuard::add","import_guard.rs"),("placeholder entry while parsing","project.rs parse_file")],
 ["Diagnostic kind cyclic_dependency_error"],
 state=[("nodes","include edges seen so far","import_guard.rs ImportGuard")])

p("C14","Errors in included files surface at the include, warnings do not",
 "An include directive is marked as including a faulty file exactly when the included file, or any file it includes in turn, has at least one error-level problem of its own; files with only warnings do not mark their includers. Every problem is reported in the file that contains it, exactly once, with its documented severity, no matter through how many includers it is reached.",
 ["configurations","programs"],"every acyclic include graph up to the stated size with every assignment of clean, warning and error content",
 "One test covers one error in one directly included file.",
 [D+"analysis.rs",D+"project.rs",D+"error_codes.rs"],
 [("analysis in dependency order","project.rs compute_key_order"),("has_errors","project.rs"),("SeverityMap","error_codes.rs")],
 ["Diagnostic kind errors_in_include"])

p("C15","Results depend on current contents, not on the edit history",
 "After any sequence of opening, editing and closing documents, the diagnostics and definitions reported for each document are those a fresh project given the same current contents would report; nothing of an earlier version of any document (its errors, labels, nodes or includes) lingers or is missing. Closing a document that others include falls back to its content on disk for them.",
 ["histories"],"every history of set and close operations over a small set of mutually including documents and contents, up to the stated length",
 "Tests never edit or close a document; the cache of parsed files and analysis results is only exercised once per project.",
 [D+"project.rs",D+"analysis.rs"],
 [("add_file_with_text re-parses one file and re-analyses all","project.rs"),("remove_file","project.rs")],
 ["Project::get_diagnostics, get_node_position after each step"],
 state=[("files","cached parse and analysis of every file","project.rs Project")])

p("C16","Results do not depend on hashing or on the order files are added",
 "Checking the same set of files always gives the same diagnostics and the same definitions, whatever order the files are added in and whatever the iteration order of internal hash tables; in particular every file is judged after the files it includes.",
 ["schedules","configurations"],"every order of adding the files, every hash-iteration order of up to the stated number of files",
 "Each test run sees one random hash order of one order of addition.",
 [D+"project.rs",D+"analysis.rs",D+"import_guard.rs"],
 [("compute_key_order","project.rs")],
 ["Project::get_diagnostics over repeated runs"])

p("C17","The command line verdict matches the diagnostics",
 "The command-line tool exits with status 0 and prints its all-clear message if and only if neither the given file nor any file it includes has a diagnostic; otherwise it exits non-zero, prints no all-clear, and prints every diagnostic exactly once with its severity, file, 1-based line and column and message. Include paths given with -i/--include are searched in the order given, and a file that cannot be read gives a non-zero exit.",
 ["inputs","configurations"],"every scenario of the command-line corpus: contents, include graphs, include options, missing files",
 "The command-line program has no tests at all.",
 ["ginko/src/main.rs",D+"diagnostics.rs",D+"project.rs"],
 [("main","ginko/src/main.rs"),("DiagnosticPrinter","diagnostics.rs")],
 ["process exit status and standard output"])

p("C18","Rendered diagnostics show the offending source",
 "For every diagnostic, the rendered report consists of its severity, file, 1-based line and column, the complete source line it starts on, and a marker line whose carets start under the first character of the range and cover the range as far as it extends on that line (at least one caret), followed by the message, also for ranges spanning several lines, lines with tabs or non-ASCII text, and positions at the end of a line or of the file.",
 ["inputs"],"every range within every source text of the rendering corpus, every severity",
 "Tests render two single-line ASCII diagnostics.",
 [D+"diagnostics.rs"],
 [("fmt_diagnostic","diagnostics.rs")],
 ["DiagnosticPrinter Display output"])

p("C19","The language server survives every session and answers each request",
 "For every sequence of protocol messages, in any order and at any position, including edits of unopened, closed, unsaved or non-file documents, empty or multiple content changes, unknown files and methods and invalid settings, the server keeps running and answers each request exactly once (with a result or an error) in a form that conforms to the protocol.",
 ["histories","inputs"],"every message sequence up to the stated length over the message alphabet",
 "The language server has no tests at all.",
 ["ginko_ls/src/server.rs","ginko_ls/src/main.rs",D+"project.rs"],
 [("LanguageServer impl","server.rs")],
 ["JSON-RPC responses and process liveness"])

p("C20","Published diagnostics converge to the current text",
 "Once the server has processed a sequence of opens and edits and the client has drained its output, the last diagnostics published for every document and for every file it includes are those of the current contents (the last change of a notification wins), with the ranges, codes, messages and severities the checker reports, whatever the interleaving of notification handlers and output. This also holds after the include paths are reconfigured; those given on the command line stay in effect.",
 ["schedules","histories"],"every edit history up to the stated length, every interleaving of up to the stated number of concurrent handlers and output steps",
 "The language server has no tests; a stale publication needs two handlers overlapping at an await point.",
 ["ginko_ls/src/server.rs",D+"project.rs"],
 [("publish_diagnostics reads the project immediately before each send","server.rs"),("write lock around add_file_with_text","server.rs")],
 ["textDocument/publishDiagnostics notifications"],
 state=[("project","the shared project behind a lock","server.rs Backend")])

p("C21","Cursor queries answer for exactly the construct under the cursor",
 "At every position of every document, go-to-definition on a label or path reference leads to the name of the node it denotes (in whatever file that is), on an include directive leads to the start of the included file, and anywhere else yields nothing; hover on a reference describes that same node, on a label shows the label, on an include shows the included name, and yields nothing elsewhere.",
 ["inputs","programs"],"every position of every document of the navigation corpus, over one and several files",
 "Tests query two positions of one document and never a position without an item.",
 [D+"visitor.rs",D+"project.rs",D+"analysis.rs","ginko_ls/src/server.rs"],
 [("item_at_cursor","visitor.rs"),("get_node_position, document_reference","project.rs"),("goto_definition, hover","server.rs")],
 ["textDocument/definition and textDocument/hover responses"])

p("C22","The outline mirrors the document and its ranges nest",
 "The document outline lists exactly the nodes, properties, deletions, extensions and includes of the document, in source order and nesting, under their names; every entry's selection range is the name itself, lies inside its full range, and full ranges of children lie inside the parent's.",
 ["inputs","programs"],"every document of the outline corpus (every sequence of items up to the stated length and depth)",
 "The language server has no tests at all.",
 ["ginko_ls/src/server.rs",D+"ast.rs"],
 [("document_symbol","server.rs"),("HasSpan impls","ast.rs")],
 ["textDocument/documentSymbol response"])

out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P),"properties")
