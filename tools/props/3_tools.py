def proj(*n): return ["projects/" + x for x in n]
def mech(*p): return [(a, "projects/" + b) for a, b in p]
prop("C17", "Offsets and line/column positions convert into each other exactly",
 """For every text, with any mix of line endings and characters of one to four bytes, LineMap converts a byte offset to line and column (bytes or UTF-16 units) and back without loss, positions order like offsets, ranges convert end by end, and offsets or positions outside the text give the nearest place in it, never a panic or a place inside a character.""",
 ["inputs"], "all texts x all offsets and positions", "Errors show with multi-byte characters, on last lines and past line ends only.",
 proj("oak-vfs/src/line_map.rs"), mech(("LineMap", "oak-vfs/src/line_map.rs")), "tools", "reference: counting characters; a column past the end of a line may be any place from the line's content end to its line break")
prop("C18", "MemoryVfs behaves like a map from paths to texts",
 """After any history of writes, reads, renames, removals and directory operations, MemoryVfs answers existence, kind, contents, metadata, listing, and ids as a plain map from normalized paths to texts would; ids and uris stay paired; several threads writing different files lose nothing.""",
 ["histories", "schedules"], "all histories of operations over a small set of paths", "The tests write one file and read it.",
 proj("oak-vfs/src/vfs/memory.rs", "oak-vfs/src/lib.rs"), mech(("MemoryVfs", "oak-vfs/src/vfs/memory.rs")), "tools", "model: a map; real threads, schedules not controlled", technique="stateful property-based testing against a model")
prop("C19", "DiskVfs and its watcher report what is on disk",
 """In any directory tree DiskVfs answers existence, kind, length, contents and listing as the file system does and keeps uris and source ids paired, one id for each, also where several threads share it; DiskWatcher passes on events exactly for watched paths and none after unwatch or unwatch_all.""",
 ["histories", "inputs", "schedules"], "all small directory trees x histories of operations; schedules of threads that read", "No test touches the disk.",
 proj("oak-vfs/src/vfs/disk.rs"), mech(("DiskVfs", "oak-vfs/src/vfs/disk.rs"), ("DiskWatcher", "oak-vfs/src/vfs/disk.rs")), "tools", "differential against std::fs in a scratch directory; file-system events are waited for with a limit", technique="stateful property-based testing against the file system")
prop("C20", "Diagnostics shown or exported point at the reported text",
 """For every text and every diagnostic (labels, notes, code, severities, any spans), the console, plain, HTML and LSP emitters show the code and message, the right line and column of every label, the text of the lines it covers, and markers under exactly the characters it covers; HTML is well-formed with everything escaped, and LSP ranges are the label's in UTF-16. Turning an OakError into a diagnostic keeps its message and place.""",
 ["inputs"], "all texts x all diagnostics", "The tests have one label on one line of ASCII.",
 proj("oak-diagnostic/src/lib.rs", "oak-diagnostic/src/emitter.rs") if os.path.exists("/repo/projects/oak-diagnostic/src/emitter.rs") else proj("oak-diagnostic/src/lib.rs"),
 mech(("Emitters", "oak-diagnostic/src"), ("Diagnostic::from OakError", "oak-diagnostic/src")), "tools", "reference rendering parsed back from the output; the number of markers on the inner lines of a label over several lines is not judged", technique="property-based testing, parsing the output back")
prop("C21", "Symbols and navigation index find exactly the definitions and references",
 """For every tree of a language, the symbol list and the navigation index built from it hold exactly the definitions and references in the tree with their names, kinds and ranges, and asking for the definition or the references at an offset gives exactly those whose name is at that offset.""",
 ["inputs"], "all trees over a small language with definitions, uses and scopes x all offsets", "The crates have no tests beyond construction.",
 proj("oak-symbols/src/lib.rs", "oak-navigation/src/lib.rs"), mech(("SymbolProvider, SymbolInformation", "oak-symbols/src/lib.rs"), ("NavigationProvider, references", "oak-navigation/src/lib.rs")), "tools", "reference: the generated tree itself")
prop("C22", "GlobalSymbolTable holds every file's latest symbols and nothing else",
 """After any history of updates, removals and clears by one or several threads, the table's lookup, search, per-file and all-symbol queries return exactly the symbols each file had in its last update: files that define the same name do not lose each other's symbols, and an update drops the old ones.""",
 ["histories", "schedules"], "all histories of updates over a small set of files and names", "No test updates twice or has two files with one name.",
 proj("oak-symbols/src/lib.rs"), mech(("GlobalSymbolTable", "oak-symbols/src/lib.rs")), "tools", "model: a map from file to symbols; real threads, schedules not controlled", technique="stateful property-based testing against a model")
prop("C23", "Module resolution and workspace folders follow their documented rules",
 """For every set of files, roots, extensions and importing file, StandardResolver returns the first existing candidate in its documented order and nothing when none exists, and WorkspaceManager answers which folder a path belongs to as a plain list of folders would after any history of changes.""",
 ["inputs", "histories"], "all small sets of files x roots x import paths; histories of folder changes", "No tests exist.",
 proj("oak-resolver/src/lib.rs", "oak-lsp/src/workspace.rs"), mech(("StandardResolver", "oak-resolver/src/lib.rs"), ("WorkspaceManager", "oak-lsp/src/workspace.rs")), "tools", "reference resolver over the set of files; whether added folders become resolver roots is not judged")
prop("C24", "LanguageService's default answers agree with the tree and the files",
 """For every workspace and request, the default methods of LanguageService (symbols, definition, references, rename, hover, diagnostics, workspace search, file listing …) answer what the tree, the symbol table and the file system hold, whatever was indexed before.""",
 ["inputs", "histories"], "all small workspaces x requests at all offsets", "The tests have one file and one request each.",
 proj("oak-lsp/src/service.rs"), mech(("LanguageService", "oak-lsp/src/service.rs")), "tools", "reference answers computed from the generated documents; for references nested in references either is accepted")
prop("C25", "The MCP server answers every message with what the service holds",
 """For every sequence of lines, well-formed or not, the MCP server writes exactly one valid JSON-RPC answer with the request's id per request (errors with the documented codes, nothing for notifications), never stops early, and each listed tool returns what the language service answers for its arguments.""",
 ["histories", "inputs"], "all sequences of messages, including malformed JSON, wrong types, unknown methods and tools", "No tests exist.",
 proj("oak-mcp/src/lib.rs"), mech(("McpServer", "oak-mcp/src/lib.rs")), "tools", "whole sessions over in-memory streams, checked against the service", technique="stateful property-based testing over sessions")
prop("C26", "IDE types keep their values through JSON",
 """Every value of the types exchanged with editors (ranges, locations, symbols, edits, completions, folding ranges, tokens, capabilities …) comes back equal from JSON in the field names and numbers the protocol prescribes, and request parameters are read from any JSON the protocol allows.""",
 ["inputs"], "all values of the exchanged types", "One type is tested with one value.",
 proj("oak-lsp/src/types.rs"), mech(("protocol types", "oak-lsp/src/types.rs")), "tools", "round trip, and field names against the protocol")
prop("C27", "Pretty printing fills the width and loses nothing",
 """For every document, width, indent and line-ending, rendering keeps all texts in order, breaks a group exactly when it does not fit the width (measured in characters), indents every line by the enclosing indents, and the doc! macro and the AsDocument derive build the document they read as.""",
 ["inputs"], "all documents x configurations", "The tests render a handful of ASCII documents.",
 proj("oak-pretty-print/src/document/printer.rs", "oak-pretty-print/src/document/mod.rs", "oak-macros/src/doc.rs", "oak-macros/src/to_doc.rs"), mech(("Printer", "oak-pretty-print/src/document/printer.rs"), ("doc!", "oak-macros/src/doc.rs"), ("derive AsDocument", "oak-macros/src/to_doc.rs")), "tools", "reference: an independent layout function over the document; Line in unbroken groups is a known finding", technique="property-based testing against a reference layout")
prop("C28", "The formatter applies the right rules everywhere and keeps comments",
 """For every tree, rule set and configuration, the formatter applies to each node and token the applicable rule of highest priority, prints everything else unchanged, reports conflicting rules and a rule's failure, and comment collection attributes every comment to its place; trimming and the final newline do just what they say.""",
 ["inputs"], "all trees x rule sets x configurations", "No test has two rules.",
 proj("oak-pretty-print/src/formatter/mod.rs", "oak-pretty-print/src/rules/mod.rs", "oak-pretty-print/src/comment/mod.rs", "oak-pretty-print/src/builtin_rules/mod.rs"), mech(("Formatter", "oak-pretty-print/src/formatter/mod.rs"), ("RuleSet", "oak-pretty-print/src/rules/mod.rs"), ("CommentCollector", "oak-pretty-print/src/comment/mod.rs")), "tools", "reference: a simulation of the rules over the generated tree")
prop("C29", "Highlighting covers the whole text and every export shows it unchanged",
 """For every tree of every kind of language and every theme, the highlighter's segments join to the source text, each with the style the theme gives the most specific scope of the token; HTML, ANSI, JSON and CSS exports read back give the same text and styles, with everything escaped.""",
 ["inputs"], "all trees of languages of five categories x themes x export formats", "The tests highlight a few ASCII words and compare nothing.",
 proj("oak-highlight/src/highlighter/mod.rs", "oak-highlight/src/exporters/mod.rs", "oak-highlight/src/themes/mod.rs"), mech(("HighlightVisitor, OakHighlighter", "oak-highlight/src/highlighter/mod.rs"), ("exporters", "oak-highlight/src/exporters/mod.rs")), "tools", "reference: scopes and theme lookup recomputed from the generated tree; exports are parsed back; which of several styles at equal depth wins is not judged", technique="property-based testing, parsing the exports back")
prop("C30", "The REPL hands over exactly what was typed and shows where input goes",
 """For every sequence of keys the REPL edits the current input character by character, continues it while the handler calls it incomplete, hands each complete input to the handler exactly once and in order, shows the right prompt, text and cursor, and leaves the terminal in the mode it found on every way out.""",
 ["histories"], "all sessions of keys (text of any script, enter, backspace, ctrl-c, ctrl-d, arrows) x handler answers", "No test can run it: it needs a terminal.",
 proj("oak-repl/src/lib.rs"), mech(("OakRepl::run", "oak-repl/src/lib.rs"), ("LineBuffer", "oak-repl/src/lib.rs")), "tools", "model: a text buffer; the REPL runs in a child under a pseudo terminal whose screen is emulated", technique="stateful property-based testing against a model")
prop("C31", "Layouts place every node and edge once, apart and in the right direction",
 """Every layout of every graph, tree or list of nodes holds exactly the given nodes with their labels, types and sizes at finite places inside the bounds, and exactly the edges between them, running from node to node; layered layouts put what is below below, grids, layers and tree levels do not overlap, circular ones are circles, and force-directed ones move by springs along edges and repulsion between nodes. Cycles, loops and edges to unknown nodes do no harm.""",
 ["inputs"], "all graphs, trees and node lists (any sizes, labels, edges) x algorithms", "The tests lay out three nodes with distinct names in a line.",
 proj("oak-visualize/src/graph/mod.rs", "oak-visualize/src/tree/mod.rs", "oak-visualize/src/layout/mod.rs"), mech(("GraphLayout", "oak-visualize/src/graph/mod.rs"), ("TreeLayout", "oak-visualize/src/tree/mod.rs"), ("LayoutEngine", "oak-visualize/src/layout/mod.rs")), "tools", "invariants of the layout; where cyclic graphs put their nodes is not judged beyond that")
prop("C32", "Rendered images and exports show exactly the layout",
 """For every layout, configuration and set of styles, SVG and HTML are well-formed and draw each node and edge once at its place, inside the image, with its label and style and everything escaped, and JSON holds every node and edge; trees of a language, graphs and plain trees are drawn with all their labels.""",
 ["inputs"], "all layouts x configurations x styles; all trees and graphs the whole way", "The tests look for one substring.",
 proj("oak-visualize/src/render/mod.rs", "oak-visualize/src/tree/mod.rs"), mech(("SvgRenderer", "oak-visualize/src/render/mod.rs"), ("LayoutExporter", "oak-visualize/src/render/mod.rs"), ("TreeNode::from", "oak-visualize/src/tree/mod.rs")), "tools", "the images are parsed back and compared with the layout", technique="property-based testing, parsing the output back")
prop("C33", "Graph queries, tree counts and geometry compute what they are named for",
 """For every graph, neighbours, degrees, connectedness and the existence of cycles are those of its edges, and every cycle reported is one; tree counts and depth are those of the tree; points, rectangles and transforms follow plane geometry; what is built piece by piece holds every piece.""",
 ["inputs"], "all graphs and trees; all points, rectangles and chains of transforms", "The tests have one example each, for directed graphs mostly.",
 proj("oak-visualize/src/graph/mod.rs", "oak-visualize/src/tree/mod.rs", "oak-visualize/src/geometry/mod.rs"), mech(("Graph", "oak-visualize/src/graph/mod.rs"), ("TreeNode", "oak-visualize/src/tree/mod.rs"), ("geometry", "oak-visualize/src/geometry/mod.rs")), "tools", "reference: direct definitions; a directed graph counts as connected when it is without regard to direction")
prop("C34", "Test runners pass exactly when the output is the stored one",
 """For every directory of test files, a lexer, parser or builder test run passes exactly when each file with a chosen extension gives the stored result, and otherwise fails naming a file at fault; a result not stored yet is written (and taken from its former name), regenerating rewrites them all, and nothing else in the directory changes. A language slower than the limit fails the run, and the file helpers read and write whole files.""",
 ["histories", "inputs"], "all histories of writing files, changes of what the language answers, edits of stored results and runs of the three runners", "The runners are used by every language's tests, always with matching results; none shows that a difference is found.",
 ["projects/oak-testing/src/lexing.rs", "projects/oak-testing/src/parsing.rs", "projects/oak-testing/src/building.rs", "projects/oak-testing/src/lib.rs", "projects/oak-core/src/helpers/mod.rs"],
 mech(("LexerTester", "oak-testing/src/lexing.rs"), ("ParserTester", "oak-testing/src/parsing.rs"), ("BuilderTester", "oak-testing/src/building.rs")), "tools", "model of the directory; a stub language whose answers the history changes", technique="stateful property-based testing against a model")
prop("C35", "Macros make exactly what their arguments spell",
 """For every well-formed call, json! makes the value and doc! the document that its argument spells, with each expression converted as a whole; define_rules! makes the rules in order, with their names, priorities, conditions and bodies, and a derived AsDocument or FormatRule follows its attributes for every shape of type. A test written with oak_test, test_lexer! or test_parser! passes exactly when its body or the stored results say so. A malformed call is an error of compilation and never silently ignored.""",
 ["inputs"], "all well-formed calls of the macros (nested values and documents with literals and expressions, sets of rules, types with attributes, tests), and malformed ones", "The macros are used in a few places with one form each; an expansion is only right if every form compiles and means what it says.",
 ["projects/oak-macros/src/json.rs", "projects/oak-macros/src/doc.rs", "projects/oak-macros/src/to_doc.rs", "projects/oak-macros/src/define_rules.rs", "projects/oak-macros/src/format_rule.rs", "projects/oak-macros/src/test.rs"],
 mech(("json!", "oak-macros/src/json.rs"), ("doc!", "oak-macros/src/doc.rs"), ("AsDocument derive", "oak-macros/src/to_doc.rs"), ("define_rules!", "oak-macros/src/define_rules.rs"), ("test macros", "oak-macros/src/test.rs")), "macros", "generated programs, compiled in batches with rustc and run; each call against the same thing spelled by hand (differential)", technique="property-based testing of generated programs")
